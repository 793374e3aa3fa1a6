// Saving and loading: an asset group holding the components under test is written to a file and read back.
#include "common.h"
#include <lm/assetgroup.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/film.h>
#include <lm/texture.h>
#include <lm/mesh.h>
#include <lm/accel.h>
#include <lm/scheduler.h>
#include <lm/serial.h>
#include <fstream>
using namespace lm; using namespace hx;
extern "C" int getpid(); extern "C" int unlink(const char*);
struct File { std::string p; File() { if (vp_is_symbolic_run()) p = "f"; else p = "/tmp/vp-serial-" + std::to_string(getpid()); } ~File() { if (!vp_is_symbolic_run()) unlink(p.c_str()); } };
struct W { // the tree: $.assets.a holds the originals, $.assets.b the copies
    File file; Root root; Component::Ptr<AssetGroup> top; AssetGroup *a = nullptr, *b = nullptr;
    W() { top = comp::create<AssetGroup>("asset_group::default", "$.assets"); vp_assert((bool)top, "created"); root.add("assets", top.get()); a = (AssetGroup*)top->load_asset("a", "asset_group::default", Json::object()); vp_assert(a, "created"); }
    Component* add(const std::string& n, const std::string& key, Json j) { auto* p = a->load_asset(n, key, j); vp_assert(p, "created"); vp_assert(p && p == comp::get<Component>("$.assets.a." + n), "found-under-its-name"); return p; }
    void trip() { { std::ofstream os(file.p, std::ios::out | std::ios::binary); serial::save_comp_owned<Component>(os, a, a->loc()); } b = dynamic_cast<AssetGroup*>(top->load_serialized("b", file.p)); vp_assert(b && b == comp::get<AssetGroup>("$.assets.b"), "loaded-under-new-name"); if (!b) vp_end(); }
    template <class T> T* orig(const std::string& n) { T* p = comp::get<T>("$.assets.a." + n); if (!p) vp_end(); return p; }
    template <class T> T* copy(const std::string& n) { T* p = comp::get<T>("$.assets.b." + n); vp_assert(p && p != comp::get<T>("$.assets.a." + n), "copy-is-a-new-instance"); if (!p) vp_end(); vp_assert(p->loc() == "$.assets.b." + n && p->key() == orig<T>(n)->key(), "copy-keeps-name-and-type"); return p; }
};
static std::string A(const char* n) { return std::string("$.assets.a.") + n; }
static Vec3 bvec(const char* n, double r = 1e6) { std::string s(n); return Vec3(vp_real_in((s + ".x").c_str(), -r, r), vp_real_in((s + ".y").c_str(), -r, r), vp_real_in((s + ".z").c_str(), -r, r)); }
static void beq(bool a, bool b, const char* l) { vp_assert(a == b, l); }
// ------------------------------------------------------------------ textures
VP_ENTRY(textures) { W w; Vec3 c = color("c"); double al = vp_real_in("alpha", 0, 1); Json j{{"color", j3(c)}}; bool has = vp_choice("has_alpha", 2); if (has) j["alpha"] = al; w.add("t", "texture::constant", j); w.trip(); auto *t = w.copy<Texture>("t"), *o = w.orig<Texture>("t"); eq3(t->eval(Vec2(0.3)), c, "color"); eq3(t->eval_by_pixel_coords(0, 0), c, "color"); beq(t->has_alpha(), o->has_alpha(), "alpha"); if (o->has_alpha()) eq(t->eval_alpha(Vec2(0.3)), o->eval_alpha(Vec2(0.3)), "alpha"); }
// ------------------------------------------------------------------ materials
static void same_material(const Material* x, const Material* y, int comps, bool marginal = true) {
    auto g = surf(Vec3(0), Vec3(0, 0, 1), Vec2(vp_real_in("tu", 0, 1), vp_real_in("tv", 0, 1))); Vec3 wi(0.48, 0.64, 0.6), wo = vp_choice("wo", 2) ? Vec3(0, 0.6, 0.8) : Vec3(0.6, 0, -0.8);
    for (int k = 0; k < comps; k++) for (int d = 0; d < 2; d++) { auto D = d ? TD::LE : TD::EL; eq3(y->eval(g, wi, wo, k, D, false), x->eval(g, wi, wo, k, D, false), "eval"); eq(y->pdf_direction(g, wi, wo, k, false), x->pdf_direction(g, wi, wo, k, false), "pdf"); beq(x->is_specular_component(k), y->is_specular_component(k), "specular");
        Material::DirectionSampleU us; us.ud = Vec2(0.3, 0.7); us.udc = Vec2(u01("u"), 0.4); auto p = x->sample_direction(us, g, wi, k, D), q = y->sample_direction(us, g, wi, k, D); beq((bool)p, (bool)q, "sample"); if (p && q) { eq3(q->wo, p->wo, "sample"); eq3(q->weight, p->weight, "sample"); } }
    double uc = u01("uc"); auto p = x->sample_component({Vec2(uc, 0.5)}, g, wi), q = y->sample_component({Vec2(uc, 0.5)}, g, wi); beq(p.comp == q.comp, true, "component"); eq(q.weight, p.weight, "component-weight"); for (int k = 0; k < comps; k++) eq(y->pdf_component(k, g, wi), x->pdf_component(k, g, wi), "component-pdf");
    eq3(y->reflectance(g), x->reflectance(g), "reflectance"); }
static void check(W& w, const char* n, int comps) { same_material(w.orig<Material>(n), w.copy<Material>(n), comps); }
VP_ENTRY(material_diffuse) { W w; w.add("m", "material::diffuse", Json{{"Kd", j3(color("Kd"))}}); w.trip(); check(w, "m", 1); }
VP_ENTRY(material_diffuse_textured) { W w; w.add("t", "texture::constant", Json{{"color", j3(color("c"))}}); w.add("m", "material::diffuse", Json{{"mapKd", A("t")}}); w.trip(); check(w, "m", 1); }
VP_ENTRY(material_glossy) { W w; w.add("m", "material::glossy", Json{{"Ks", j3(color("Ks"))}, {"ax", vp_choice("ax", 2) ? 0.1 : 0.4}, {"ay", 0.25}}); w.trip(); check(w, "m", 1); }
VP_ENTRY(material_specular) { W w; w.add("g", "material::glass", Json{{"Ni", vp_real_in("Ni", 1.1, 3)}}); w.add("k", "material::mask", Json::object()); w.add("i", "material::mirror", Json::object()); w.trip(); int c = vp_choice("which", 3); if (c == 0) check(w, "g", 2); else if (c == 1) check(w, "k", 1); else check(w, "i", 1); }
VP_ENTRY(material_mixtures) { W w; w.add("d", "material::diffuse", Json{{"Kd", j3(color("Kd"))}}); w.add("e", "material::diffuse", Json{{"Kd", j3(color("Ke"))}}); w.add("i", "material::mirror", Json::object()); Json l = Json::array(); l.push_back(Json{{"material", A("d")}, {"weight", vp_real_in("w0", 0.1, 1)}}); l.push_back(Json{{"material", A("e")}, {"weight", vp_real_in("w1", 0.1, 1)}}); l.push_back(Json{{"material", A("i")}, {"weight", vp_real_in("w2", 0.1, 1)}}); bool rr = vp_choice("kind", 2); w.add("m", rr ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized", l); w.trip(); check(w, "m", rr ? 3 : 2); }
VP_ENTRY(material_proxy) { W w; w.add("d", "material::diffuse", Json{{"Kd", j3(color("Kd"))}}); w.add("m", "material::proxy", Json{{"ref", A("d")}}); w.trip(); check(w, "m", 1); }
// ------------------------------------------------------------------ media
VP_ENTRY(phases) { W w; w.add("h", "phase::hg", Json{{"g", vp_real_in("g", -0.9, 0.9)}}); w.add("i", "phase::isotropic", Json::object()); w.trip(); const char* n = vp_choice("which", 2) ? "h" : "i"; auto g = PointGeometry::make_degenerated(Vec3(0)); Vec3 wi(0.48, 0.64, 0.6), wo = unit("wo"); auto *x = w.orig<Phase>(n), *y = w.copy<Phase>(n); eq3(y->eval(g, wi, wo), x->eval(g, wi, wo), "eval"); eq(y->pdf_direction(g, wi, wo), x->pdf_direction(g, wi, wo), "pdf"); }
static void same_volume(Volume* x, Volume* y) { beq(x->has_color(), y->has_color(), "channels"); beq(x->has_scalar(), y->has_scalar(), "channels"); eq3(y->bound().min, x->bound().min, "bound"); eq3(y->bound().max, x->bound().max, "bound"); Vec3 p(0.31, -0.22, 0.4); if (x->has_scalar()) { eq(y->max_scalar(), x->max_scalar(), "max"); eq(y->eval_scalar(p), x->eval_scalar(p), "scalar"); } if (x->has_color()) eq3(y->eval_color(p), x->eval_color(p), "color"); }
static Json vbox(Json j) { j["bound_min"] = j3(Vec3(vp_real_in("lo", -9, -1))); j["bound_max"] = j3(Vec3(vp_real_in("hi", 1, 9))); return j; }
VP_ENTRY(volume_constant) { W w; Json j = Json::object(); int k = 1 + vp_choice("channels", 3); if (k & 1) j["color"] = j3(color("c")); if (k & 2) j["scalar"] = nonneg("s"); w.add("v", "volume::constant", vbox(j)); w.trip(); same_volume(w.orig<Volume>("v"), w.copy<Volume>("v")); }
VP_ENTRY(volume_checker) { W w; w.add("v", "volume::checker", Json{{"bound_min", j3(Vec3(-1, -2, 0))}, {"bound_max", j3(Vec3(1, 2, 1))}}); w.trip(); same_volume(w.orig<Volume>("v"), w.copy<Volume>("v")); }
VP_ENTRY(volume_shapes) { W w; Vec3 c = bvec("c"); double s = nonneg("s"); Vec3 col = color("col"); w.add("v", "volume::sphere", Json{{"pos", j3(c)}, {"radius", vp_real_in("r", 1, 9)}, {"scalar", s}, {"color", j3(col)}}); w.add("u", "volume::gaussian", Json{{"pos", j3(c)}, {"sigma", j3(Vec3(vp_real_in("r2", 1, 9)))}, {"scalar", s}, {"color", j3(col)}}); w.trip(); const char* n = vp_choice("which", 2) ? "v" : "u"; same_volume(w.orig<Volume>(n), w.copy<Volume>(n)); }
VP_ENTRY(volume_multi) { W w; for (int i = 0; i < 2; i++) w.add(i ? "v" : "u", "volume::sphere", Json{{"pos", j3(Vec3(0.1))}, {"radius", 3. + i}, {"scalar", vp_real_in("s", 1, 2)}, {"color", j3(color("col"))}}); Json l = Json::array(); l.push_back(A("u")); l.push_back(A("v")); w.add("m", "volume::multi", Json{{"volumes_alb", l}, {"volumes_den", l}}); w.trip(); same_volume(w.orig<Volume>("m"), w.copy<Volume>("m")); }
VP_ENTRY(medium_homogeneous) { W w; w.add("p", "phase::isotropic", Json::object()); Vec3 al = color("albedo"); double mu = vp_real_in("mu", 0.1, 10); Json j{{"density", mu}, {"albedo", j3(al)}, {"phase", A("p")}}; double lo = vp_real_in("lo", -9, -1); if (vp_choice("bounded", 2)) { j["bound_min"] = j3(Vec3(lo)); j["bound_max"] = j3(Vec3(2)); } w.add("m", "medium::homogeneous", j); w.trip(); auto *x = w.orig<Medium>("m"), *y = w.copy<Medium>("m"); vp_assert(y->phase() == w.copy<Phase>("p"), "phase"); Ray r{Vec3(-20), Vec3(0.48, 0.64, 0.6)}; Rng q(1); eq3(y->eval_transmittance(q, r, 0, 50), x->eval_transmittance(q, r, 0, 50), "transmittance"); beq(x->is_emitter(), y->is_emitter(), "emitter"); r.o = Vec3(0); auto s = y->sample_distance(q, r, 0, 1e4); if (s && s->medium) { eq3(s->weight, al, "scattering-weight"); eq3(s->p, r.d * (-std::log(1 - vp_rng(0)) / mu), "scattering-point"); } }
VP_ENTRY(medium_heterogeneous) { W w; w.add("p", "phase::isotropic", Json::object()); Vec3 al = color("albedo"); double mu = vp_real_in("mu", 0.1, 10); Json box{{"bound_min", j3(Vec3(-1))}, {"bound_max", j3(Vec3(1))}}; Json d = box, c = box; d["scalar"] = mu; c["color"] = j3(al); w.add("d", "volume::constant", d); w.add("c", "volume::constant", c); w.add("m", "medium::heterogeneous", Json{{"volume_density", A("d")}, {"volume_albedo", A("c")}, {"phase", A("p")}}); w.trip(); auto *y = w.copy<Medium>("m"); vp_assert(y->phase() == w.copy<Phase>("p"), "phase"); Ray r{Vec3(0), Vec3(0.48, 0.64, 0.6)}; Rng q(1); auto s = y->sample_distance(q, r, 0, 1e4); double t = -std::log(1 - vp_rng(0)) / mu; vp_assume(t < 1); vp_assert((bool)s && s->medium, "scatters"); if (s) { eq3(s->weight, al, "scattering-weight"); eq3(s->p, r.d * t, "scattering-point"); } }
// ------------------------------------------------------------------ camera, meshes, film
VP_ENTRY(camera) { W w; Vec3 p = bvec("p", 10); double f = vp_choice("fov", 2) ? 30 : 90; w.add("c", "camera::pinhole", Json{{"position", j3(p)}, {"center", j3(p + Vec3(0, 0.6, 0.8))}, {"up", j3(Vec3(1, 0, 0))}, {"vfov", f}, {"aspect", 1.0}}); w.orig<Camera>("c")->set_aspect_ratio(vp_real_in("aspect", 0.5, 2)); w.trip(); auto *x = w.orig<Camera>("c"), *y = w.copy<Camera>("c"); Vec2 rp(vp_real_in("rx", 0, 1), vp_real_in("ry", 0, 1)); auto a = x->primary_ray(rp), b = y->primary_ray(rp); eq3(b.o, a.o, "primary-ray"); eq3(b.d, a.d, "primary-ray"); Mat4 m = x->projection_matrix(), n = y->projection_matrix(), s = x->view_matrix(), t = y->view_matrix(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { eq(n[i][j], m[i][j], "projection-matrix"); eq(t[i][j], s[i][j], "view-matrix"); } Vec3 wo = a.d; eq3(y->eval(wo), x->eval(wo), "importance"); auto u = x->raster_position(wo), v = y->raster_position(wo); beq((bool)u, (bool)v, "raster"); if (u && v) { eq(v->x, u->x, "raster"); eq(v->y, u->y, "raster"); } }
static Json rawmesh(const Vec3* p, int np, int nf) { Json ps = Json::array(), ns = Json::array(), ts = Json::array(), fp = Json::array(); for (int i = 0; i < np; i++) for (int k = 0; k < 3; k++) ps.push_back(p[i][k]); for (int k = 0; k < 3; k++) ns.push_back(k == 2 ? 1.0 : 0.0); for (int i = 0; i < np; i++) { ts.push_back(0.1 * i); ts.push_back(0.5); } Json fn = Json::array(), ft = Json::array(); for (int f = 0; f < nf; f++) for (int k = 0; k < 3; k++) { int v = k == 0 ? 0 : f + k; fp.push_back(v); ft.push_back(v); fn.push_back(0); } return Json{{"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", Json{{"p", fp}, {"n", fn}, {"t", ft}}}}; }
static void same_tri(Mesh::Tri a, Mesh::Tri b) { const Mesh::Point *x[3] = {&a.p1, &a.p2, &a.p3}, *y[3] = {&b.p1, &b.p2, &b.p3}; for (int k = 0; k < 3; k++) { eq3(y[k]->p, x[k]->p, "vertex"); eq3(y[k]->n, x[k]->n, "normal"); eq(y[k]->t.x, x[k]->t.x, "texcoord"); eq(y[k]->t.y, x[k]->t.y, "texcoord"); } }
static void same_mesh(const Mesh* x, const Mesh* y) { vp_assert(x->num_triangles() == y->num_triangles(), "triangles"); for (int f = 0; f < x->num_triangles(); f++) { same_tri(x->triangle_at(f), y->triangle_at(f)); auto a = x->surface_point(f, Vec2(0.2, 0.3)), b = y->surface_point(f, Vec2(0.2, 0.3)); eq3(b.p, a.p, "surface-point"); eq3(b.n, a.n, "surface-normal"); eq(b.t.x, a.t.x, "surface-texcoord"); } }
VP_ENTRY(mesh_raw) { W w; Vec3 p[4] = {bvec("a"), bvec("b"), bvec("c"), bvec("d")}; w.add("m", "mesh::raw", rawmesh(p, 4, 2)); w.trip(); same_mesh(w.orig<Mesh>("m"), w.copy<Mesh>("m")); }
VP_ENTRY(film) { W w; w.add("f", "film::bitmap", Json{{"w", 2}, {"h", 3}, {"quality", 50}}); auto* x = w.orig<Film>("f"); Vec3 c = vec("c"), d = vec("d"); x->set_pixel(1, 2, c); x->set_pixel(0, 0, d); w.trip(); auto* y = w.copy<Film>("f"); vp_assert(y->size().w == 2 && y->size().h == 3, "size"); auto B = y->buffer(); for (int i = 0; i < 6; i++) eq3(Vec3(B.data[3 * i], B.data[3 * i + 1], B.data[3 * i + 2]), i == 0 ? d : i == 5 ? c : Vec3(0), "pixel"); y->set_pixel(0, 0, c); B = x->buffer(); eq3(Vec3(B.data[0], B.data[1], B.data[2]), d, "original-not-shared"); }
// ------------------------------------------------------------------ lights
static void same_light(const Light* x, const Light* y, Vec3 p) { Transform T(Mat4(1)); auto g = surf(p, Vec3(0, 0, 1)); Light::RaySampleU u{Vec2(vp_real_in("u0", 0.1, 0.9), 0.35), 0.4, Vec2(0.25, 0.75)}; beq(x->is_specular(), y->is_specular(), "flags"); beq(x->is_infinite(), y->is_infinite(), "flags"); beq(x->is_env(), y->is_env(), "flags"); auto a = x->sample_direct(u, g, T), b = y->sample_direct(u, g, T); beq((bool)a, (bool)b, "direct"); if (a && b) { eq3(b->wo, a->wo, "direct"); eq3(b->weight, a->weight, "direct"); eq(y->pdf_direct(g, a->geom, T, a->wo, false), x->pdf_direct(g, a->geom, T, a->wo, false), "direct-pdf"); eq3(y->eval(a->geom, a->wo, false), x->eval(a->geom, a->wo, false), "emission"); }
    auto c = x->sample_ray(u, T), d = y->sample_ray(u, T); beq((bool)c, (bool)d, "ray"); if (c && d) { eq3(d->geom.p, c->geom.p, "ray-origin"); eq3(d->wo, c->wo, "ray-direction"); eq3(d->weight, c->weight, "ray-weight"); eq(y->pdf_ray(c->geom, c->wo, T, false), x->pdf_ray(c->geom, c->wo, T, false), "ray-pdf"); } }
static Bound scnb() { Bound b; b.min = Vec3(-1, 0, 2); b.max = Vec3(1, 2, 4); return b; }
VP_ENTRY(light_point) { W w; w.add("l", "light::point", Json{{"Le", j3(color("Le"))}, {"position", j3(bvec("p"))}}); w.trip(); same_light(w.orig<Light>("l"), w.copy<Light>("l"), Vec3(0.1)); }
VP_ENTRY(light_directional) { W w; w.add("l", "light::directional", Json{{"Le", j3(color("Le"))}, {"direction", j3(Vec3(0.48, 0.64, 0.6))}}); w.orig<Light>("l")->set_scene_bound(scnb()); w.trip(); same_light(w.orig<Light>("l"), w.copy<Light>("l"), Vec3(0.1)); }
VP_ENTRY(light_envconst) { W w; w.add("l", "light::envconst", Json{{"Le", j3(color("Le"))}}); w.orig<Light>("l")->set_scene_bound(scnb()); w.trip(); same_light(w.orig<Light>("l"), w.copy<Light>("l"), Vec3(0.1)); }
VP_ENTRY(light_area) { W w; Vec3 p[4] = {Vec3(0, 0, 5), Vec3(1, 0, 5), Vec3(0, vp_real_in("y", 1, 2), 5), Vec3(-2, 1, 5)}; Vec3 Ke = color("Ke"); w.add("m", "mesh::raw", rawmesh(p, 4, 2)); w.add("l", "light::area", Json{{"Ke", j3(Ke)}, {"mesh", A("m")}}); w.trip(); same_light(w.orig<Light>("l"), w.copy<Light>("l"), Vec3(0.1)); auto* y = w.copy<Light>("l"); auto q = surf(Vec3(0.1, 0.2, 5), Vec3(0, 0, 1)); eq(y->pdf_position(q, Transform(Mat4(1))) * (p[2].y * 1 + (2 * p[2].y)), 2, "area"); eq3(y->eval(q, Vec3(0, 0, 1), false), Ke, "given-emission"); }
struct EnvTex final : public Texture { static double v; Vec3 eval(Vec2 t) const override { return Vec3(t.x < 0.5 ? v : 1., t.y < 0.5 ? v : 2., v); } Vec3 eval_by_pixel_coords(int x, int y) const override { return eval(Vec2(x * 0.5 + 0.25, y * 0.5 + 0.25)); } TextureSize size() const override { return {2, 2}; } };
double EnvTex::v = 1; LM_COMP_REG_IMPL(EnvTex, "texture::bitmap");
VP_ENTRY(light_env) { W w; EnvTex::v = 0.7; w.add("l", "light::env", Json{{"scale", vp_real_in("scale", 1, 2)}, {"rot", vp_choice("rot", 2) * 90.}}); w.orig<Light>("l")->set_scene_bound(scnb()); w.trip(); same_light(w.orig<Light>("l"), w.copy<Light>("l"), Vec3(0.1)); }
// ------------------------------------------------------------------ acceleration structure and scene
static void same_hit(const Scene* x, const Scene* y, Ray r) { auto a = x->intersect(r), b = y->intersect(r); beq((bool)a, (bool)b, "hit"); if (a && b) { vp_assert(a->primitive == b->primitive, "hit-primitive"); eq3(b->geom.p, a->geom.p, "hit-point"); eq3(b->geom.n, a->geom.n, "hit-normal"); } }
VP_ENTRY(scene) { vpt_set_hwc(1); vp_sched(0); W w; Vec3 p[4] = {Vec3(0, 0, 5), Vec3(1, 0, 5), Vec3(0, 1, 5), Vec3(-2, 1, 5)}; w.add("mesh", "mesh::raw", rawmesh(p, 4, 2)); w.add("mat", "material::diffuse", Json{{"Kd", j3(Vec3(1))}}); w.add("cam", "camera::pinhole", Json{{"position", j3(Vec3(0))}, {"center", j3(Vec3(0, 0, 1))}, {"up", j3(Vec3(0, 1, 0))}, {"vfov", 90.}, {"aspect", 1.0}}); w.add("area", "light::area", Json{{"Ke", j3(Vec3(1))}, {"mesh", A("mesh")}}); w.add("env", "light::envconst", Json{{"Le", j3(color("Le"))}}); w.add("ph", "phase::isotropic", Json::object()); w.add("med", "medium::homogeneous", Json{{"density", 1.}, {"albedo", j3(Vec3(1))}, {"phase", A("ph")}}); w.add("acc", "accel::sahbvh", Json::object()); w.add("scn", "scene::default", Json{{"accel", A("acc")}});
    auto* x = w.orig<Scene>("scn"); double s = 1.5; Mat4 M = glm::scale(Mat4(1), Vec3(1, 1, s)); int g = x->create_group_node(M); x->add_child(x->root_node(), g); int bits = vp_choice("parts", 4);
    x->add_child(g, x->create_primitive_node(Json{{"mesh", A("mesh")}, {"material", A("mat")}})); x->add_child(x->root_node(), x->create_primitive_node(Json{{"camera", A("cam")}})); x->add_child(g, x->create_primitive_node(Json{{"mesh", A("mesh")}, {"material", A("mat")}, {"light", A("area")}})); if (bits & 1) x->add_child(x->root_node(), x->create_primitive_node(Json{{"light", A("env")}})); if (bits & 2) x->add_child(x->root_node(), x->create_primitive_node(Json{{"medium", A("med")}})); x->build(); w.trip(); auto* y = w.copy<Scene>("scn");
    vp_assert(y->num_nodes() == x->num_nodes() && y->num_lights() == x->num_lights() && y->camera_node() == x->camera_node(), "counts"); vp_assert(x->env_light_node() == y->env_light_node(), "environment-light"); vp_assert(x->medium_node() == y->medium_node(), "medium"); vp_assert(y->accel() == w.copy<Accel>("acc"), "accel");
    for (int i = 0; i < x->num_lights(); i++) { auto a = x->light_primitive_index_at(i), b = y->light_primitive_index_at(i); vp_assert(a.index == b.index, "light"); for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) eq(b.global_transform.M[c][r], a.global_transform.M[c][r], "light-transform"); eq(b.global_transform.J, a.global_transform.J, "light-transform"); vp_assert(y->light_index_at(b.index) == i, "light-index"); }
    for (int i = 0; i < x->num_nodes(); i++) { auto &a = x->node_at(i), &b = y->node_at(i); vp_assert(a.type == b.type && a.index == b.index, "node"); auto same = [&](auto* u, auto* v) { if (!u) { vp_assert(!v, "reference"); return; } vp_assert(v == comp::get<std::remove_pointer_t<decltype(v)>>("$.assets.b." + u->name()), "reference-to-the-copy"); }; if (a.type == SceneNodeType::Primitive) { same(a.primitive.mesh, b.primitive.mesh); same(a.primitive.material, b.primitive.material); same(a.primitive.light, b.primitive.light); same(a.primitive.camera, b.primitive.camera); same(a.primitive.medium, b.primitive.medium); } else { vp_assert(a.group.children == b.group.children && a.group.instanced == b.group.instanced, "group"); beq((bool)a.group.local_transform, (bool)b.group.local_transform, "transform"); if (a.group.local_transform && b.group.local_transform) for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) eq((*b.group.local_transform)[c][r], (*a.group.local_transform)[c][r], "transform"); } }
    same_hit(x, y, Ray{Vec3(0.2, 0.3, 0), Vec3(0, 0, 1)}); same_hit(x, y, Ray{Vec3(-0.5, 0.7, 20), Vec3(0, 0, -1)}); same_hit(x, y, Ray{Vec3(5, 0.3, 0), Vec3(0, 0, 1)}); }
// ------------------------------------------------------------------ boundaries of the saved subtree
VP_ENTRY(outer_reference) { // an asset referring outside the saved group is refused and nothing is left half loaded
    W w; int k = vp_choice("name", 3); std::string n = k == 0 ? "x" : k == 1 ? "ab" : "a2"; w.top->load_asset(n, "material::mirror", Json::object()); w.add("m", "material::proxy", Json{{"ref", "$.assets." + n}}); bool th = false; try { std::ofstream os(w.file.p, std::ios::out | std::ios::binary); serial::save_comp_owned<Component>(os, w.a, w.a->loc()); } catch (const Exception&) { th = true; } vp_assert(th, "outer-reference-is-refused"); }

// ------------------------------------------------------------------ renderers and schedulers
VP_ENTRY(renderers) { W w; w.add("film", "film::bitmap", Json{{"w", 2}, {"h", 1}}); w.add("scn", "scene::default", Json::object()); static const char* kinds[] = {"raycast", "pt", "lt", "volpt_naive", "volpt", "pt_naive_path", "pt_nee_path", "lt_nee_path", "bdpt", "bdptopt", "blank"}; int k = vp_choice("renderer", 11); Json j{{"scene", A("scn")}, {"output", A("film")}, {"max_verts", 5}, {"scheduler", "sample"}, {"spp", 2}, {"num_samples", 3}, {"color", j3(Vec3(0.5))}}; std::string key = std::string("renderer::") + kinds[k]; auto* p = w.a->load_asset("r", key, j); vp_assert(p, "created"); if (!p) return; bool ok = true; try { w.trip(); } catch (const std::exception&) { ok = false; } vp_assert(ok, "renderer-can-be-saved-and-loaded"); if (!ok) return; w.copy<Renderer>("r"); if (k == 10) return; vp_assert(comp::get<scheduler::Scheduler>("$.assets.b.r.scheduler"), "scheduler-restored");
    int n = 0; w.copy<Renderer>("r")->foreach_underlying([&](Component*& c, bool weak) { if (!weak) return; ++n; vp_assert(c == w.copy<Component>("film") || c == w.copy<Component>("scn"), "refers-to-the-copies"); }); vp_assert(n == 2, "scene-and-film-restored"); }
struct CountCtx { int calls = 0; };
VP_ENTRY(schedulers) { vpt_set_hwc(1); parallel::init("openmp", Json{{"num_threads", 1}}); W w; w.add("film", "film::bitmap", Json{{"w", 2}, {"h", 1}}); bool spp = vp_choice("kind", 2); int n = 1 + vp_choice("n", 3); w.add("s", spp ? "scheduler::spp::sample" : "scheduler::spi::sample", Json{{"spp", n}, {"num_samples", n}, {"output", A("film")}}); w.trip(); auto* s = w.copy<scheduler::Scheduler>("s"); int c = 0; long long r = s->run([&](long long, long long, int) { ++c; }); vp_assert(r == n && c == (spp ? 2 * n : n), "same-schedule"); }
// ------------------------------------------------------------------ the whole state
VP_ENTRY(reset) { // an emptied registry knows none of the old assets
    lm::reset(); Vec3 c = color("Kd"), e = color("e"); auto* p = lm::assets()->load_asset("d", "material::diffuse", Json{{"Kd", j3(c)}}); vp_assert(p && comp::get<Component>("$.assets.d") == p, "registered"); int n = vp_choice("again", 2); for (int i = 0; i <= n; i++) lm::reset(); vp_assert(!comp::get<Component>("$.assets.d") && comp::get<AssetGroup>("$.assets") == lm::assets(), "old-assets-are-gone"); int k = 0; lm::assets()->foreach_underlying([&](Component*&, bool) { ++k; }); vp_assert(k == 0, "old-assets-are-gone"); auto* q = dynamic_cast<Material*>(lm::assets()->load_asset("d", "material::diffuse", Json{{"Kd", j3(e)}})); vp_assert(q && comp::get<Material>("$.assets.d") == q, "registered"); if (q) eq3(q->reflectance(surf(Vec3(0), Vec3(0, 0, 1))), e, "new-asset"); }
VP_ENTRY(failed_then_loaded) { // a name whose loading failed can be used by either way of loading
    W w; w.add("d", "material::diffuse", Json{{"Kd", j3(color("Kd"))}}); { std::ofstream os(w.file.p, std::ios::out | std::ios::binary); serial::save_comp_owned<Component>(os, w.a, w.a->loc()); } bool th = false; int how = vp_choice("how", 2); try { if (how) w.top->load_serialized("b", w.file.p + "nope"); else w.top->load_asset("b", "material::proxy", Json{{"ref", "$.assets.nope"}}); } catch (const std::exception&) { th = true; } vp_assert(th, "failure-is-reported"); Component* p = nullptr; if (vp_choice("serialized", 2)) { p = w.top->load_serialized("b", w.file.p); auto* m = comp::get<Material>("$.assets.b.d"); vp_assert((bool)m, "loaded"); if (m) eq3(m->reflectance(surf(Vec3(0), Vec3(0, 0, 1))), w.orig<Material>("d")->reflectance(surf(Vec3(0), Vec3(0, 0, 1))), "loaded"); } else p = w.top->load_asset("b", "material::mirror", Json::object()); vp_assert(p && comp::get<Component>("$.assets.b") == p, "name-can-be-used-again"); int n = 0; w.top->foreach_underlying([&](Component*& c, bool) { n += c != nullptr; }); vp_assert(n == 2, "only-what-was-loaded"); }
VP_ENTRY(state) { File file; lm::reset(); Vec3 c = color("Kd"), e = color("e"); auto add = [&](const char* n, const char* k, Json j) { vp_assert(lm::assets()->load_asset(n, k, j), "created"); }; add("d", "material::diffuse", Json{{"Kd", j3(c)}}); add("m", "material::proxy", Json{{"ref", "$.assets.d"}}); add("g", "asset_group::default", Json::object()); auto* g = comp::get<AssetGroup>("$.assets.g"); g->load_asset("x", "material::proxy", Json{{"ref", "$.assets.d"}}); lm::save_state_to_file(file.p); int k = vp_choice("between", 3); if (k == 1) lm::reset(); if (k == 2) add("d", "material::diffuse", Json{{"Kd", j3(e)}}); lm::load_state_from_file(file.p); auto q = surf(Vec3(0), Vec3(0, 0, 1)); const char* names[] = {"$.assets.d", "$.assets.m", "$.assets.g.x"}; for (auto* n : names) { auto* m = comp::get<Material>(n); vp_assert(m && m->loc() == n, "restored"); if (m) eq3(m->reflectance(q), c, "restored-state"); } }

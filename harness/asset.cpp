// Asset registry, locators, replacement of assets, component factory and JSON helpers.
#include "common.h"
#include <lm/assetgroup.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/film.h>
#include <lm/texture.h>
#include <lm/mesh.h>
#include <lm/accel.h>
#include <lm/scheduler.h>
using namespace lm; using namespace hx;
// a component that counts its instances and can fail to initialise
struct Probe final : public Component { static int live; double v = 0; Component* ref = nullptr; Probe() { ++live; } ~Probe() { --live; }
    void construct(const Json& j) override { v = json::value<Float>(j, "v", 0.); if (j.find("ref") != j.end()) ref = json::comp_ref<Component>(j, "ref"); self = comp::get<Component>(loc()) == this; if (json::value<bool>(j, "fail", false)) LM_THROW_EXCEPTION(Error::InvalidArgument, "no"); if (json::value<bool>(j, "nested", false)) { auto* g = comp::get<AssetGroup>(parent_loc()); for (int i = 0; i < 14; i++) g->load_asset("n" + std::to_string(i), "vp::probe", Json::object()); } if (json::value<bool>(j, "late", false)) LM_THROW_EXCEPTION(Error::InvalidArgument, "no"); }
    void foreach_underlying(const ComponentVisitor& visit) override { comp::visit(visit, ref); } bool self = false; };
int Probe::live = 0; LM_COMP_REG_IMPL(Probe, "vp::probe");
struct Other : public Component { virtual int f() const { return 1; } };
struct W { Root root; Component::Ptr<AssetGroup> top; W() { top = comp::create<AssetGroup>("asset_group::default", "$.assets"); vp_assert((bool)top, "created"); root.add("assets", top.get()); }
    Component* add(const std::string& n, const std::string& k, Json j) { auto* p = top->load_asset(n, k, j); vp_assert(p && p == at(n) && p->loc() == "$.assets." + n && p->key() == k, "registered-under-its-name"); if (!p) vp_end(); return p; }
    Component* at(const std::string& n) { return comp::get<Component>("$.assets." + n); }
    template <class T> T* as(const std::string& n) { T* p = dynamic_cast<T*>(at(n)); vp_assert(p, "has-its-type"); if (!p) vp_end(); return p; } };
static std::string A(const char* n) { return std::string("$.assets.") + n; }
static bool okc(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == ':' || c == '-'; }
// ------------------------------------------------------------------ names
VP_ENTRY(invalid_names) { // any character outside the allowed set, at any position, is refused and nothing is registered
    W w; int n = vp_choice("length", 4), k = n ? vp_choice("position", n) : 0; std::string s; if (n) { int c = vp_u8("char"); vp_assume(!okc(c)); for (int i = 0; i < n; i++) s += i == k ? char(c) : "aZ-"[i]; } int before = Probe::live; Component* p = w.top->load_asset(s, "vp::probe", Json::object()); vp_assert(!p && Probe::live == before, "invalid-name-refused"); int m = 0; w.top->foreach_underlying([&](Component*&, bool) { ++m; }); vp_assert(m == 0, "nothing-registered"); }
VP_ENTRY(valid_names) { W w; const char cs[] = "az_Z:09-A"; std::string s; int n = 1 + vp_choice("length", 2); for (int i = 0; i < n; i++) s += cs[vp_choice("char", 9)]; double v = vp_real("v"); auto* p = (Probe*)w.add(s, "vp::probe", Json{{"v", v}}); eq(p->v, v, "constructed"); vp_assert(p->self, "found-while-constructing"); vp_assert(p->name() == s && p->parent_loc() == "$.assets", "name"); vp_assert(w.top->underlying(s) == p, "underlying"); }
VP_ENTRY(locators) { W w; w.add("g", "asset_group::default", Json::object()); auto* g = w.as<AssetGroup>("g"); auto* x = g->load_asset("x", "vp::probe", Json::object()); auto* y = w.add("x", "vp::probe", Json::object()); vp_assert(x && y && x != y, "distinct"); vp_assert(comp::get<Component>("$.assets.g.x") == x && comp::get<Component>("$.assets.x") == y && x->loc() == "$.assets.g.x" && x->parent_loc() == "$.assets.g" && x->name() == "x", "nested-locator"); vp_assert(comp::get<Component>("$") == &w.root && comp::get<Component>("$.assets") == w.top.get(), "root"); vp_assert(comp::get<AssetGroup>("$.assets.x") == nullptr, "wrong-type-is-null");
    const char* bad[] = {"", "x", "assets.x", "$.nope", "$.assets.nope", "$.assets.g.nope", "$.assets.x.y", "$.assets.g.x.y", ".assets", "$$.assets", "$.assets.gx", "$.asset", "$x.assets", "$.assets.nope.x", "$.nope.a.b", "$.assets.g.nope.x.y"}; int k = vp_choice("bad", 16); vp_assert(comp::get<Component>(bad[k]) == nullptr, "unknown-locator-is-null"); }
// ------------------------------------------------------------------ failures leave the registry as it was
VP_ENTRY(failed_load) { W w; double v = vp_real("v"); auto* a = (Probe*)w.add("a", "vp::probe", Json{{"v", v}}); auto* r = (Probe*)w.add("r", "vp::probe", Json{{"ref", A("a")}}); int live = Probe::live; bool th = false, repl = vp_choice("replace", 2); int how = vp_choice("how", 4); Component* p = nullptr; std::string n = repl ? "a" : "b"; Json j = how == 0 ? Json{{"fail", true}} : how == 1 ? Json{{"ref", A("nope")}} : how == 2 ? Json::object() : Json{{"nested", true}, {"late", true}}; try { p = w.top->load_asset(n, how == 2 ? "vp::nope" : "vp::probe", j); } catch (const Exception&) { th = true; } vp_assert(!p && (th || how == 2), "failure-is-reported");
    if (how != 3) vp_assert(Probe::live == live, "failed-asset-is-released"); if (!repl) vp_assert(w.at("b") == nullptr, "failed-asset-is-not-registered"); vp_assert(w.at("a") == a && r->ref == a, "existing-asset-survives"); auto* q = (Probe*)w.at("a"); if (q) eq(q->v, v, "existing-asset-unchanged"); double z = vp_real("z"); auto* b = (Probe*)w.add("b", "vp::probe", Json{{"v", z}}); eq(b->v, z, "name-can-be-used-again"); auto* c = (Probe*)w.add("c", "vp::probe", Json::object()); vp_assert(w.at("b") == b && w.at("c") == c && w.at("a") == a && w.at("r") == r, "others-undisturbed"); }
VP_ENTRY(failed_load_serialized) { W w; auto* a = w.add("a", "vp::probe", Json::object()); bool th = false; Component* p = nullptr; bool dup = vp_choice("dup", 2); try { p = w.top->load_serialized(dup ? "a" : "b", "/nonexistent/vp"); } catch (const std::exception&) { th = true; } vp_assert(!p && th, "failure-is-reported"); vp_assert(w.at("a") == a, "existing-asset-survives"); if (!dup) { vp_assert(w.at("b") == nullptr, "failed-asset-is-not-registered"); w.add("b", "vp::probe", Json::object()); } w.add("a", "vp::probe", Json::object()); }
// ------------------------------------------------------------------ replacement: every reference follows, the old instance goes
VP_ENTRY(replace_generic) { W w; w.add("g", "asset_group::default", Json::object()); auto* g = w.as<AssetGroup>("g"); auto* a = (Probe*)w.add("a", "vp::probe", Json{{"v", vp_real("v")}}); auto* r = (Probe*)w.add("r", "vp::probe", Json{{"ref", A("a")}}); auto* s = (Probe*)g->load_asset("s", "vp::probe", Json{{"ref", A("a")}}); auto* u = (Probe*)w.add("u", "vp::probe", Json{{"ref", A("r")}}); int live = Probe::live; double v = vp_real("v2"); bool many = vp_choice("nested", 2); auto* b = (Probe*)w.add("a", "vp::probe", Json{{"v", v}, {"nested", many}}); if (!many) vp_assert(Probe::live == live, "old-instance-released"); vp_assert(r->ref == b && s->ref == b && u->ref == r, "references-follow"); eq(((Probe*)w.at("a"))->v, v, "new-instance"); vp_assert(w.at("r") == r && w.at("u") == u, "others-stay"); auto* r2 = (Probe*)w.add("r", "vp::probe", Json{{"ref", A("a")}}); vp_assert(u->ref == r2 && r2->ref == b, "references-follow"); }
VP_ENTRY(replace_inside_group) { // the asset lies in a group of its own; references from outside and from another group follow too
    W w; w.add("g", "asset_group::default", Json::object()); w.add("h", "asset_group::default", Json::object()); auto *g = w.as<AssetGroup>("g"), *h = w.as<AssetGroup>("h"); g->load_asset("i", "asset_group::default", Json::object()); auto* i = comp::get<AssetGroup>("$.assets.g.i"); vp_assert(i, "nested-group"); if (!i) return; bool deep = vp_choice("deep", 2); auto* o = deep ? i : g; std::string L = deep ? "$.assets.g.i.a" : "$.assets.g.a"; o->load_asset("a", "vp::probe", Json::object()); Probe* r[4] = {(Probe*)w.add("r", "vp::probe", Json{{"ref", L}}), (Probe*)g->load_asset("r", "vp::probe", Json{{"ref", L}}), (Probe*)h->load_asset("r", "vp::probe", Json{{"ref", L}}), (Probe*)i->load_asset("r", "vp::probe", Json{{"ref", L}})}; double v = vp_real("v"); int live = Probe::live; auto* b = (Probe*)o->load_asset("a", "vp::probe", Json{{"v", v}}); vp_assert(b && comp::get<Component>(L) == b && Probe::live == live, "replaced"); for (auto* x : r) { vp_assert(x && x->ref == b, "references-follow"); } }
VP_ENTRY(replace_subtree) { // replacing a group: references into it are looked up again
    W w; w.add("g", "asset_group::default", Json::object()); auto* x = w.as<AssetGroup>("g")->load_asset("x", "vp::probe", Json::object()); auto* r = (Probe*)w.add("r", "vp::probe", Json{{"ref", "$.assets.g.x"}}); vp_assert(r->ref == x, "reference"); w.add("g", "asset_group::default", Json::object()); vp_assert(r->ref == nullptr && comp::get<Component>("$.assets.g.x") == nullptr, "reference-to-a-removed-asset-is-null"); }
static auto G() { return surf(Vec3(0), Vec3(0, 0, 1)); }
VP_ENTRY(replace_material) { W w; Vec3 c = color("c"); auto kd = [&](Vec3 k) { return Json{{"Kd", j3(k)}}; }; int kind = vp_choice("kind", 4); w.add("d", "material::diffuse", kd(Vec3(0.5))); w.add("e", "material::diffuse", kd(Vec3(0.25))); w.add("t", "texture::constant", Json{{"color", j3(Vec3(0.1))}}); Json l = Json::array(); l.push_back(Json{{"material", A("d")}, {"weight", 0.5}}); l.push_back(Json{{"material", A("e")}, {"weight", 0.5}});
    if (kind == 0) w.add("m", "material::proxy", Json{{"ref", A("d")}}); else if (kind == 1) w.add("m", "material::constant_weight_mixture_rr", l); else if (kind == 2) w.add("m", "material::constant_weight_mixture_marginalized", l); else w.add("m", "material::diffuse", Json{{"mapKd", A("t")}}); if (kind == 3) w.add("t", "texture::constant", Json{{"color", j3(c)}}); else w.add("d", "material::diffuse", kd(c)); auto* m = w.as<Material>("m"); Vec3 wi(0, 0.6, 0.8), wo(0.6, 0, 0.8), f = m->eval(G(), wi, wo, 0, TD::EL, false); eq3(f * Pi, kind == 2 ? 0.5 * c + 0.125 : kind == 1 ? 0.5 * c : c, "uses-the-new-asset"); }
struct PhaseA final : public Phase { std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&, Vec3) const override { return {}; } Float pdf_direction(const PointGeometry&, Vec3, Vec3) const override { return 0; } Vec3 eval(const PointGeometry&, Vec3, Vec3) const override { return Vec3(0); } };
VP_ENTRY(replace_medium_parts) { W w; auto vol = [&](Vec3 c, double s) { return Json{{"color", j3(c)}, {"scalar", s}, {"bound_min", j3(Vec3(-1))}, {"bound_max", j3(Vec3(1))}}; }; w.add("p", "phase::isotropic", Json::object()); w.add("u", "volume::constant", vol(Vec3(0.5), 1)); w.add("v", "volume::constant", vol(Vec3(0.5), 1)); w.add("h", "medium::homogeneous", Json{{"density", 1.}, {"albedo", j3(Vec3(1))}, {"phase", A("p")}}); w.add("m", "medium::heterogeneous", Json{{"volume_density", A("u")}, {"volume_albedo", A("v")}, {"phase", A("p")}}); Json l = Json::array(); l.push_back(A("u")); w.add("x", "volume::multi", Json{{"volumes_alb", l}, {"volumes_den", l}}); Vec3 c = color("c"); double s = vp_real_in("s", 0.1, 0.9); auto* p = w.add("p", "phase::hg", Json{{"g", 0.5}}); vp_assert(w.as<Medium>("h")->phase() == p && w.as<Medium>("m")->phase() == p, "uses-the-new-phase"); w.add("u", "volume::constant", vol(c, s)); auto* x = w.as<Volume>("x"); eq3(x->eval_color(Vec3(0)), c, "uses-the-new-volume"); eq(x->eval_scalar(Vec3(0)), s, "uses-the-new-volume"); w.add("v", "volume::constant", vol(c, 1)); Rng rng(1); auto d = w.as<Medium>("m")->sample_distance(rng, Ray{Vec3(0), Vec3(0, 0, 1)}, 0, 1e4); double t = -std::log(1 - vp_rng(0)) / s; vp_assume(t < 1); if (d) { eq3(d->weight, c, "uses-the-new-volume"); eq3(d->p, Vec3(0, 0, t), "uses-the-new-volume"); } }
static Json tri(double z) { Json ps = {0., 0., z, 1., 0., z, 0., 1., z}, ns = {0., 0., 1.}, ts = {0., 0.}, fp = {0, 1, 2}, fz = {0, 0, 0}; return Json{{"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", Json{{"p", fp}, {"n", fz}, {"t", fz}}}}; }
VP_ENTRY(replace_scene_parts) { vpt_set_hwc(1); vp_sched(0); W w; w.add("mesh", "mesh::raw", tri(1)); w.add("mat", "material::mirror", Json::object()); w.add("light", "light::area", Json{{"Ke", j3(Vec3(1))}, {"mesh", A("mesh")}}); w.add("cam", "camera::pinhole", Json{{"position", j3(Vec3(0))}, {"center", j3(Vec3(0, 0, 1))}, {"up", j3(Vec3(0, 1, 0))}, {"vfov", 90.}, {"aspect", 1.0}}); w.add("ph", "phase::isotropic", Json::object()); auto med = [&] { return w.add("med", "medium::homogeneous", Json{{"density", 1.}, {"albedo", j3(Vec3(1))}, {"phase", A("ph")}}); }; med(); w.add("acc", "accel::sahbvh", Json::object()); w.add("scn", "scene::default", Json{{"accel", A("acc")}}); auto* s = w.as<Scene>("scn"); int a = s->create_primitive_node(Json{{"mesh", A("mesh")}, {"material", A("mat")}, {"light", A("light")}}), c = s->create_primitive_node(Json{{"camera", A("cam")}}), m = s->create_primitive_node(Json{{"medium", A("med")}}); s->add_child(s->root_node(), a); s->add_child(s->root_node(), c); s->add_child(s->root_node(), m);
    int k = vp_choice("what", 6); Component* p = nullptr; if (k == 0) p = w.add("mesh", "mesh::raw", tri(vp_real("z"))); else if (k == 1) p = w.add("mat", "material::mask", Json::object()); else if (k == 2) p = w.add("light", "light::point", Json{{"Le", j3(Vec3(1))}, {"position", j3(Vec3(0))}}); else if (k == 3) p = w.add("cam", "camera::pinhole", Json{{"position", j3(Vec3(1))}, {"center", j3(Vec3(0, 0, 1))}, {"up", j3(Vec3(0, 1, 0))}, {"vfov", 90.}, {"aspect", 1.0}}); else if (k == 4) p = med(); else p = w.add("acc", "accel::sahbvh", Json::object());
    auto &P = s->node_at(a).primitive; vp_assert(P.mesh == w.at("mesh") && P.material == w.at("mat") && P.light == w.at("light"), "surface-node-follows"); vp_assert(s->node_at(c).primitive.camera == w.at("cam"), "camera-node-follows"); vp_assert(s->node_at(m).primitive.medium == w.at("med"), "medium-node-follows"); vp_assert(s->accel() == w.at("acc"), "accel-follows"); if (k == 0) { auto x = w.as<Light>("light")->sample_position({Vec2(0.3, 0.4), 0.5}, Transform(Mat4(1))); vp_assert((bool)x, "light-samples"); if (x) eq(x->geom.p.z, ((Mesh*)p)->triangle_at(0).p1.p.z, "light-follows-mesh"); } }
// every reference of a component with many of them follows, whatever its position
static void follows(Component* c, std::vector<Component*> now, const char* l) { std::vector<char> seen(now.size(), 0); std::function<void(Component*&, bool)> v = [&](Component*& x, bool weak) { if (!x) return; if (!weak) { x->foreach_underlying(v); return; } bool ok = false; for (size_t i = 0; i < now.size(); i++) if (now[i] == x) { seen[i] = 1; ok = true; } vp_assert(ok, l); }; c->foreach_underlying(v); for (char k : seen) vp_assert(k, l); }
VP_ENTRY(replace_mixture_part) { W w; Vec3 c = color("c"), K[3] = {Vec3(0.5), Vec3(0.25), Vec3(0.75)}; static const char* N[] = {"d", "e", "f"}; double wt[3] = {0.5, 0.25, 0.125}; bool rr = vp_choice("kind", 2); int spec = vp_choice("specular", 4), k = vp_choice("replaced", 4); auto put = [&](int i) { w.add(N[i], "material::diffuse", Json{{"Kd", j3(K[i])}}); }; Json l = Json::array(); for (int i = 0; i < 3; i++) { put(i); if (spec == i) { w.add("i", "material::mirror", Json::object()); l.push_back(Json{{"material", A("i")}, {"weight", 0.1}}); } l.push_back(Json{{"material", A(N[i])}, {"weight", wt[i]}}); } if (spec == 3) { w.add("i", "material::mirror", Json::object()); l.push_back(Json{{"material", A("i")}, {"weight", 0.1}}); } w.add("m", rr ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized", l); if (k < 3) { K[k] = c; put(k); } else w.add("i", "material::mirror", Json::object());
    auto* m = w.as<Material>("m"); follows(m, {w.at("d"), w.at("e"), w.at("f"), w.at("i")}, "every-part-follows"); Vec3 wi(0, 0.6, 0.8), wo(0.6, 0, 0.8), sum(0); for (int j = 0; j < (rr ? 4 : 2); j++) if (!m->is_specular_component(j)) sum += m->eval(G(), wi, wo, j, TD::EL, false); eq3(sum * Pi, K[0] * wt[0] + K[1] * wt[1] + K[2] * wt[2], "uses-the-new-asset"); }
VP_ENTRY(replace_volume_part) { W w; double v[3] = {0.25, 0.5, 0.75}, x = vp_real_in("x", 0.1, 0.9); static const char* N[] = {"a", "b", "c"}; auto put = [&](int i) { w.add(N[i], "volume::constant", Json{{"color", j3(Vec3(v[i]))}, {"scalar", v[i]}, {"bound_min", j3(Vec3(-1 + 2 * i, -1, -1))}, {"bound_max", j3(Vec3(1 + 2 * i, 1, 1))}}); }; for (int i = 0; i < 3; i++) put(i); Json la = Json::array(), ld = Json::array(); for (int i = 0; i < 3; i++) { la.push_back(A(N[i])); ld.push_back(A(N[2 - i])); } w.add("m", "volume::multi", Json{{"volumes_alb", la}, {"volumes_den", ld}}); int k = vp_choice("replaced", 3); v[k] = x; put(k); auto* m = w.as<Volume>("m"); follows(m, {w.at("a"), w.at("b"), w.at("c")}, "every-part-follows"); Vec3 q(2.0 * k, 0, 0); eq(m->eval_scalar(q), x, "uses-the-new-asset"); eq3(m->eval_color(q), Vec3(v[2 - k]), "uses-the-new-asset"); Vec3 q2(2.0 * (2 - k), 0, 0); eq3(m->eval_color(q2), Vec3(x), "uses-the-new-asset"); }
VP_ENTRY(replace_in_nested_groups) { // primitives below groups and instance groups of the scene follow as well
    W w; static const char* N[] = {"a", "b", "c"}; for (auto n : N) w.add(std::string("s") + n, "mesh::raw", tri(1)), w.add(std::string("m") + n, "material::mirror", Json::object()); w.add("acc", "accel::sahbvh", Json::object()); w.add("scn", "scene::default", Json{{"accel", A("acc")}}); auto* s = w.as<Scene>("scn"); int p[3], g = s->create_group_node(Mat4(1)), h = s->create_instance_group_node(); for (int i = 0; i < 3; i++) p[i] = s->create_primitive_node(Json{{"mesh", A((std::string("s") + N[i]).c_str())}, {"material", A((std::string("m") + N[i]).c_str())}}); s->add_child(s->root_node(), p[0]); s->add_child(s->root_node(), g); s->add_child(g, p[1]); s->add_child(g, h); s->add_child(h, p[2]); int k = vp_choice("replaced", 3); bool mesh = vp_choice("mesh", 2); if (mesh) w.add(std::string("s") + N[k], "mesh::raw", tri(2)); else w.add(std::string("m") + N[k], "material::mask", Json::object()); for (int i = 0; i < 3; i++) { auto& P = s->node_at(p[i]).primitive; vp_assert(P.mesh == w.at(std::string("s") + N[i]) && P.material == w.at(std::string("m") + N[i]), "nodes-follow"); } }
VP_ENTRY(replace_renderer_parts) { W w; w.add("film", "film::bitmap", Json{{"w", 2}, {"h", 1}}); w.add("scn", "scene::default", Json::object()); static const char* kinds[] = {"raycast", "pt", "lt", "volpt_naive", "volpt", "pt_naive_path", "pt_nee_path", "lt_nee_path", "bdpt", "bdptopt", "blank"}; int k = vp_choice("renderer", 11); w.add("r", std::string("renderer::") + kinds[k], Json{{"scene", A("scn")}, {"output", A("film")}, {"max_verts", 5}, {"scheduler", "sample"}, {"spp", 2}, {"num_samples", 3}, {"color", j3(Vec3(0.5))}}); Component* f = w.add("film", "film::bitmap", Json{{"w", 3}, {"h", 1}}); Component* s = w.add("scn", "scene::default", Json::object()); int n = 0; std::function<void(Component*&, bool)> v = [&](Component*& c, bool weak) { if (!c) return; if (!weak) { c->foreach_underlying(v); return; } ++n; vp_assert(c == f || c == s, "uses-the-new-assets"); }; w.at("r")->foreach_underlying(v); vp_assert(n >= (k == 10 ? 1 : 2), "references-are-visible"); }
// ------------------------------------------------------------------ component factory
VP_ENTRY(factory) { int live = Probe::live; { auto p = comp::create<Component>("vp::probe", "$.p", Json{{"v", 2.}}); vp_assert(p && p->key() == "vp::probe" && p->loc() == "$.p" && Probe::live == live + 1, "created"); auto q = comp::create<Component>("vp::probe", ""); vp_assert(q && q.get() != p.get(), "separate-instances"); vp_assert(!comp::create<Component>("vp::nope", ""), "unknown-key-is-null"); vp_assert(!comp::create<Other>("vp::probe", ""), "wrong-interface-is-null"); bool th = false; try { comp::create<Component>("vp::probe", "", Json{{"fail", true}}); } catch (const Exception&) { th = true; } vp_assert(th, "failure-is-reported"); } vp_assert(Probe::live == live, "every-instance-is-released"); int found = 0; comp::foreach_registered([&](const std::string& n) { found += n == "vp::probe"; }); vp_assert(found == 1, "registered-once");
    struct X final : public Component { }; comp::detail::reg("vp::x", "vp::alias", []() -> Component* { return new Probe; }, [](Component* p) { delete (Probe*)p; }); { auto a = comp::create<Component>("vp::alias", ""), b = comp::create<Component>("vp::x", ""); vp_assert(a && b && a->key() == "vp::x", "alias"); } comp::detail::unreg("vp::x", "vp::alias"); vp_assert(!comp::create<Component>("vp::alias", "") && !comp::create<Component>("vp::x", ""), "unregistered"); vp_assert(Probe::live == live, "every-instance-is-released"); }
// ------------------------------------------------------------------ JSON helpers
template <class T> static bool refuses(const Json& j) { try { T t = json::value<T>(j, "v"); (void)t; } catch (const std::exception&) { return true; } return false; }
VP_ENTRY(json_vectors) { Vec3 a = vec("a"); Json j{{"v", j3(a)}}; eq3(json::value<Vec3>(j, "v"), a, "vector"); Json k = a; vp_assert(k.is_array() && k.size() == 3, "vector-to-json"); for (int i = 0; i < 3; i++) eq(k[i].get<double>(), a[i], "vector-to-json"); Mat4 M; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) M[c][r] = vp_real("m"); Json m = M; Mat4 N = m.get<Mat4>(); for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { eq(N[c][r], M[c][r], "matrix"); eq(m[4 * c + r].get<double>(), M[c][r], "matrix-is-column-major"); } Json n{{"v", m}}; Mat4 Q = json::value<Mat4>(n, "v"); eq(Q[3][1], M[3][1], "matrix"); int len = vp_choice("len", 6); Json bad = Json::array(); for (int i = 0; i < len; i++) bad.push_back(1.); Json b{{"v", bad}}; vp_assert(refuses<Vec3>(b) == (len != 3), "wrong-length-refused"); vp_assert(refuses<Vec2>(b) == (len != 2), "wrong-length-refused"); vp_assert(refuses<Vec4>(b) == (len != 4), "wrong-length-refused"); vp_assert(refuses<Mat3>(b), "wrong-length-refused"); Json sc{{"v", 1.}}; vp_assert(refuses<Vec3>(sc) && refuses<Mat4>(sc), "scalar-refused"); }
VP_ENTRY(json_values) { double x = vp_real("x"), d = vp_real("d"); int n = vp_int("n", -1000, 1000); bool b = vp_choice("b", 2); Json j{{"x", x}, {"n", n}, {"b", b}, {"s", "text"}, {"f", j3(Vec3(x))}}; eq(json::value<Float>(j, "x"), x, "value"); vp_assert(json::value<int>(j, "n") == n && json::value<bool>(j, "b") == b && json::value<std::string>(j, "s") == "text", "value"); eq(json::value<Float>(j, "nope", double(d)), d, "default"); eq(json::value<Float>(j, "x", double(d)), x, "value-overrides-default"); bool th = false; try { json::value<Float>(j, "nope"); } catch (const Exception&) { th = true; } vp_assert(th, "missing-property-refused"); auto o = json::value_or_none<Float>(j, "x"); vp_assert((bool)o && !json::value_or_none<Float>(j, "nope"), "optional"); if (o) eq(*o, x, "optional"); Json m = json::merge(j, Json{{"x", d}, {"y", d}}); eq(m["x"].get<double>(), x, "merge-keeps-first"); eq(m["y"].get<double>(), d, "merge-adds"); vp_assert(m.size() == 6, "merge"); }
VP_ENTRY(json_references) { W w; auto* a = w.add("a", "vp::probe", Json::object()); w.add("m", "material::mirror", Json::object()); int k = vp_choice("ref", 5); Json j = Json::object(); if (k == 0) j["r"] = A("a"); if (k == 1) j["r"] = A("nope"); if (k == 2) j["r"] = 3; if (k == 3) j["r"] = ""; bool th = false; Component* p = nullptr; try { p = json::comp_ref<Component>(j, "r"); } catch (const Exception&) { th = true; } vp_assert(k == 0 ? p == a && !th : th, "reference-or-refusal"); vp_assert(json::comp_ref_or_nullptr<Component>(j, "r") == (k == 0 ? a : nullptr), "reference-or-null"); Json q{{"r", A("a")}}; th = false; try { json::comp_ref<Material>(q, "r"); } catch (const Exception&) { th = true; } vp_assert(th && !json::comp_ref_or_nullptr<Material>(q, "r"), "wrong-type-refused"); vp_assert(json::comp_ref<Material>(Json{{"r", A("m")}}, "r") == w.at("m"), "typed-reference"); }
VP_ENTRY(bad_references) { // components refuse references to missing assets or to assets of another kind
    W w; w.add("film", "film::bitmap", Json{{"w", 1}, {"h", 1}}); bool miss = vp_choice("missing", 2); std::string r = miss ? A("nope") : A("film"); Json l = Json::array(); l.push_back(r); Json ml = Json::array(); ml.push_back(Json{{"material", r}, {"weight", 1.}}); struct C { const char* key; Json j; } cs[] = {{"material::proxy", Json{{"ref", r}}}, {"material::constant_weight_mixture_rr", ml}, {"material::constant_weight_mixture_marginalized", ml}, {"light::area", Json{{"Ke", j3(Vec3(1))}, {"mesh", r}}}, {"medium::homogeneous", Json{{"density", 1.}, {"albedo", j3(Vec3(1))}, {"phase", r}}}, {"medium::heterogeneous", Json{{"volume_density", r}, {"volume_albedo", r}, {"phase", r}}}, {"volume::multi", Json{{"volumes_alb", l}, {"volumes_den", l}}}, {"renderer::pt", Json{{"scene", r}, {"output", A("film")}, {"max_verts", 3}, {"scheduler", "sample"}, {"spp", 1}}}}; int k = vp_choice("component", 8); bool th = false; try { w.top->load_asset("x", cs[k].key, cs[k].j); } catch (const Exception&) { th = true; } vp_assert(th, "bad-reference-refused"); }

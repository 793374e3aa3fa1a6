// Scene graph, scene-level intersection and the path-sampling layer on top of scripted lights, cameras, materials and media.
#include "common.h"
#include <lm/path.h>
#include <lm/model.h>
using namespace lm; using namespace hx;
static bool same(const Mat4& a, const Mat4& b) { bool r = true; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r = r && a[i][j] == b[i][j]; return r; }
static void eqM(const Mat4& a, const Mat4& b, const char* l) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) eq(a[i][j], b[i][j], l); }
static Mat4 trans(Vec3 t) { return Mat4(Vec4(1, 0, 0, 0), Vec4(0, 1, 0, 0), Vec4(0, 0, 1, 0), Vec4(t, 1)); }
static Mat4 rotx() { return Mat4(Vec4(1, 0, 0, 0), Vec4(0, 0.6, 0.8, 0), Vec4(0, -0.8, 0.6, 0), Vec4(0, 0, 0, 1)); }
static Mat4 scale(double s) { return Mat4(Vec4(s, 0, 0, 0), Vec4(0, s, 0, 0), Vec4(0, 0, s, 0), Vec4(0, 0, 0, 1)); }
// a light whose emission and densities are arbitrary; it checks that it is asked with its own transform
struct SLight final : public Light {
    int id = 0; bool env = false, spec = false, conn = true; Mat4 X{1}; Vec3 Le; double pr, pd, pp, pdir; Bound bound; int boundSet = 0; mutable Vec2 up, ud; mutable double upc; mutable bool delta;
    void init(int i) { id = i; Le = color("Le"); pr = pos("p_ray"); pd = pos("p_direct"); pp = pos("p_pos"); pdir = pos("p_dir"); }
    PointGeometry at() const { return surf(Vec3(id, 10, 20), Vec3(0, 0, 1)); } static Vec3 dir() { return Vec3(0, 0.6, 0.8); }
    void tr(const Transform& T) const { eqM(T.M, X, "light-gets-its-global-transform"); } void who(const PointGeometry& g) const { eq(g.p.x, id, "light-asked-about-its-own-point"); }
    void set_scene_bound(const Bound& b) override { bound = b; boundSet++; }
    std::optional<RaySample> sample_ray(const RaySampleU& u, const Transform& T) const override { tr(T); up = u.up; upc = u.upc; ud = u.ud; return RaySample{at(), dir(), Le / pr}; }
    Float pdf_ray(const PointGeometry& g, Vec3, const Transform& T, bool d) const override { tr(T); who(g); delta = d; return pr; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU& u, const PointGeometry& g) const override { who(g); ud = u.ud; return DirectionSample{dir(), Le / pdir}; }
    Float pdf_direction(const PointGeometry& g, Vec3) const override { who(g); return pdir; }
    std::optional<PositionSample> sample_position(const PositionSampleU& u, const Transform& T) const override { tr(T); up = u.up; upc = u.upc; return PositionSample{at(), Vec3(1 / pp)}; }
    Float pdf_position(const PointGeometry& g, const Transform& T) const override { tr(T); who(g); return pp; }
    std::optional<RaySample> sample_direct(const RaySampleU& u, const PointGeometry&, const Transform& T) const override { tr(T); up = u.up; upc = u.upc; ud = u.ud; return RaySample{at(), dir(), Le / pd}; }
    Float pdf_direct(const PointGeometry&, const PointGeometry& g, const Transform& T, Vec3, bool d) const override { tr(T); who(g); delta = d; return pd; }
    bool is_specular() const override { return spec; } bool is_infinite() const override { return env; } bool is_env() const override { return env; } bool is_connectable(const PointGeometry&) const override { return conn; }
    Vec3 eval(const PointGeometry&, Vec3 wo, bool d) const override { delta = d; return d ? Vec3(0) : Le; }
};
struct SCam final : public Camera {
    Vec3 We; double pr, pd, pp, pdir; mutable Vec2 ud; bool conn = true;
    void init() { We = color("We"); pr = pos("c_ray"); pd = pos("c_direct"); pp = pos("c_pos"); pdir = pos("c_dir"); }
    static PointGeometry at() { return PointGeometry::make_degenerated(Vec3(-7, 1, 2)); } static Vec3 dir() { return Vec3(0, 0, -1); }
    void set_aspect_ratio(Float) override {} Mat4 view_matrix() const override { return Mat4(1); } Mat4 projection_matrix() const override { return Mat4(1); } Ray primary_ray(Vec2 rp) const override { return {Vec3(-7, 1, 2), Vec3(rp, 1)}; }
    std::optional<RaySample> sample_ray(const RaySampleU& u) const override { ud = u.ud; return RaySample{at(), dir(), We / pr}; } Float pdf_ray(const PointGeometry&, Vec3) const override { return pr; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU& u, const PointGeometry&) const override { ud = u.ud; return DirectionSample{dir(), We / pdir}; } Float pdf_direction(const PointGeometry&, Vec3) const override { return pdir; }
    std::optional<PositionSample> sample_position(const PositionSampleU& u) const override { return PositionSample{at(), Vec3(1 / pp)}; } Float pdf_position(const PointGeometry&) const override { return pp; }
    std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry& g) const override { if (g.infinite) return {}; return RaySample{at(), dir(), We / pd}; } Float pdf_direct(const PointGeometry&, const PointGeometry&, Vec3) const override { return pd; }
    std::optional<Vec2> raster_position(Vec3 w) const override { if (w.z > 0) return {}; return Vec2(w.x, w.y); } bool is_connectable(const PointGeometry&) const override { return conn; } Vec3 eval(Vec3) const override { return We; }
};
struct SMat final : public Material {
    Vec3 f[2]; double p[2], pc[2]; bool spec[2]; mutable Vec2 ud, udc; mutable TransDir td; mutable bool delta; Vec3 refl; Vec3 wo;
    void init() { for (int i = 0; i < 2; i++) { f[i] = color("f"); p[i] = pos("p"); pc[i] = pos("pc"); spec[i] = i == 1; } refl = color("R"); }
    ComponentSample sample_component(const ComponentSampleU& u, const PointGeometry&, Vec3) const override { int c = u.uc.x < 0.5 ? 0 : 1; return {c, 1 / pc[c]}; } Float pdf_component(int c, const PointGeometry&, Vec3) const override { return pc[c]; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU& u, const PointGeometry&, Vec3, int c, TransDir t) const override { ud = u.ud; udc = u.udc; td = t; return DirectionSample{wo, f[c] / p[c]}; }
    Float pdf_direction(const PointGeometry&, Vec3, Vec3, int c, bool d) const override { delta = d; return p[c]; } Vec3 eval(const PointGeometry&, Vec3, Vec3, int c, TransDir t, bool d) const override { td = t; delta = d; return f[c]; }
    bool is_specular_component(int c) const override { return spec[c]; } Vec3 reflectance(const PointGeometry&) const override { return refl; }
};
struct SPhase final : public Phase { Vec3 f; double p; static Vec3 dir() { return Vec3(0, -1, 0); } std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&, Vec3) const override { return DirectionSample{dir(), f / p}; } Float pdf_direction(const PointGeometry&, Vec3, Vec3) const override { return p; } Vec3 eval(const PointGeometry&, Vec3, Vec3) const override { return f; } };
struct SMedium final : public Medium { SPhase ph; Vec3 T, W; int outcome = 0; bool em = false; mutable Ray r; mutable double t0, t1;
    std::optional<DistanceSample> sample_distance(Rng&, Ray ray, Float a, Float b) const override { r = ray; t0 = a; t1 = b; if (outcome == 0) return {}; return DistanceSample{ray.o + ray.d * 0.5, W, outcome == 2}; }
    Vec3 eval_transmittance(Rng&, Ray ray, Float a, Float b) const override { r = ray; t0 = a; t1 = b; return T; } bool is_emitter() const override { return em; } const Phase* phase() const override { return &ph; } };
struct SMesh final : public Mesh { Tri tri{}; Vec3 n, gn; Vec2 uv; mutable int face = -1; mutable Vec2 q;
    void foreach_triangle(const ProcessTriangleFunc& f) const override { f(0, tri); } Tri triangle_at(int) const override { return tri; } InterpolatedPoint surface_point(int f, Vec2 u) const override { face = f; q = u; return {tri.p1.p, n, gn, uv}; } int num_triangles() const override { return 1; } };
struct SAccel final : public Accel { std::optional<Hit> hit; mutable Ray r; mutable double t0, t1; mutable int n = 0; int built = 0;
    void build(const Scene&) override { built++; } std::optional<Hit> intersect(Ray ray, Float a, Float b) const override { r = ray; t0 = a; t1 = b; n++; return hit; } };
struct World { Root root; SLight L[3]; SCam cam; SMat mat; SMedium med; SMesh mesh; SAccel acc; Component::Ptr<Scene> s; int nL[3], nCam = -1, nMed = -1, nMesh = -1;
    void add(const char* n, Component* c) { root.add(n, c); comp::detail::Access::loc(c) = std::string("$.") + n; }
    World() { add("l0", &L[0]); add("l1", &L[1]); add("l2", &L[2]); add("cam", &cam); add("mat", &mat); add("med", &med); add("mesh", &mesh); add("acc", &acc); cam.init(); mat.init(); med.ph.f = color("ph"); med.ph.p = pos("pph"); med.T = color("T"); med.W = color("W"); for (int i = 0; i < 3; i++) L[i].init(i);
        s = comp::create<Scene>("scene::default", "$.scene", Json{{"accel", "$.acc"}}); vp_assert((bool)s, "created"); }
    int prim(const char* kind, std::string loc) { Json j = Json::object(); j[kind] = loc; return s->create_primitive_node(j); }
    // light i placed under a chain of groups with an arbitrary offset, a rotation and an arbitrary scale
    void build(int n, bool medium = false) { Mat4 A = trans(Vec3(vp_real_in("ox", -1e6, 1e6), vp_real_in("oy", -1e6, 1e6), vp_real_in("oz", -1e6, 1e6))), B = rotx() * scale(vp_real_in("s", 0.001, 1000)); int g = s->create_group_node(A), h = s->create_group_node(B), I = s->create_instance_group_node(); s->add_child(s->root_node(), g); s->add_child(g, h); s->add_child(s->root_node(), I);
        nCam = prim("camera", "$.cam"); s->add_child(s->root_node(), nCam); nMesh = s->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}); s->add_child(h, nMesh); if (medium) { nMed = prim("medium", "$.med"); s->add_child(s->root_node(), nMed); }
        const char* ln[3] = {"$.l0", "$.l1", "$.l2"}; int par[3] = {h, s->root_node(), g}; Mat4 X[3] = {A * B, Mat4(1), A}; for (int i = 0; i < n; i++) { nL[i] = prim("light", ln[i]); s->add_child(par[i], nL[i]); L[i].X = X[i]; } G = A * B; s->build(); } Mat4 G; };
static path::RaySampleU rsu() { return {Vec2(u01("up0"), u01("up1")), Vec2(u01("upc0"), u01("upc1")), Vec2(u01("ud0"), u01("ud1")), Vec2(u01("udc0"), u01("udc1"))}; }
static int idOf(World& w, int node, int n) { for (int i = 0; i < n; i++) if (w.nL[i] == node) return i; return -1; }
// equal probability selection: the three thirds of the unit interval choose three different lights
static void selected(World& w, int n, double u, int node, int& id) { id = idOf(w, node, n); vp_assert(id >= 0, "one-of-the-lights"); if (id < 0) vp_end(); auto a = w.s->sample_light_selection(u); vp_assert(w.s->light_primitive_index_at(a.light_index).index == node, "light-chosen-by-its-own-random-number"); eq(a.p_sel * n, 1, "selection-probability"); eq(w.s->pdf_light_selection(a.light_index), a.p_sel, "selection-probability"); }
VP_ENTRY(light_selection) { World w; int n = 1 + vp_choice("n", 3); w.build(n); vp_assert(w.s->num_lights() == n, "lights-registered"); double u = u01("u"); int k = vp_choice("k", n); auto a = w.s->sample_light_selection(u); vp_assert(a.light_index >= 0 && a.light_index < n, "valid-light"); eq(a.p_sel * n, 1, "selection-probability");
    // each light is selected exactly on an interval of measure p_sel
    for (int i = 0; i < n; i++) eq(w.s->pdf_light_selection(i), a.p_sel, "selection-probability"); if (u * n >= k && u * n < k + 1) for (int j = 0; j < 3; j++) { double v = (k + 0.25 * (1 + j)) / n; vp_assert(w.s->sample_light_selection(v).light_index == a.light_index, "equal-measure"); } else vp_assert(w.s->sample_light_selection((k + 0.5) / n).light_index != a.light_index, "equal-measure");
    auto e = w.s->light_primitive_index_at(a.light_index); int id = idOf(w, e.index, n); vp_assert(id >= 0, "one-of-the-lights"); if (id < 0) return; eqM(e.global_transform.M, w.L[id].X, "light-global-transform"); vp_assert(w.s->light_index_at(e.index) == a.light_index, "index-round-trip"); }
VP_ENTRY(path_primary_light) { World w; int n = 1 + vp_choice("n", 3); w.build(n); auto u = rsu(); auto s = path::sample_primary_ray(u, w.s.get(), TransDir::LE); vp_assert((bool)s, "samples"); if (!s) return; int id; selected(w, n, u.upc[0], s->sp.primitive, id); auto& L = w.L[id]; vp_assert(s->sp.type == SceneInteraction::LightEndpoint, "endpoint-type"); eq3(s->sp.geom.p, L.at().p, "sampled-point"); eq3(s->wo, L.dir(), "sampled-direction");
    vp_assert(L.up == u.up && L.upc == u.upc[1] && L.ud == u.ud, "independent-random-numbers"); bool ed = vp_choice("ed", 2); double p = path::pdf_primary_ray(w.s.get(), s->sp, s->wo, ed); vp_assert(L.delta == ed, "delta-flag-forwarded"); eq(p * n, L.pr, "density-includes-selection"); eq3(s->weight * p, L.Le, "weight-is-contribution-over-density"); vp_assert(path::is_specular_component(w.s.get(), s->sp, 0) == L.spec && path::is_connectable_endpoint(w.s.get(), s->sp) == L.conn, "endpoint-flags"); eq3(s->ray().o, L.at().p, "ray-origin"); eq3(s->ray().d, L.dir(), "ray-direction"); }
VP_ENTRY(path_position_light) { World w; int n = 1 + vp_choice("n", 3); w.build(n); auto u = rsu(); auto s = path::sample_position({u.up, u.upc}, w.s.get(), TransDir::LE); vp_assert((bool)s, "samples"); if (!s) return; int id; selected(w, n, u.upc[0], s->sp.primitive, id); auto& L = w.L[id]; vp_assert(s->sp.type == SceneInteraction::LightEndpoint, "endpoint-type"); vp_assert(L.up == u.up && L.upc == u.upc[1], "independent-random-numbers");
    double p = path::pdf_position(w.s.get(), s->sp); eq(p * n, L.pp, "density-includes-selection"); eq3(s->weight * p, Vec3(1), "weight-is-one-over-density");
    auto d = path::sample_direction(path::DirectionSampleU{u.ud, u.udc}, w.s.get(), s->sp, Vec3(0), 0, TransDir::LE); vp_assert((bool)d, "samples"); if (!d) return; eq3(d->weight * path::pdf_direction(w.s.get(), s->sp, Vec3(0), d->wo, 0, false), path::eval_contrb_direction(w.s.get(), s->sp, Vec3(0), d->wo, 0, TransDir::LE, false), "direction-weight"); vp_assert(L.ud == u.ud, "independent-random-numbers"); eq3(path::eval_contrb_direction(w.s.get(), s->sp, Vec3(0), d->wo, 0, TransDir::LE, false), L.Le, "emitted-radiance"); eq3(path::eval_contrb_direction(w.s.get(), s->sp, Vec3(0), d->wo, 0, TransDir::LE, true), Vec3(0), "delta-flag-forwarded");
    L.spec = vp_choice("spec", 2); L.conn = vp_choice("conn", 2); vp_assert(path::is_specular_component(w.s.get(), s->sp, 0) == L.spec, "light-specular-flag"); vp_assert(path::is_connectable_endpoint(w.s.get(), s->sp) == L.conn, "light-connectable-flag"); auto c = path::sample_component(path::ComponentSampleU{Vec2(0.3, 0.4)}, w.s.get(), s->sp, Vec3(0)); vp_assert(c.comp == 0, "endpoint-component"); eq(c.weight, 1, "endpoint-component"); eq(path::pdf_component(w.s.get(), s->sp, Vec3(0), 0), 1, "endpoint-component"); }
VP_ENTRY(path_direct_light) { World w; int n = 1 + vp_choice("n", 3); w.build(n); auto u = rsu(); auto sp = SceneInteraction::make_surface_interaction(w.nMesh, surf(vec("x"), Vec3(0, 0, 1))); auto s = path::sample_direct(u, w.s.get(), sp, TransDir::LE); vp_assert((bool)s, "samples"); if (!s) return; int id; selected(w, n, u.upc[0], s->sp.primitive, id); auto& L = w.L[id]; vp_assert(s->sp.type == SceneInteraction::LightEndpoint, "endpoint-type"); vp_assert(L.up == u.up && L.upc == u.upc[1] && L.ud == u.ud, "independent-random-numbers");
    bool ed = vp_choice("ed", 2); double p = path::pdf_direct(w.s.get(), sp, s->sp, s->wo, ed); vp_assert(L.delta == ed, "delta-flag-forwarded"); eq(p * n, L.pd, "density-includes-selection"); eq3(s->weight * p, L.Le, "weight-is-contribution-over-density"); eq3(s->wo, L.dir(), "sampled-direction"); }
VP_ENTRY(path_camera) { World w; w.build(2); auto u = rsu(); auto* S = w.s.get(); auto s = path::sample_primary_ray(u, S, TransDir::EL); vp_assert((bool)s, "samples"); if (!s) return; vp_assert(s->sp.type == SceneInteraction::CameraEndpoint && s->sp.primitive == w.nCam, "camera-endpoint"); eq3(s->weight * path::pdf_primary_ray(S, s->sp, s->wo, false), w.cam.We, "weight-is-contribution-over-density"); vp_assert(w.cam.ud == u.ud, "raster-position-forwarded");
    eq3(path::eval_contrb_direction(S, s->sp, Vec3(0), s->wo, 0, TransDir::EL, false), w.cam.We, "importance"); auto q = path::sample_position({u.up, u.upc}, S, TransDir::EL); vp_assert((bool)q && q->sp.type == SceneInteraction::CameraEndpoint && q->sp.primitive == w.nCam, "camera-endpoint"); if (!q) return; eq3(q->weight * path::pdf_position(S, q->sp), Vec3(1), "weight-is-one-over-density");
    auto d = path::sample_direction(path::DirectionSampleU{u.ud, u.udc}, S, s->sp, Vec3(0), 0, TransDir::EL); vp_assert((bool)d, "samples"); if (!d) return; eq3(d->weight * path::pdf_direction(S, s->sp, Vec3(0), d->wo, 0, false), w.cam.We, "direction-weight");
    auto sp = SceneInteraction::make_surface_interaction(w.nMesh, surf(vec("x"), Vec3(0, 0, 1))); auto c = path::sample_direct(u, S, sp, TransDir::EL); vp_assert((bool)c && c->sp.type == SceneInteraction::CameraEndpoint && c->sp.primitive == w.nCam, "camera-endpoint"); if (!c) return; eq3(c->weight * path::pdf_direct(S, sp, c->sp, c->wo, false), w.cam.We, "weight-is-contribution-over-density");
    vp_assert(!path::is_specular_component(S, s->sp, 0) && path::is_connectable_endpoint(S, s->sp) == w.cam.conn, "endpoint-flags"); auto rp = path::raster_position(S, Vec3(0.25, 0.5, -1)); vp_assert(rp && rp->x == 0.25 && rp->y == 0.5, "raster-position"); vp_assert(!path::raster_position(S, Vec3(0, 0, 1)), "raster-position"); Vec2 r2(u01("rx"), u01("ry")); eq3(path::primary_ray(S, r2).d, Vec3(r2, 1), "primary-ray"); vp_assert(S->is_camera(s->sp), "is-camera"); }
// arbitrary shading frame: shading normal ns and geometric normal ng
VP_ENTRY(path_surface) { World w; w.build(1); auto* S = w.s.get(); Vec3 ns = unit("ns"), ng = vp_choice("flat", 2) ? ns : Vec3(0, 0, 1); Vec3 wi = unit("wi"); w.mat.wo = unit("wo"); auto sp = SceneInteraction::make_surface_interaction(w.nMesh, PointGeometry::make_on_surface(Vec3(0), ns, ng, Vec2(0))); TransDir td = vp_choice("dir", 2) ? TransDir::LE : TransDir::EL;
    double uc = u01("uc"); auto c = path::sample_component(path::ComponentSampleU{Vec2(uc, 0.5)}, S, sp, wi); vp_assert(c.comp == (uc < 0.5 ? 0 : 1), "component"); eq(c.weight * path::pdf_component(S, sp, wi, c.comp), 1, "component-weight"); vp_assert(path::is_specular_component(S, sp, c.comp) == w.mat.spec[c.comp], "specular-flag");
    path::DirectionSampleU du{Vec2(u01("ud0"), u01("ud1")), Vec2(u01("udc0"), u01("udc1"))}; auto s = path::sample_direction(du, S, sp, wi, c.comp, td); vp_assert((bool)s, "samples"); if (!s) return; eq3(s->wo, w.mat.wo, "sampled-direction"); vp_assert(w.mat.ud == du.ud && w.mat.udc == du.udc, "random-numbers-forwarded"); vp_assert((w.mat.td == Material::TransDir::LE) == (td == TransDir::LE), "transport-direction-forwarded");
    bool ed = vp_choice("ed", 2); double p = path::pdf_direction(S, sp, wi, s->wo, c.comp, ed); vp_assert(w.mat.delta == ed, "delta-flag-forwarded"); Vec3 f = path::eval_contrb_direction(S, sp, wi, s->wo, c.comp, td, ed); vp_assert(w.mat.delta == ed, "delta-flag-forwarded"); vp_assert((w.mat.td == Material::TransDir::LE) == (td == TransDir::LE), "transport-direction-forwarded"); eq3(s->weight * p, f, "weight-is-contribution-over-density");
    // contribution = BSDF times the shading-normal correction of the transport direction
    double is = glm::dot(wi, ns), ig = glm::dot(wi, ng), os = glm::dot(s->wo, ns), og = glm::dot(s->wo, ng); Vec3 F = w.mat.f[c.comp]; if (is * ig <= 0 || os * og <= 0) eq3(f, Vec3(0), "no-light-leak"); else if (td == TransDir::EL) eq3(f, F, "radiance-uncorrected"); else eq3(f * (os * ig), F * (is * og), "importance-correction"); auto r = path::reflectance(S, sp); vp_assert((bool)r, "reflectance"); if (r) eq3(*r, w.mat.refl, "reflectance"); }
VP_ENTRY(path_medium) { World w; w.build(1, true); auto* S = w.s.get(); auto sp = SceneInteraction::make_medium_interaction(w.nMed, PointGeometry::make_degenerated(vec("x"))); Vec3 wi = unit("wi"); auto s = path::sample_direction(path::DirectionSampleU{Vec2(u01("u0"), u01("u1")), Vec2(0)}, S, sp, wi, 0, TransDir::EL); vp_assert((bool)s, "samples"); if (!s) return; eq3(s->wo, SPhase::dir(), "sampled-direction"); double p = path::pdf_direction(S, sp, wi, s->wo, 0, false); Vec3 f = path::eval_contrb_direction(S, sp, wi, s->wo, 0, TransDir::LE, false); eq3(s->weight * p, f, "weight-is-contribution-over-density"); eq3(f, w.med.ph.f, "phase-value"); vp_assert(!path::is_specular_component(S, sp, 0), "specular-flag"); auto c = path::sample_component(path::ComponentSampleU{Vec2(u01("uc"), 0)}, S, sp, wi); vp_assert(c.comp == 0 && c.weight == 1, "single-component"); w.med.em = vp_choice("em", 2); vp_assert(S->is_light(sp) == w.med.em, "is-light"); }
static SceneInteraction surfAt(int node, Vec3 p) { return SceneInteraction::make_surface_interaction(node, surf(p, Vec3(0, 0, 1))); }
VP_ENTRY(path_distance) { World w; bool med = vp_choice("medium", 2); w.build(1, med); auto* S = w.s.get(); Rng rng(1); Vec3 x = vec("x"), wo = vp_choice("wo", 2) ? Vec3(0, 0, 1) : Vec3(0.6, 0, -0.8); w.med.outcome = vp_choice("outcome", 3); bool hit = vp_choice("hit", 2); double t = pos("t"); w.mesh.tri.p1.p = x + t * wo; w.mesh.n = w.mesh.gn = Vec3(0, 0, 1); if (hit) w.acc.hit = Accel::Hit{t, Vec2(0.25, 0.5), Transform(Mat4(1)), w.nMesh, 3};
    auto s = path::sample_distance(rng, S, surfAt(w.nMesh, x), wo); eq3(w.acc.r.o, x, "ray-origin"); eq3(w.acc.r.d, wo, "ray-direction"); if (med) { eq3(w.med.r.o, x, "medium-ray"); eq3(w.med.r.d, wo, "medium-ray"); eq(w.med.t0, 0, "medium-range"); if (hit) eq(w.med.t1, t, "medium-range"); else vp_assert(w.med.t1 >= Inf, "medium-range"); }
    if (med && w.med.outcome == 2) { vp_assert((bool)s && s->sp.type == SceneInteraction::MediumInteraction && s->sp.primitive == w.nMed, "medium-interaction"); if (!s) return; eq3(s->weight, w.med.W, "distance-weight"); eq3(s->sp.geom.p, x + wo * 0.5, "medium-point"); vp_assert(s->sp.geom.degenerated, "medium-point"); return; }
    if (!hit) { vp_assert(!s, "nothing-hit"); return; } vp_assert((bool)s && s->sp.type == SceneInteraction::SurfaceInteraction && s->sp.primitive == w.nMesh, "surface-interaction"); if (!s) return; eq3(s->sp.geom.p, x + t * wo, "surface-point"); eq3(s->weight, med && w.med.outcome == 1 ? w.med.W : Vec3(1), "distance-weight"); }
VP_ENTRY(path_transmittance) { World w; bool med = vp_choice("medium", 2); w.build(1, med); auto* S = w.s.get(); Rng rng(1); Vec3 x = vec("x"); double t = pos("t"); Vec3 wo = vp_choice("wo", 2) ? Vec3(0, 0, 1) : Vec3(0.6, 0, -0.8), y = x + t * wo; bool inf = vp_choice("infinite", 2), blocked = vp_choice("blocked", 2); if (blocked) w.acc.hit = Accel::Hit{t / 2, Vec2(0), Transform(Mat4(1)), w.nMesh, 0}; w.mesh.n = w.mesh.gn = Vec3(0, 0, 1); auto a = surfAt(w.nMesh, x); auto b = inf ? SceneInteraction::make_light_endpoint(w.nL[0], PointGeometry::make_infinite(-wo)) : surfAt(w.nMesh, y);
    Vec3 T = path::eval_transmittance(rng, S, a, b); eq3(w.acc.r.o, x, "shadow-ray"); eq3(w.acc.r.d, wo, "shadow-ray"); if (!inf) { vp_assert(w.acc.t1 < t && w.acc.t1 > t * 0.9, "shadow-ray-ends-before-target"); } else vp_assert(w.acc.t1 > 1e9 && w.acc.t1 < Inf, "shadow-ray-to-infinity"); vp_assert(w.acc.t0 > 0 && w.acc.t0 < 1e-2, "shadow-ray-leaves-origin");
    if (blocked) eq3(T, Vec3(0), "blocked"); else if (!med) eq3(T, Vec3(1), "vacuum"); else { eq3(T, w.med.T, "medium-transmittance"); eq3(w.med.r.o, x, "medium-ray"); eq3(w.med.r.d, wo, "medium-ray"); eq(w.med.t0, 0, "medium-range"); if (!inf) eq(w.med.t1, t, "medium-range"); else vp_assert(w.med.t1 >= Inf, "medium-range"); }
    vp_assert(S->visible(a, b) == !blocked && S->visible(b, a) == !blocked, "visibility-symmetric"); }
// ---- scene graph (P06) ----
static Vec3 bvec(const char* n) { std::string s(n); return Vec3(vp_real_in((s + ".x").c_str(), -1e6, 1e6), vp_real_in((s + ".y").c_str(), -1e6, 1e6), vp_real_in((s + ".z").c_str(), -1e6, 1e6)); }
// an arbitrary affine transform
static Mat4 affine(const char* n) { std::string s(n); Vec3 a = vec((s + ".a").c_str()), b = vec((s + ".b").c_str()), c = vec((s + ".c").c_str()), d = vec((s + ".d").c_str()); return Mat4(Vec4(a, 0), Vec4(b, 0), Vec4(c, 0), Vec4(d, 1)); }
// The tree root -> A -> B -> mesh, root -> mesh, root -> I (instance group) -> mesh: every occurrence is visited with the product of the transforms above it
VP_ENTRY(graph_transforms) { World w; auto* S = w.s.get(); Mat4 A = affine("A"), B = affine("B"); int g = S->create_group_node(A), h = S->create_group_node(B), I = S->create_instance_group_node(); int m = S->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}), l = w.prim("light", "$.l0");
    S->add_child(0, g); S->add_child(g, h); S->add_child(h, m); S->add_child(0, m); S->add_child(0, I); S->add_child(I, m); S->add_child(g, l); S->add_child(h, I); vp_assert(S->num_nodes() == 6, "node-count");
    std::vector<Mat4> at; int lights = 0, groups = 0; Mat4 AB = A * B; bool order = true; S->traverse_primitive_nodes([&](const SceneNode& n, Mat4 M) { vp_assert(&n == &S->node_at(n.index), "node-identity"); if (n.type == SceneNodeType::Primitive && n.index == m) at.push_back(M); if (n.index == l) { lights++; eqM(M, A, "light-transform"); } if (n.type == SceneNodeType::Group) { groups++; if (n.index == g) eqM(M, Mat4(1), "group-parent-transform"); if (n.index == h) eqM(M, A, "group-parent-transform"); } });
    vp_assert(at.size() == 4 && lights == 1 && groups == 5, "every-occurrence-once"); if (at.size() != 4) return; eqM(at[0], AB, "global-transform"); eqM(at[1], AB, "global-transform"); eqM(at[2], Mat4(1), "global-transform"); eqM(at[3], Mat4(1), "global-transform");
    int seen = -1; S->visit_node(l, [&](const SceneNode& n) { seen = n.index; vp_assert(n.primitive.light == &w.L[0] && !n.primitive.mesh, "visited-node"); }); vp_assert(seen == l, "visited-node"); vp_assert(S->node_at(I).group.instanced && !S->node_at(g).group.instanced, "instance-flag"); (void)order; }
// every combination of asset references: rejected exactly when invalid, and a rejected node leaves the scene as it was
VP_ENTRY(primitive_validation) { World w; auto* S = w.s.get(); w.L[1].env = true; w.L[2].env = true; int cam0 = w.prim("camera", "$.cam"); bool haveEnv = vp_choice("haveEnv", 2); int e0 = haveEnv ? w.prim("light", "$.l1") : -1; bool m = vp_choice("mesh", 2), t = vp_choice("material", 2), c = vp_choice("camera", 2), d = vp_choice("medium", 2); int l = vp_choice("light", 4);
    Json j = Json::object(); if (m) j["mesh"] = "$.mesh"; if (t) j["material"] = "$.mat"; if (c) j["camera"] = "$.cam"; if (d) j["medium"] = "$.med"; if (l == 1) j["light"] = "$.l0"; if (l == 2) j["light"] = "$.l2"; if (l == 3) j["light"] = "$.mesh";
    bool light = l == 1 || l == 2, bad = (!m && !t && !light && !c && !d) || (c && light) || m != t || (l == 2 && haveEnv); int n = S->num_nodes(), idx = -1; bool thrown = false; try { idx = S->create_primitive_node(j); } catch (const Exception&) { thrown = true; }
    vp_assert(thrown == bad, "rejected-exactly-when-invalid"); if (thrown) { vp_assert(S->num_nodes() == n && S->camera_node() == cam0 && S->env_light_node() == e0 && S->medium_node() == -1, "rejected-node-leaves-scene-unchanged"); return; }
    vp_assert(idx == n && S->num_nodes() == n + 1, "new-index"); const auto& P = S->node_at(idx).primitive; vp_assert(P.mesh == (m ? &w.mesh : nullptr) && P.material == (t ? &w.mat : nullptr) && P.light == (light ? &w.L[l == 1 ? 0 : 2] : nullptr) && P.camera == (c ? &w.cam : nullptr) && P.medium == (d ? &w.med : nullptr), "references"); vp_assert(S->camera_node() == (c ? idx : cam0), "camera-node"); vp_assert(S->env_light_node() == (l == 2 ? idx : e0), "env-node"); vp_assert(S->medium_node() == (d ? idx : -1), "medium-node"); }
VP_ENTRY(scene_bound) { World w; auto* S = w.s.get(); w.mesh.tri.p1.p = bvec("p1"); w.mesh.tri.p2.p = Vec3(1, -2, 3); w.mesh.tri.p3.p = Vec3(0, 5, -1); Vec3 o = bvec("o"); int g = S->create_group_node(trans(o) * rotx()); S->add_child(0, g); bool lf = vp_choice("lightFirst", 2); int l0 = lf ? w.prim("light", "$.l0") : -1; int m = S->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}); S->add_child(g, m); bool twice = vp_choice("twice", 2); if (twice) S->add_child(0, m); if (!lf) l0 = w.prim("light", "$.l0"); int l1 = w.prim("light", "$.l1"); S->add_child(0, l0); S->add_child(g, l1); vp_itemode(1); S->build(); vp_itemode(0);
    vp_assert(w.acc.built == 1, "accel-built"); vp_assert(w.L[0].boundSet == 1 && w.L[1].boundSet == 1, "bound-reaches-every-light"); Mat4 M = trans(o) * rotx(); Vec3 ps[6] = {w.mesh.tri.p1.p, w.mesh.tri.p2.p, w.mesh.tri.p3.p}; int n = twice ? 6 : 3; for (int i = 0; i < 3; i++) { ps[i + 3] = ps[i]; ps[i] = Vec3(M * Vec4(ps[i], 1)); }
    const Bound& b = w.L[0].bound; eq3(w.L[1].bound.min, b.min, "same-bound"); eq3(w.L[1].bound.max, b.max, "same-bound"); for (int k = 0; k < 3; k++) { bool lo = false, hi = false; for (int i = 0; i < n; i++) { vp_assert_le(b.min[k], ps[i][k], "bound-contains-geometry"); vp_assert_le(ps[i][k], b.max[k], "bound-contains-geometry"); lo = lo | (b.min[k] == ps[i][k]); hi = hi | (b.max[k] == ps[i][k]); } vp_assert(lo & hi, "bound-is-tight"); } }
VP_ENTRY(scene_rebuild) { World w; w.build(1, true); auto* S = w.s.get(); w.L[2].env = true; S->add_child(0, w.prim("light", "$.l2")); int e = w.prim("light", "$.l1"); S->add_child(0, e); w.L[1].X = Mat4(1); S->build(); vp_assert(S->num_lights() == 3, "lights-recollected"); vp_assert(S->light_primitive_index_at(S->light_index_at(e)).index == e && S->light_primitive_index_at(S->light_index_at(w.nL[0])).index == w.nL[0], "lights-recollected"); eqM(S->light_primitive_index_at(S->light_index_at(w.nL[0])).global_transform.M, w.L[0].X, "light-transform"); S->reset(); vp_assert(S->num_nodes() == 1 && S->camera_node() == -1 && S->env_light_node() == -1 && S->medium_node() == -1 && S->num_lights() == 0 && S->root_node() == 0, "reset-empties-scene"); int n = 0; S->traverse_primitive_nodes([&](const SceneNode&, Mat4) { n++; }); vp_assert(n == 1, "reset-empties-scene"); int e2 = w.prim("light", "$.l2"); vp_assert(e2 == 1 && S->env_light_node() == 1, "environment-after-reset"); S->add_child(0, e2); S->build(); vp_assert(S->num_lights() == 1 && S->light_primitive_index_at(0).index == 1 && S->light_index_at(1) == 0, "environment-after-reset"); }
// a light node with two parents next to other lights: each occurrence is a light of its own with its own transform, and the lights of other nodes keep their index
VP_ENTRY(shared_light) { World w; auto* S = w.s.get(); Mat4 A = affine("A"); int g = S->create_group_node(A), l = w.prim("light", "$.l0"), k = w.prim("light", "$.l1"); S->add_child(0, g); bool first = vp_choice("first", 2); if (first) S->add_child(0, k); S->add_child(g, l); S->add_child(0, l); if (!first) S->add_child(0, k); S->build(); vp_assert(S->num_lights() == 3, "every-occurrence-is-a-light"); if (S->num_lights() != 3) return;
    int at = S->light_index_at(k); vp_assert(at >= 0 && at < 3 && S->light_primitive_index_at(at).index == k, "light-index-of-node"); int b = S->light_index_at(l); vp_assert(b >= 0 && b < 3 && S->light_primitive_index_at(b).index == l, "light-index-of-node"); int under = 0, top = 0; for (int i = 0; i < 3; i++) { auto e = S->light_primitive_index_at(i); if (e.index == k) eqM(e.global_transform.M, Mat4(1), "light-transform"); else { vp_assert(e.index == l, "light-index"); (under == 0 ? under : top)++; eqM(e.global_transform.M, top ? Mat4(1) : A, "light-transform"); } } }
VP_ENTRY(bad_parent) { World w; auto* S = w.s.get(); int c = w.prim("camera", "$.cam"), p = vp_int("parent", -3, 5); vp_assume(p != 0); S->add_child(p, c); int n = 0; S->traverse_primitive_nodes([&](const SceneNode&, Mat4) { n++; }); vp_assert(n == 1 && S->num_nodes() == 2 && S->node_at(c).group.children.empty(), "invalid-parent-ignored"); }
// scene-level intersection: the hit is mapped by the transform of the hit instance
VP_ENTRY(scene_intersect) { World w; auto* S = w.s.get(); bool haveEnv = vp_choice("env", 2); if (haveEnv) { w.L[0].env = true; w.nL[0] = w.prim("light", "$.l0"); } w.nMesh = S->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}); bool hit = vp_choice("hit", 2); Vec3 o = vec("o"), d = unit("d"); double t0 = vp_real_in("t0", 0, 1e6); bool unb = vp_choice("unbounded", 2); double t1 = unb ? Inf : vp_real_in("t1", 0, 1e9);
    double s = vp_real_in("s", 0.001, 1000); Vec3 q = vec("q"); Mat4 M = trans(q) * rotx() * Mat4(Vec4(s, 0, 0, 0), Vec4(0, 1, 0, 0), Vec4(0, 0, 1, 0), Vec4(0, 0, 0, 1)); w.mesh.tri.p1.p = vec("p"); w.mesh.n = vp_choice("tilted", 2) ? Vec3(0.6, 0, 0.8) : Vec3(0, 0, 1); w.mesh.gn = Vec3(0.48, 0.6, 0.64); w.mesh.uv = Vec2(vp_real("tu"), vp_real("tv")); Vec2 uv(u01("bu"), u01("bv")); if (hit) w.acc.hit = Accel::Hit{1, uv, Transform(M), w.nMesh, 7};
    auto r = S->intersect({o, d}, t0, t1); eq3(w.acc.r.o, o, "ray-passed-on"); eq3(w.acc.r.d, d, "ray-passed-on"); eq(w.acc.t0, t0, "range-passed-on"); eq(w.acc.t1, t1, "range-passed-on");
    if (!hit) { if (!haveEnv || !unb) { vp_assert(!r, "miss"); return; } vp_assert((bool)r && r->type == SceneInteraction::LightEndpoint && r->primitive == w.nL[0] && r->geom.infinite, "environment-seen-by-unbounded-rays"); if (r) eq3(r->geom.wo, -d, "environment-direction"); return; }
    vp_assert((bool)r && r->type == SceneInteraction::SurfaceInteraction && r->primitive == w.nMesh && !r->geom.infinite && !r->geom.degenerated, "hit"); if (!r) return; vp_assert(w.mesh.face == 7 && w.mesh.q == uv, "hit-face-and-barycentrics"); eq3(r->geom.p, Vec3(M * Vec4(w.mesh.tri.p1.p, 1)), "hit-point-transformed"); vp_assert(r->geom.t == w.mesh.uv, "texture-coordinates");
    // normals stay unit length, on the same side and orthogonal to the transformed tangent plane
    auto nrm = [&](Vec3 n, Vec3 a, Vec3 b, Vec3 g, const char* l) { Mat3 L(M); eq(glm::dot(g, g), 1, l); eq(glm::dot(g, L * a), 0, l); eq(glm::dot(g, L * b), 0, l); vp_assert(glm::dot(g, L * n) > 0, l); }; Vec3 n = w.mesh.n; nrm(n, Vec3(n.z, 0, -n.x), Vec3(0, 1, 0), r->geom.n, "shading-normal"); nrm(w.mesh.gn, Vec3(0.8, 0, -0.6), Vec3(0.6, -0.48, 0), r->geom.gn, "geometric-normal"); }
struct SModel final : public Model { World* w; Mat4 A; void create_primitives(const CreatePrimitiveFunc& f) const override { f(&w->mesh, &w->mat, nullptr); f(&w->mesh, &w->mat, &w->L[0]); }
    void foreach_node(const VisitNodeFuncType& v) const override { auto r = SceneNode::make_group(0, false, {}); r.group.children = {1, 4}; auto g = SceneNode::make_group(1, false, A); g.group.children = {2, 3}; v(r); v(g); v(SceneNode::make_primitive(2, &w->mesh, &w->mat, nullptr, nullptr, nullptr)); v(SceneNode::make_primitive(3, nullptr, nullptr, nullptr, &w->cam, nullptr)); v(SceneNode::make_primitive(4, &w->mesh, &w->mat, &w->L[0], nullptr, nullptr)); } };
VP_ENTRY(models) { World w; auto* S = w.s.get(); SModel M; M.w = &w; M.A = affine("A"); w.add("model", &M); int pre = vp_choice("pre", 3); for (int i = 0; i < pre; i++) S->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}); Mat4 B = affine("B"); int g = S->create_group_node(B); S->add_child(0, g); int n0 = S->num_nodes(), r = S->create_group_from_model("$.model"); vp_assert(r == n0 && S->num_nodes() == n0 + 5, "model-nodes-copied"); vp_assert(S->camera_node() == n0 + 3, "model-camera"); S->add_child(g, r); int mesh = 0, cam = 0, light = 0; Mat4 BA = B * M.A;
    for (int i = 0; i < 5; i++) vp_assert(S->node_at(n0 + i).index == n0 + i, "node-index"); S->traverse_primitive_nodes([&](const SceneNode& n, Mat4 X) { if (n.type != SceneNodeType::Primitive) return; if (n.primitive.camera) { cam++; eqM(X, BA, "model-transform"); } else if (n.primitive.light) { light++; eqM(X, B, "model-transform"); } else { mesh++; eqM(X, BA, "model-transform"); } }); vp_assert(mesh == 1 && cam == 1 && light == 1, "model-primitives");
    int n1 = S->num_nodes(); S->add_child_from_model(g, "$.model"); vp_assert(S->num_nodes() == n1 + 2 && S->node_at(n1).primitive.mesh == &w.mesh && !S->node_at(n1).primitive.light && S->node_at(n1 + 1).primitive.light == &w.L[0] && S->node_at(n1 + 1).index == n1 + 1, "primitives-from-model"); const auto& ch = S->node_at(g).group.children; vp_assert(ch.size() == 3 && ch[1] == n1 && ch[2] == n1 + 1, "primitives-from-model"); vp_assert(S->create_group_from_model("$.nothing") == -1 && S->num_nodes() == n1 + 2, "missing-model"); }

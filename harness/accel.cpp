// Ray casting through the acceleration structure, compared with exhaustive search.
#include "common.h"
#include <lm/accel.h>
#include <lm/mesh.h>
#include <lm/scene.h>
using namespace hx;
struct VMesh final : public Mesh { std::vector<Vec3> v; // three vertices per triangle
    Tri tri(int i) const { Tri t{}; t.p1.p = v[3 * i]; t.p2.p = v[3 * i + 1]; t.p3.p = v[3 * i + 2]; return t; }
    void foreach_triangle(const ProcessTriangleFunc& f) const override { for (int i = 0; i < (int)v.size() / 3; i++) f(i, tri(i)); } Tri triangle_at(int i) const override { return tri(i); }
    InterpolatedPoint surface_point(int, Vec2) const override { return {}; } int num_triangles() const override { return (int)v.size() / 3; } };
struct VMat final : public Material { ComponentSample sample_component(const ComponentSampleU&, const PointGeometry&, Vec3) const override { return {}; } Float pdf_component(int, const PointGeometry&, Vec3) const override { return 1; } std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&, Vec3, int, TransDir) const override { return {}; } Float pdf_direction(const PointGeometry&, Vec3, Vec3, int, bool) const override { return 0; } Vec3 eval(const PointGeometry&, Vec3, Vec3, int, TransDir, bool) const override { return {}; } bool is_specular_component(int) const override { return false; } Vec3 reflectance(const PointGeometry&) const override { return {}; } };
static Mat4 trans(Vec3 t) { return Mat4(Vec4(1, 0, 0, 0), Vec4(0, 1, 0, 0), Vec4(0, 0, 1, 0), Vec4(t, 1)); }
struct W { Root root; VMesh mesh[2]; VMat mat; Component::Ptr<Accel> acc; Component::Ptr<Scene> s; int node[2];
    void add(const char* n, Component* c) { root.add(n, c); comp::detail::Access::loc(c) = std::string("$.") + n; }
    W(int hwc = 1) { vpt_set_hwc(hwc); add("m0", &mesh[0]); add("m1", &mesh[1]); add("mat", &mat); acc = comp::create<Accel>("accel::sahbvh", "$.acc"); root.add("acc", acc.get()); s = comp::create<Scene>("scene::default", "$.scene", Json{{"accel", "$.acc"}}); }
    int prim(int k) { return node[k] = s->create_primitive_node(Json{{"mesh", k ? "$.m1" : "$.m0"}, {"material", "$.mat"}}); }
    void single() { s->add_child(s->root_node(), prim(0)); acc->build(*s); } };
// exhaustive search with an independent formulation: the ray parameter where the plane is met, then the barycentric signs
struct TriRef { Vec3 a, b, c; };
static bool refHit(const TriRef& t, Ray r, double& T) { Vec3 n = glm::cross(t.b - t.a, t.c - t.a); double dn = glm::dot(n, r.d); if (dn == 0) return false; T = glm::dot(n, t.a - r.o) / dn; Vec3 p = r.o + r.d * T; double nn = glm::dot(n, n); auto e = [&](Vec3 x, Vec3 y) { return glm::dot(n, glm::cross(y - x, p - x)); }; return (e(t.a, t.b) >= 0) & (e(t.b, t.c) >= 0) & (e(t.c, t.a) >= 0) & (nn > 0); }
static const Vec3 DIRS[] = {Vec3(0.2, 0.3, 1), Vec3(-0.5, 0.25, -1), Vec3(1, 0.5, 0.25), Vec3(-1, -0.75, 0.5)};
static Vec3 pick() { return DIRS[vp_choice("direction", 4)]; }
// one arbitrary triangle and an arbitrary ray: a reported hit is a point of both, inside the queried range
VP_ENTRY(hit_is_on_triangle) { vp_itemode(1); W w; Vec3 p[3]; for (int i = 0; i < 3; i++) { p[i] = Vec3(vp_real_in("x", -1e3, 1e3), vp_real_in("y", -1e3, 1e3), vp_real_in("z", -1e3, 1e3)); w.mesh[0].v.push_back(p[i]); } w.single(); Vec3 o = vec("o"), d = pick(); double t0 = vp_real_in("tmin", 0, 1e6), t1 = vp_real_in("tmax", 0, 1e6); vp_assume(t0 <= t1);
    auto h = w.acc->intersect({o, d}, t0, t1); vp_itemode(0); if (!h) { vp_reach("miss"); return; } vp_assert_le(t0, h->t, "within-range"); vp_assert_le(h->t, t1, "within-range"); double u = h->uv.x, v = h->uv.y; vp_assert(u >= 0 && v >= 0, "barycentric"); vp_assert_le(u + v, 1, "barycentric"); eq3(o + d * h->t, p[0] * (1 - u - v) + p[1] * u + p[2] * v, "hit-point"); vp_assert(h->primitive == w.node[0] && h->face == 0, "hit-identity"); }
// every point of a triangle is found by every ray through it (triangles of several orientations, including axis-aligned flat ones)
static const Vec3 TS[][3] = {{Vec3(0, 0, 0), Vec3(1, 0, 0), Vec3(0, 1, 0)}, {Vec3(-1, 2, 3), Vec3(4, 2, -1), Vec3(0, -3, 2)}, {Vec3(2, 0, 0), Vec3(2, 0, 3), Vec3(2, 2, 1)}, {Vec3(0, 1, 0), Vec3(0, 1, 5), Vec3(7, 1, 0)}};
VP_ENTRY(every_hit_found) { int k = vp_choice("triangle", 4); W w; for (auto& p : TS[k]) w.mesh[0].v.push_back(p); w.single(); double u = vp_real_in("u", 0, 1), v = vp_real_in("v", 0, 1); vp_assume(u + v <= 1); double t = vp_real_in("t", 0, 1e4); Vec3 P = TS[k][0] * (1 - u - v) + TS[k][1] * u + TS[k][2] * v, d = pick();
    double t0 = vp_real_in("tmin", 0, 1e4), t1 = vp_real_in("tmax", 0, 2e4); vp_assume(t0 <= t1); auto h = w.acc->intersect({P - d * t, d}, t0, t1); bool in = t0 <= t && t <= t1; vp_assert((bool)h == in, "found-exactly-in-range"); if (h) { eq(h->t, t, "distance"); eq(h->uv.x, u, "barycentric"); eq(h->uv.y, v, "barycentric"); } }
// symbolic triangle size, position and ray
VP_ENTRY(every_hit_found_scaled) { W w; double s = vp_real_in("s", 0.01, 100), x = vp_real_in("x", -1e3, 1e3), y = vp_real_in("y", -1e3, 1e3), z = vp_real_in("z", -1e3, 1e3); Vec3 o(x, y, z), p[3] = {o, o + Vec3(s, 0, s), o + Vec3(0, 2 * s, 0)}; for (auto& q : p) w.mesh[0].v.push_back(q); w.single(); double u = vp_real_in("u", 0, 1), v = vp_real_in("v", 0, 1); vp_assume(u + v <= 1); double t = vp_real_in("t", 0, 1e4); Vec3 d = pick(), P = p[0] * (1 - u - v) + p[1] * u + p[2] * v; auto h = w.acc->intersect({P - d * t, d}, 0, 1e5); vp_assert((bool)h, "found"); if (h) eq(h->t, t, "distance"); }
// closest of several: against exhaustive search
static const TriRef SCN[] = {{Vec3(-3, -3, 0), Vec3(3, -3, 0), Vec3(0, 4, 0)}, {Vec3(-3, -3, 2), Vec3(3, -2, 3), Vec3(0, 4, 2)}, {Vec3(1, -5, -2), Vec3(1, 5, -2), Vec3(1, 0, 6)}, {Vec3(-2, -1, -3), Vec3(3, -1, -1), Vec3(0, -1, 5)}, {Vec3(10, 10, 10), Vec3(12, 10, 10), Vec3(10, 12, 11)}};
static void closest(W& w, const std::vector<TriRef>& ts, Ray r, double t0, double t1, const std::vector<int>& prim, const std::vector<int>& face) {
    auto h = w.acc->intersect(r, t0, t1); double best = t1; bool any = false; for (auto& t : ts) { double T = 0; bool in = refHit(t, r, T); in = in & (T >= t0) & (T <= t1); if (in) { any = true; best = T < best ? T : best; } }
    vp_assert((bool)h == any, "hit-exactly-when-some-triangle-is-hit"); if (!h || !any) return; eq(h->t, best, "closest-hit"); int k = -1; for (int i = 0; i < (int)ts.size(); i++) { double T = 0; if (prim[i] == h->primitive && face[i] == h->face && (refHit(ts[i], r, T) & vp_close(T, h->t))) k = i; } vp_assert(k >= 0, "hit-identity"); }
static void closest_n(int n, int dir = -1) { W w; std::vector<TriRef> ts; std::vector<int> pr, fc; for (int i = 0; i < n; i++) { ts.push_back(SCN[i]); for (auto& p : {SCN[i].a, SCN[i].b, SCN[i].c}) w.mesh[0].v.push_back(p); fc.push_back(i); } w.single(); pr.assign(n, w.node[0]); bool a = dir < 0 ? vp_choice("direction", 2) : dir; Vec3 o = a ? Vec3(vp_real_in("ox", -4, 4), vp_real_in("oy", -4, 4), -6) : Vec3(-6, vp_real_in("oy", -4, 4), vp_real_in("oz", -4, 4)); closest(w, ts, {o, a ? DIRS[0] : DIRS[2]}, 0, dir >= 0 || vp_choice("far", 2) ? 30 : 7, pr, fc); }
VP_ENTRY(closest_hit) { closest_n(2 + vp_choice("n", 2)); }
VP_ENTRY(closest_hit4) { closest_n(4, 1); }
VP_ENTRY(closest_hit4x) { closest_n(4, 0); }
VP_ENTRY(closest_hit5) { closest_n(5); }
// several instances under transforms: triangles of every instance are found in world space with the instance's transform
VP_ENTRY(instances) { W w; auto* S = w.s.get(); for (auto& p : {SCN[0].a, SCN[0].b, SCN[0].c, SCN[2].a, SCN[2].b, SCN[2].c}) w.mesh[0].v.push_back(p); for (auto& p : {SCN[3].a, SCN[3].b, SCN[3].c}) w.mesh[1].v.push_back(p); double dz = vp_real_in("dz", -20, 20); Vec3 off(5, 1, dz); int g = S->create_group_node(trans(off)); S->add_child(0, g); int a = w.prim(0), b = w.prim(1); S->add_child(0, a); S->add_child(g, a); S->add_child(g, b); w.acc->build(*S);
    TriRef t1{SCN[0]}, t2{SCN[2]}; auto mv = [&](const TriRef& t) { return TriRef{t.a + off, t.b + off, t.c + off}; }; std::vector<TriRef> ts = {t1, t2, mv(t1), mv(t2), mv(SCN[3])}; std::vector<int> pr = {a, a, a, a, b}, fc = {0, 1, 0, 1, 0}; Ray r{Vec3(0.3, 0.1, -30), vp_choice("d", 2) ? Vec3(0.2, 0.05, 1) : Vec3(0.01, 0.02, 1)}; closest(w, ts, r, 0, 100, pr, fc); auto h = w.acc->intersect(r, 0, 100); if (!h) return; bool idm = h->global_transform.M[3][0] == 0; double T = 0, U = 0; bool own = idm ? (refHit(ts[0], r, T) & vp_close(T, h->t)) || (refHit(ts[1], r, U) & vp_close(U, h->t)) : true; vp_assert(own, "transform-of-hit-instance"); eq(h->global_transform.M[3][2], idm ? 0 : dz, "transform-of-hit-instance"); }
// concurrent construction: every schedule builds a structure that finds every triangle
static void conc(int threads, int n) { W w(threads); std::vector<TriRef> ts; for (int i = 0; i < n; i++) { TriRef t = SCN[0]; Vec3 o(0, 0, 3 * i); t.a += o; t.b += o; t.c += o; ts.push_back(t); for (auto& p : {t.a, t.b, t.c}) w.mesh[0].v.push_back(p); } w.single(); for (int i = 0; i < n; i++) { auto h = w.acc->intersect({Vec3(0.1, 0.2, 3 * i - 1), Vec3(0.01, 0.02, 1)}, 0, 100); vp_assert((bool)h, "every-triangle-found"); if (h) { vp_assert(h->face == i, "every-triangle-found"); eq(h->t, 1, "every-triangle-found"); } } }
VP_ENTRY(concurrent_build) { vp_sched(2); conc(2, 1 + vp_choice("n", 3)); }
VP_ENTRY(concurrent_build3) { vp_sched(1); conc(3, 3); }
VP_ENTRY(rebuild) { W w; w.mesh[0].v = {SCN[0].a, SCN[0].b, SCN[0].c, SCN[1].a, SCN[1].b, SCN[1].c}; w.single(); double z = vp_real_in("z", -50, 50); w.mesh[0].v = {Vec3(-3, -3, z), Vec3(3, -3, z), Vec3(0, 4, z)}; w.acc->build(*w.s); auto h = w.acc->intersect({Vec3(0, 0, -60), Vec3(0.001, 0.002, 1)}, 0, 1e4); vp_assert((bool)h && h->face == 0, "only-new-geometry"); if (h) eq(h->t, z + 60, "only-new-geometry"); }
VP_ENTRY(empty_scene) { W w; int k = vp_choice("case", 3); if (k == 1) w.single(); if (k == 2) { w.mesh[0].v = {SCN[0].a, SCN[0].b, SCN[0].c}; w.single(); w.mesh[0].v.clear(); } w.acc->build(*w.s); auto h = w.acc->intersect({Vec3(0, 0, -6), Vec3(0.1, 0.2, 1)}, 0, vp_real_in("tmax", 0, 1e6)); vp_assert(!h, "nothing-to-hit"); }
// nested geometry that shrinks towards a point makes the tree deep: traversal stays inside its stack
VP_ENTRY(deep_tree) { W w; int n = 112; double q = 0.09, s = 1; bool mirror = vp_choice("mirror", 2); double m = mirror ? 1 : -1; for (int i = 0; i < n; i++) { for (auto& p : {Vec3(-s, 0, 0), Vec3(-s * q, s, 0), Vec3(-s, 0, s)}) w.mesh[0].v.push_back(Vec3(m * p.x, p.y, p.z)); s *= q; } w.single(); auto h = w.acc->intersect({Vec3(m * 1, -1, -1), Vec3(-m * 1, 1, 1)}, 0, 100); (void)h; vp_reach("traversed"); auto g = w.acc->intersect({Vec3(-m * 2, 0.2, 0.2), Vec3(m, 0.01, 0.02)}, 0, 100); vp_assert((bool)g && g->face == 0, "largest-triangle-found"); }

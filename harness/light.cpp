// Lights: every sampled ray / direction / position / direct connection against the density the light reports.
#include "common.h"
using namespace lm; using namespace hx;
struct StubMesh final : public Mesh {
    std::vector<Tri> t;
    void add(Vec3 a, Vec3 b, Vec3 c) { Tri x{}; x.p1.p = a; x.p2.p = b; x.p3.p = c; t.push_back(x); }
    void foreach_triangle(const ProcessTriangleFunc& f) const override { for (int i = 0; i < (int)t.size(); i++) f(i, t[i]); }
    Tri triangle_at(int i) const override { return t[i]; }
    InterpolatedPoint surface_point(int, Vec2) const override { return {}; }
    int num_triangles() const override { return (int)t.size(); }
};
// two triangles of arbitrary size in perpendicular planes
struct AreaScene {
    StubMesh mesh; Root root; Component::Ptr<Light> l; double A[2]; Vec3 Ke;
    AreaScene() { double a = pos("a"), b = pos("b"), c = pos("c"); mesh.add(Vec3(0), Vec3(a, 0, 0), Vec3(0, b, 0)); mesh.add(Vec3(-5, 0, 0), Vec3(-5, c, 0), Vec3(-5, 0, 2)); A[0] = a * b / 2; A[1] = c; Ke = color("Ke");
        root.add("mesh", &mesh); comp::detail::Access::loc(&mesh) = "$.mesh"; l = comp::create<Light>("light::area", "", Json{{"Ke", j3(Ke)}, {"mesh", "$.mesh"}}); vp_assert((bool)l, "created"); }
    double P(int i) { return A[i] / (A[0] + A[1]); }
};
static Transform xf(int kind) { Mat4 M(1);
    if (kind == 1) M = Mat4(Vec4(1, 0, 0, 0), Vec4(0, 0.6, 0.8, 0), Vec4(0, -0.8, 0.6, 0), Vec4(3, -2, 7, 1));
    if (kind == 2) { double s = pos("scale"); M = Mat4(Vec4(s, 0, 0, 0), Vec4(0, s, 0, 0), Vec4(0, 0, s, 0), Vec4(1, 2, 3, 1)); }
    if (kind == 3) M = Mat4(Vec4(pos("sx"), 0, 0, 0), Vec4(0, pos("sy"), 0, 0), Vec4(0, 0, pos("sz"), 0), Vec4(0, 0, 0, 1));
    if (kind == 4) M = Mat4(Vec4(0, 2, 0, 0), Vec4(-3, 0, 0, 0), Vec4(0, 0, -1, 0), Vec4(1, 1, 1, 1));
    return Transform(M); }
static void area_position(int kind) {
    AreaScene s; Transform T = xf(kind); double upc = u01("upc"), u0 = u01o("u0"), u1 = u01o("u1"); int i = upc < s.P(0) ? 0 : 1;
    auto f = [&](double a, double b) { auto x = s.l->sample_position({Vec2(a, b), upc}, T); vp_assume((bool)x); return x->geom.p; };
    auto x = s.l->sample_position({Vec2(u0, u1), upc}, T); vp_assert((bool)x, "always-samples"); if (!x) return;
    double p = s.l->pdf_position(x->geom, T); eq3(x->weight * p, Vec3(1), "position-weight");
    // the sampled point lies on the transformed triangle selected with probability proportional to area
    Vec3 q = Vec3(glm::inverse(T.M) * Vec4(x->geom.p, 1)); auto& t = s.mesh.t[i]; Vec3 e1 = t.p2.p - t.p1.p, e2 = t.p3.p - t.p1.p, d = q - t.p1.p, n = glm::cross(e1, e2); double nn = glm::dot(n, n);
    double bu = glm::dot(glm::cross(d, e2), n) / nn, bv = glm::dot(glm::cross(e1, d), n) / nn; eq(glm::dot(d, n), 0, "on-triangle-plane"); vp_assert(bu >= 0 && bv >= 0 && bu + bv <= 1, "inside-triangle");
    Vec3 N = glm::cross(Vec3(T.M * Vec4(e1, 0)), Vec3(T.M * Vec4(e2, 0))); Vec3 c = glm::cross(N, x->geom.gn); eq3(c, Vec3(0), "geometric-normal"); eq(glm::dot(x->geom.gn, x->geom.gn), 1, "unit-normal"); eq3(x->geom.n, x->geom.gn, "flat-normal");
    if (kind != 4) vp_assert(glm::dot(N, x->geom.gn) > 0, "normal-orientation");
    vp_assert(!x->geom.degenerated && !x->geom.infinite, "surface-point");
    Vec3 w, da, db; partials(f, u0, u1, w, da, db); c = glm::cross(da, db); vp_assert_near(p * p * glm::dot(c, c), s.P(i) * s.P(i), 5e-3, "position-density");
}
VP_ENTRY(area_position) { area_position(vp_choice("xf", 2)); }
VP_ENTRY(area_position_scaled) { area_position(2); }
VP_ENTRY(area_position_nonuniform) { area_position(vp_choice("xf", 2) + 3); }
VP_ENTRY(area_ray) {
    AreaScene s; Transform T = xf(vp_choice("xf", 3)); double upc = u01("upc"), v0 = u01o("v0"), v1 = u01o("v1"); Vec2 up(u01("u0"), u01("u1"));
    auto x = s.l->sample_ray({up, upc, Vec2(v0, v1)}, T); vp_assert((bool)x, "always-samples"); if (!x) return;
    auto y = s.l->sample_position({up, upc}, T); eq3(x->geom.p, y->geom.p, "same-position-as-position-sampling"); eq3(x->geom.n, y->geom.n, "same-normal");
    eq(glm::dot(x->wo, x->wo), 1, "unit-direction"); vp_assert(glm::dot(x->wo, x->geom.n) > 0, "front-side");
    Vec3 L = s.l->eval(x->geom, x->wo, false); eq3(L, s.Ke, "emitted-radiance"); double p = s.l->pdf_ray(x->geom, x->wo, T, false), pd = s.l->pdf_direction(x->geom, x->wo);
    eq3(x->weight * p, L, "ray-weight"); eq(p, pd * s.l->pdf_position(x->geom, T), "ray-density-factors");
    auto g = x->geom; auto z = s.l->sample_direction({Vec2(v0, v1)}, g); vp_assert((bool)z, "always-samples"); if (!z) return; eq3(z->wo, x->wo, "same-direction-as-direction-sampling"); eq3(z->weight * pd, L, "direction-weight");
}
VP_ENTRY(area_direction) {
    AreaScene s; Vec3 n = unit("n"); auto g = surf(Vec3(0), n); double v0 = u01o("v0"), v1 = u01o("v1");
    auto f = [&](double a, double b) { auto z = s.l->sample_direction({Vec2(a, b)}, g); vp_assume((bool)z); return z->wo; };
    Vec3 w = f(v0, v1); density(f, v0, v1, s.l->pdf_direction(g, w) * glm::dot(w, n), "direction-density");
    Vec3 wo = unit("wo"); Vec3 L = s.l->eval(g, wo, false); if (glm::dot(wo, n) <= 0) { eq3(L, Vec3(0), "no-emission-behind"); eq(s.l->pdf_direction(g, wo), 0, "no-density-behind"); } else eq3(L, s.Ke, "emitted-radiance");
    vp_assert(!s.l->is_specular() && !s.l->is_infinite() && !s.l->is_env() && s.l->is_connectable(g), "flags");
}
// reference point of a direct connection: a surface point, or a point in space
static PointGeometry refp(Vec3 p, Vec3 n) { return vp_choice("degenerate", 2) ? PointGeometry::make_degenerated(p) : surf(p, n); }
VP_ENTRY(area_direct) {
    AreaScene s; Transform T = xf(vp_choice("xf", 2)); double upc = u01("upc"); Vec2 up(u01("u0"), u01("u1")); Vec3 p(vp_real("px"), 1, vp_real("pz")); vp_assume(p.z != 0); auto g = refp(p, Vec3(0, 0.6, 0.8));
    auto y = s.l->sample_position({up, upc}, T); auto x = s.l->sample_direct({up, upc, Vec2(0)}, g, T); Vec3 d = g.p - y->geom.p; double r2 = glm::dot(d, d); vp_assume(r2 > 0);
    if (glm::dot(d, y->geom.n) <= 0) { vp_assert(!x, "no-sample-behind"); return; }
    double cs = g.degenerated ? 1 : glm::dot(g.n, d); if (cs < 0) cs = -cs; if (cs == 0) return; vp_assert((bool)x, "samples-in-front"); if (!x) return;
    eq3(x->geom.p, y->geom.p, "same-position-as-position-sampling"); eq3(x->wo * x->wo * r2, d * d, "direction-to-point"); vp_assert(glm::dot(x->wo, d) > 0, "direction-to-point");
    double pd = s.l->pdf_direct(g, x->geom, T, x->wo, false), pA = s.l->pdf_position(x->geom, T); Vec3 L = s.l->eval(x->geom, x->wo, false); eq3(x->weight * pd, L, "direct-weight"); eq3(L, s.Ke, "emitted-radiance");
    // area density converted to (projected) solid angle at the reference point
    double cl = glm::dot(y->geom.n, d); if (g.degenerated) vp_assert_near(pd * pd * cl * cl, pA * pA * r2 * r2 * r2, 1e-6, "direct-density"); else eq(pd * cs * cl, pA * r2 * r2, "direct-density");
    eq(s.l->pdf_direct(g, x->geom, T, -x->wo, false), 0, "no-density-behind");
}
VP_ENTRY(point) {
    Vec3 Le = color("Le"), q = vec("q"); auto l = comp::create<Light>("light::point", "", Json{{"Le", j3(Le)}, {"position", j3(q)}}); Transform T(Mat4(1)); double v0 = u01o("v0"), v1 = u01o("v1"); vp_assert((bool)l, "created");
    auto x = l->sample_ray({Vec2(u01("u0"), u01("u1")), u01("upc"), Vec2(v0, v1)}, T); vp_assert((bool)x, "always-samples"); if (!x) return; eq3(x->geom.p, q, "at-light-position"); vp_assert(x->geom.degenerated && !x->geom.infinite, "degenerate-point");
    Vec3 L = l->eval(x->geom, x->wo, false); eq3(L, Le, "emitted-radiance"); double p = l->pdf_ray(x->geom, x->wo, T, false); eq3(x->weight * p, L, "ray-weight"); eq(glm::dot(x->wo, x->wo), 1, "unit-direction");
    auto z = l->sample_direction({Vec2(v0, v1)}, x->geom); eq3(z->wo, x->wo, "same-direction-as-direction-sampling"); eq3(z->weight * l->pdf_direction(x->geom, z->wo), L, "direction-weight");
    auto y = l->sample_position({Vec2(0), 0}, T); eq3(y->geom.p, q, "at-light-position"); eq3(y->weight * l->pdf_position(y->geom, T), Vec3(1), "position-weight"); eq(p, l->pdf_direction(x->geom, x->wo) * l->pdf_position(x->geom, T), "ray-density-factors");
    auto f = [&](double a, double b) { auto r = l->sample_ray({Vec2(0), 0, Vec2(a, b)}, T); vp_assume((bool)r); return r->wo; }; density(f, v0, v1, p, "direction-density");
    vp_assert(!l->is_infinite() && !l->is_env() && l->is_connectable(x->geom), "flags");
}
VP_ENTRY(point_direct) {
    Vec3 Le = color("Le"), q = vec("q"), p = vec("p"); auto l = comp::create<Light>("light::point", "", Json{{"Le", j3(Le)}, {"position", j3(q)}}); Transform T(Mat4(1)); Vec3 n = unit("n"); auto g = refp(p, n); Vec3 d = p - q; double r2 = glm::dot(d, d); vp_assume(r2 > 0);
    auto x = l->sample_direct({Vec2(0), 0, Vec2(0)}, g, T); double cs = g.degenerated ? 1 : glm::dot(n, d); if (cs == 0) { vp_assert(!x, "no-grazing-sample"); return; } vp_assert((bool)x, "samples"); if (!x) return;
    eq3(x->geom.p, q, "at-light-position"); eq3(x->wo * x->wo * r2, d * d, "direction-to-point"); vp_assert(glm::dot(x->wo, d) > 0, "direction-to-point"); double pd = l->pdf_direct(g, x->geom, T, x->wo, false); eq3(x->weight * pd, Le, "direct-weight");
    if (g.degenerated) eq(pd, r2, "direct-density"); else vp_assert_near(pd * pd * cs * cs, r2 * r2 * r2, 1e-6, "direct-density");
}
// bounded scene for distant lights
static Bound bnd() { Bound b; b.min = vec("bmin"); Vec3 e(pos("ex"), pos("ey"), pos("ez")); b.max = b.min + e; return b; }
static void covers(const PointGeometry& g, Vec3 d, Bound b, double p) { // entry point on a disk behind the scene's bounding sphere, facing it
    Vec3 c = (b.min + b.max) * .5, r = b.max - c; double R2 = glm::dot(r, r), k = glm::dot(c - g.p, d); Vec3 o = g.p + k * d - c; vp_assert(k > 0 && k * k >= R2, "starts-outside-scene"); vp_assert(glm::dot(o, o) <= k * k, "within-disk"); eq3(g.wo, d, "point-at-infinity-direction"); vp_assert(g.infinite, "infinite-point"); }
VP_ENTRY(directional) {
    Vec3 Le = color("Le"), d = unit("d"); double k = pos("k"); auto l = comp::create<Light>("light::directional", "", Json{{"Le", j3(Le)}, {"direction", j3(k * d)}}); vp_assert((bool)l, "created"); Transform T(Mat4(1)); Bound b = bnd(); l->set_scene_bound(b);
    double u0 = u01o("u0"), u1 = u01o("u1"); auto f = [&](double a, double c) { auto r = l->sample_ray({Vec2(a, c), 0, Vec2(0)}, T); vp_assume((bool)r); return r->geom.p; };
    auto x = l->sample_ray({Vec2(u0, u1), 0, Vec2(0)}, T); vp_assert((bool)x, "always-samples"); if (!x) return; eq3(x->wo, d, "light-direction"); double p = l->pdf_ray(x->geom, x->wo, T, false); Vec3 L = l->eval(x->geom, x->wo, false); eq3(L, Le, "emitted-radiance"); eq3(x->weight * p, L, "ray-weight"); covers(x->geom, d, b, p);
    density(f, u0, u1, p, "position-density"); eq3(l->eval(x->geom, x->wo, true), Vec3(0), "delta-not-evaluable"); vp_assert(l->is_specular() && l->is_infinite() && !l->is_env() && !l->is_connectable(x->geom), "flags");
}
VP_ENTRY(directional_direct) {
    Vec3 Le = color("Le"), d = unit("d"), n = unit("n"); auto l = comp::create<Light>("light::directional", "", Json{{"Le", j3(Le)}, {"direction", j3(d)}}); Transform T(Mat4(1)); l->set_scene_bound(bnd()); auto g = refp(vec("p"), n); auto x = l->sample_direct({Vec2(0), 0, Vec2(0)}, g, T); double c = g.degenerated ? 1 : glm::dot(n, d); if (c < 0) c = -c; if (c == 0) { vp_assert(!x, "no-grazing-sample"); return; } vp_assert((bool)x, "samples"); if (!x) return;
    eq3(x->wo, d, "light-direction"); vp_assert(x->geom.infinite, "infinite-point"); double p = l->pdf_direct(g, x->geom, T, x->wo, false); eq(p * c, 1, "direct-density"); eq3(x->weight * p, Le, "direct-weight"); eq(l->pdf_direct(g, x->geom, T, x->wo, true), 0, "delta-no-density");
}
static void env_ray(const Light* l, Bound b, const char* lab) {
    Transform T(Mat4(1)); double u0 = u01o("u0"), u1 = u01o("u1"), v0 = u01o("v0"), v1 = u01o("v1"); Vec2 v(v0, v1);
    auto x = l->sample_ray({Vec2(u0, u1), 0, v}, T); vp_assert((bool)x, "always-samples"); if (!x) return; eq(glm::dot(x->wo, x->wo), 1, "unit-direction"); double p = l->pdf_ray(x->geom, x->wo, T, false); Vec3 L = l->eval(x->geom, x->wo, false); eq3(x->weight * p, L, "ray-weight"); covers(x->geom, x->wo, b, p);
    // joint density: direction (uniform over the sphere) times position on the disk
    auto fp = [&](double a, double c) { auto r = l->sample_ray({Vec2(a, c), 0, v}, T); vp_assume((bool)r); return r->geom.p; }; auto fd = [&](double a, double c) { auto r = l->sample_ray({Vec2(u0, u1), 0, Vec2(a, c)}, T); vp_assume((bool)r); return r->wo; };
    Vec3 w, a, c, w2, a2, c2; partials(fp, u0, u1, w, a, c); partials(fd, v0, v1, w2, a2, c2); Vec3 x1 = glm::cross(a, c), x2 = glm::cross(a2, c2); vp_assert_near(p * p * glm::dot(x1, x1) * glm::dot(x2, x2), 1, 1e-2, "ray-density");
}
VP_ENTRY(envconst) { Vec3 Le = color("Le"); auto l = comp::create<Light>("light::envconst", "", Json{{"Le", j3(Le)}}); vp_assert((bool)l, "created"); Bound b; b.min = Vec3(-1, 0, 2); double e = pos("e"); b.max = b.min + Vec3(2 * e, e, 2 * e); l->set_scene_bound(b); env_ray(l.get(), b, "");
    auto g = PointGeometry::make_infinite(unit("w")); eq3(l->eval(g, g.wo, false), Le, "emitted-radiance"); vp_assert(!l->is_specular() && l->is_infinite() && l->is_env() && !l->is_connectable(g), "flags"); }
VP_ENTRY(envconst_direct) {
    Vec3 Le = color("Le"), n = unit("n"); auto l = comp::create<Light>("light::envconst", "", Json{{"Le", j3(Le)}}); Transform T(Mat4(1)); l->set_scene_bound(bnd()); auto g = refp(vec("p"), n); double v0 = u01o("v0"), v1 = u01o("v1");
    auto x = l->sample_direct({Vec2(0), 0, Vec2(v0, v1)}, g, T); if (!x) { vp_assert(!g.degenerated, "always-samples-in-space"); return; } double p = l->pdf_direct(g, x->geom, T, x->wo, false); eq3(x->weight * p, Le, "direct-weight"); eq3(x->geom.wo, x->wo, "point-at-infinity-direction"); vp_assert(x->geom.infinite, "infinite-point");
    auto f = [&](double a, double c) { auto r = l->sample_direct({Vec2(0), 0, Vec2(a, c)}, g, T); vp_assume((bool)r); return r->wo; }; double c = g.degenerated ? 1 : glm::dot(n, x->wo); if (c < 0) c = -c; density(f, v0, v1, p * c, "direct-density");
}
// ---- environment map: the image is a stand-in with arbitrary texel values
struct EnvTex final : public Texture {
    static Vec3 v[4]; static int w, h; mutable Vec2 at;
    Vec3 eval(Vec2 t) const override { at = t; int x = t.x * w, y = t.y * h; if (x >= w) x = w - 1; if (y >= h) y = h - 1; return v[y * w + x]; }
    Vec3 eval_by_pixel_coords(int x, int y) const override { return v[y * w + x]; }
    TextureSize size() const override { return {w, h}; }
};
Vec3 EnvTex::v[4]; int EnvTex::w = 2, EnvTex::h = 2;
LM_COMP_REG_IMPL(EnvTex, "texture::bitmap");
static Component::Ptr<Light> env(double& scale, double& rot) { EnvTex::w = EnvTex::h = 2; for (int i = 0; i < 4; i++) EnvTex::v[i] = Vec3(pos("v")); scale = pos("scale"); rot = vp_choice("rot", 3) * 90; auto l = comp::create<Light>("light::env", "$.env", Json{{"scale", scale}, {"rot", rot}}); vp_assert((bool)l, "created"); return l; }
VP_ENTRY(env_direct) {
    double scale, rot; auto l = env(scale, rot); Transform T(Mat4(1)); auto g = PointGeometry::make_degenerated(Vec3(0)); const int w = 2, h = 2;
    // texel probabilities recovered from the reported density at texel centres
    double P[h][w], m[h]; for (int y = 0; y < h; y++) { m[y] = 0; for (int x = 0; x < w; x++) { double sg = x ? -1 : 1; Vec3 e(0.8 * sg, y ? -0.6 : 0.6, 0); Vec3 d = rot == 0 ? e : rot == 90 ? Vec3(0, e.y, -e.x) : Vec3(-e.x, e.y, 0); auto gl = PointGeometry::make_infinite(-d);
        eq3(l->eval(gl, -d, false), EnvTex::v[y * w + x] * scale, "radiance-of-texel"); P[y][x] = l->pdf_direct(g, gl, T, -d, false) * 2 * Pi * Pi * 0.8 / (w * h); m[y] += P[y][x]; vp_assert(P[y][x] > 0, "every-emitting-texel-can-be-sampled"); } }
    vp_assert_near(m[0] + m[1], 1, 1e-9, "density-normalised");
    double u0 = u01("u0"), u1 = u01("u1"), s0 = u01o("s0"), s1 = u01o("s1"); auto x = l->sample_direct({Vec2(s0, s1), 0, Vec2(u0, u1)}, g, T); vp_assert((bool)x, "samples"); if (!x) return;
    int ty = u0 < m[0] ? 0 : 1, tx = u1 * m[ty] < P[ty][0] ? 0 : 1; Vec3 L = l->eval(x->geom, x->wo, false); eq3(L, EnvTex::v[ty * w + tx] * scale, "radiance-of-sampled-texel");
    double p = l->pdf_direct(g, x->geom, T, x->wo, false); eq3(x->weight * p, L, "direct-weight"); eq3(x->geom.wo, x->wo, "point-at-infinity-direction"); eq(glm::dot(x->wo, x->wo), 1, "unit-direction");
    auto f = [&](double a, double c) { auto r = l->sample_direct({Vec2(a, c), 0, Vec2(u0, u1)}, g, T); vp_assume((bool)r); return r->wo; }; Vec3 q, a, b; partials(f, s0, s1, q, a, b); Vec3 c = glm::cross(a, b); vp_assert_near(p * p * glm::dot(c, c), P[ty][tx] * P[ty][tx], 1e-2, "direct-density");
}
// wide image: one row of four texels, one per quadrant of azimuth
VP_ENTRY(env_wide) {
    EnvTex::w = 4; EnvTex::h = 1; for (int i = 0; i < 4; i++) EnvTex::v[i] = Vec3(pos("v")); int k = vp_choice("rot", 4); auto l = comp::create<Light>("light::env", "$.env", Json{{"rot", k * 90.}}); vp_assert((bool)l, "created"); Transform T(Mat4(1)); auto g = PointGeometry::make_degenerated(Vec3(0));
    double P[4], sum = 0, u = u01("u1"); const double cx[4] = {.6, .8, -.6, -.8}, cz[4] = {.8, -.6, -.8, .6};
    for (int x = 0; x < 4; x++) { int q = (x + k) % 4; Vec3 d(cx[q], 0, cz[q]); auto gl = PointGeometry::make_infinite(-d); eq3(l->eval(gl, -d, false), EnvTex::v[x], "radiance-of-texel"); P[x] = l->pdf_direct(g, gl, T, -d, false) * 2 * Pi * Pi / 4; vp_assert(P[x] > 0, "every-emitting-texel-can-be-sampled"); sum += P[x]; }
    vp_assert_near(sum, 1, 1e-9, "density-normalised"); auto x = l->sample_direct({Vec2(.5, .5), 0, Vec2(u01("u0"), u)}, g, T); vp_assert((bool)x, "samples"); if (!x) return;
    int t = 0; double a = P[0]; while (t < 3 && u >= a) a += P[++t]; eq3(l->eval(x->geom, x->wo, false), EnvTex::v[t], "radiance-of-sampled-texel"); eq3(x->weight * l->pdf_direct(g, x->geom, T, x->wo, false), EnvTex::v[t], "direct-weight");
}
VP_ENTRY(env_ray) { double scale, rot; auto l = env(scale, rot); Bound b; b.min = Vec3(-1, 0, 2); b.max = Vec3(1, 1, 4); l->set_scene_bound(b); Transform T(Mat4(1)); Vec2 u(u01("u0"), u01("u1")), v(u01o("v0"), u01o("v1"));
    auto x = l->sample_ray({u, 0, v}, T); vp_assert((bool)x, "always-samples"); if (!x) return; double p = l->pdf_ray(x->geom, x->wo, T, false); eq3(x->weight * p, l->eval(x->geom, x->wo, false), "ray-weight"); covers(x->geom, x->wo, b, p); vp_assert(l->is_infinite() && l->is_env() && !l->is_connectable(x->geom) && !l->is_specular(), "flags"); }

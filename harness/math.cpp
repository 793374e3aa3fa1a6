// Shared numerical building blocks: discrete distributions, frames, warps, bounds, transforms, measure conversions.
#include "common.h"
#include <lm/surface.h>
using namespace lm; using namespace hx;
VP_ENTRY(dist) { int n = 1 + vp_choice("n", 4); double w[4], S = 0; for (int i = 0; i < n; i++) { w[i] = nonneg("w"); S += w[i]; } vp_assume(S > 0); Dist d; vp_assert(d.empty(), "new-is-empty"); bool reuse = vp_choice("reuse", 2); if (reuse) { d.add(3); d.add(0.5); d.norm(); d.clear(); vp_assert(d.empty(), "clear-empties"); } for (int i = 0; i < n; i++) d.add(w[i]); vp_assert(!d.empty(), "not-empty"); d.norm();
    double T = 0; for (int i = 0; i < n; i++) { eq(d.pmf(i) * S, w[i], "pmf-proportional-to-weight"); T += d.pmf(i); } eq(T, 1, "pmf-sums-to-one"); int k = vp_int("k", -4, 8); if (k < 0 || k >= n) eq(d.pmf(k), 0, "pmf-zero-outside");
    double u = u01("u"); int i = d.sample(u); vp_assert(i >= 0 && i < n, "sample-in-range"); double lo = 0; for (int j = 0; j < i; j++) lo += w[j]; vp_assert_le(lo, u * S, "sample-inverts-cdf"); vp_assert_le(u * S, lo + w[i], "sample-inverts-cdf"); vp_assert(w[i] > 0, "never-samples-zero-weight"); int e = d.sample(1); vp_assert(e >= 0 && e < n, "sample-in-range"); }
VP_ENTRY(dist2) { int W = 1 + vp_choice("W", 2), H = 1 + vp_choice("H", 2); std::vector<double> v; double S = 0; bool zeroRow = H > 1 && vp_choice("zeroRow", 2); for (int i = 0; i < W * H; i++) { double x = zeroRow && i < W ? 0 : nonneg("v"); v.push_back(x); S += x; } vp_assume(S > 0); if (!zeroRow) for (int y = 0; y < H; y++) { double r = 0; for (int x = 0; x < W; x++) r += v[y * W + x]; vp_assume(r > 0); } vp_divcheck(1); Dist2 d; d.init(v, W, H);
    int qx = vp_choice("qx", W), qy = vp_choice("qy", H); double fx = u01("fx"), fy = u01("fy"); eq(d.pdf((qx + fx) / W, (qy + fy) / H) * S, v[qy * W + qx] * W * H, "density-of-cell");
    Vec4 u(u01("u0"), u01("u1"), u01("u2"), u01("u3")); Vec2 p = d.sample(u); vp_assert(p.x >= 0 && p.x < 1 && p.y >= 0 && p.y < 1, "sample-in-unit-square"); int x = int(p.x * W), y = int(p.y * H); eq(p.x * W - x, u[2], "position-in-cell"); eq(p.y * H - y, u[3], "position-in-cell"); eq(d.pdf(p.x, p.y) * S, v[y * W + x] * W * H, "sample-density"); vp_assert(v[y * W + x] > 0, "never-samples-zero-cell");
    double row = 0, lo = 0, rl = 0; for (int j = 0; j < W; j++) row += v[y * W + j]; for (int j = 0; j < y * W; j++) lo += v[j]; for (int j = 0; j < x; j++) rl += v[y * W + j]; vp_assert_le(lo, u[0] * S, "row-inverts-marginal"); vp_assert_le(u[0] * S, lo + row, "row-inverts-marginal"); vp_assert_le(rl, u[1] * row, "column-inverts-conditional"); vp_assert_le(u[1] * row, rl + v[y * W + x], "column-inverts-conditional"); }
// the closed unit square: the right and upper edge belong to the last cells
VP_ENTRY(dist2_edge) { std::vector<double> v; double S = 0; for (int i = 0; i < 4; i++) { double x = pos("v"); v.push_back(x); S += x; } Dist2 d; d.init(v, 2, 2); double f = u01("f"); int q = vp_choice("q", 2); eq(d.pdf(1, (q + f) / 2) * S, v[q * 2 + 1] * 4, "density-on-right-edge"); eq(d.pdf((q + f) / 2, 1) * S, v[2 + q] * 4, "density-on-upper-edge"); }
VP_ENTRY(frames) { Vec3 n = unit("n"); auto [u, v] = math::orthonormal_basis(n); eq(glm::dot(u, u), 1, "unit-length"); eq(glm::dot(v, v), 1, "unit-length"); eq(glm::dot(u, v), 0, "orthogonal"); eq(glm::dot(u, n), 0, "orthogonal"); eq(glm::dot(v, n), 0, "orthogonal"); eq3(glm::cross(u, v), n, "right-handed");
    Vec3 p = vec("p"); Vec2 t(vp_real("tu"), vp_real("tv")); Vec3 gn = unit("gn"); auto g = PointGeometry::make_on_surface(p, n, gn, t); vp_assert(!g.degenerated && !g.infinite, "surface-point-kind"); eq3(g.p, p, "surface-point"); eq3(g.n, n, "surface-point"); eq3(g.gn, gn, "surface-point"); vp_assert(g.t == t, "surface-point"); Vec3 w = vec("w"); eq3(g.to_local * (g.to_world * w), w, "local-world-inverse"); eq3(g.to_world * Vec3(0, 0, 1), n, "local-z-is-normal"); eq((g.to_local * w).z, glm::dot(w, n), "local-z-is-cosine"); eq3(g.to_local * g.u, Vec3(1, 0, 0), "tangents");
    eq3(g.to_local * g.v, Vec3(0, 1, 0), "tangents"); Vec3 wi = unit("wi"); auto [nn, uu, vv] = g.orthonormal_basis_twosided(wi); vp_assert(glm::dot(nn, wi) >= 0, "two-sided-basis-faces-viewer"); eq3(glm::cross(uu, vv), nn, "two-sided-right-handed"); eq(glm::dot(uu, uu), 1, "unit-length"); eq(glm::dot(uu, nn), 0, "orthogonal"); vp_assert(g.opposite(wi, w) == (glm::dot(wi, n) * glm::dot(w, n) <= 0), "opposite-sides"); vp_assert(g.opposite(wi, w) == g.opposite(w, wi), "opposite-sides"); }
VP_ENTRY(warps) { double a = u01o("u0"), b = u01o("u1"); int k = vp_choice("warp", 3); if (k == 0) { auto f = [](double x, double y) { return math::sample_uniform_sphere(Vec2(x, y)); }; Vec3 w = f(a, b); eq(glm::dot(w, w), 1, "unit-length"); density(f, a, b, math::pdf_uniform_sphere(), "sphere-density"); }
    else if (k == 1) { auto f = [](double x, double y) { return Vec3(math::sample_uniform_disk(Vec2(x, y)), 0); }; Vec3 w = f(a, b); vp_assert_le(glm::dot(w, w), 1, "inside-disk"); density(f, a, b, math::pdf_uniform_disk(), "disk-density"); }
    else { auto f = [](double x, double y) { return math::sample_cosine_weighted(Vec2(x, y)); }; Vec3 w = f(a, b); eq(glm::dot(w, w), 1, "unit-length"); vp_assert(w.z >= 0, "upper-hemisphere"); auto proj = [&](double x, double y) { Vec3 q = f(x, y); return Vec3(q.x, q.y, 0); }; density(proj, a, b, math::pdf_cosine_weighted_projSA(), "projected-density"); } }
VP_ENTRY(small_functions) { double p = nonneg("p"), q = nonneg("q"); double w1 = math::balance_heuristic(p, q), w2 = math::balance_heuristic(q, p); vp_assert(w1 >= 0 && w1 <= 1, "mis-weight-range"); if (p > 0 || q > 0) { eq(w1 + w2, 1, "mis-weights-sum-to-one"); eq(w1 * q, w2 * p, "mis-weights-proportional"); } else { eq(w1, 0, "mis-weights-of-impossible"); eq(w2, 0, "mis-weights-of-impossible"); }
    double x = vp_real("x"); eq(math::sq(x), x * x, "square"); double r = math::safe_sqrt(x); if (x > 0) { eq(r * r, x, "safe-sqrt"); vp_assert(r >= 0, "safe-sqrt"); } else eq(r, 0, "safe-sqrt"); Vec3 v = vec("v"); vp_assert(math::is_zero(v) == (v.x == 0 && v.y == 0 && v.z == 0), "is-zero");
    Vec3 l = unit("l"); eq(math::local_cos(l), l.z, "local-cosine"); double s = math::local_sin(l); eq(s * s, l.x * l.x + l.y * l.y, "local-sine"); vp_assert(s >= 0, "local-sine"); if (l.z != 0) { eq(math::local_tan2(l) * l.z * l.z, l.x * l.x + l.y * l.y, "local-tangent"); eq(math::local_tan(l) * l.z, s, "local-tangent"); } }
VP_ENTRY(barycentric) { Vec3 a = vec("a"), b = vec("b"), c = vec("c"); eq3(math::mix_barycentric(a, b, c, Vec2(0, 0)), a, "corner"); eq3(math::mix_barycentric(a, b, c, Vec2(1, 0)), b, "corner"); eq3(math::mix_barycentric(a, b, c, Vec2(0, 1)), c, "corner"); double u = u01("u"), v = u01("v"); eq3(math::mix_barycentric(a, b, c, Vec2(u, v)), a + u * (b - a) + v * (c - a), "interpolation"); }
VP_ENTRY(normal_of_triangle) { Vec3 a = vec("a"); double l = pos("l"), h = pos("h"), k = vp_real("k"); Vec3 b = a + Vec3(l, 0, 0), c = a + Vec3(k, 0.6 * h, 0.8 * h); Vec3 n = math::geometry_normal(a, b, c); eq(glm::dot(n, n), 1, "unit-length"); eq(glm::dot(n, b - a), 0, "orthogonal-to-edges"); eq(glm::dot(n, c - a), 0, "orthogonal-to-edges"); vp_assert(glm::dot(n, glm::cross(b - a, c - a)) > 0, "counter-clockwise"); }
static Bound box(const char* n) { Bound b; std::string s(n); for (int i = 0; i < 3; i++) { b.min[i] = vp_real_in((s + ".min").c_str(), -1e6, 1e6); b.max[i] = vp_real_in((s + ".max").c_str(), -1e6, 1e6); vp_assume(b.min[i] <= b.max[i]); } return b; }
static bool inside(const Bound& b, Vec3 p) { return b.min.x <= p.x && p.x <= b.max.x && b.min.y <= p.y && p.y <= b.max.y && b.min.z <= p.z && p.z <= b.max.z; }
static Vec3 nz() { Vec3 d; const double lo[2] = {1e-3, -10}, hi[2] = {10, -1e-3}; for (int i = 0; i < 3; i++) { int s = vp_choice("sign", 2); d[i] = vp_real_in("d", lo[s], hi[s]); } return d; }
VP_ENTRY(bound_ray) { vp_itemode(1); Bound b; for (int i = 0; i < 3; i++) { b.min[i] = vp_real_in("bmin", -1e6, 1e6); b.max[i] = b.min[i] + vp_real_in("size", 0, 1e6); } Vec3 o = vec("o"), d = nz(); double t0 = vp_real_in("t0", 0, 1e6), t1 = vp_real_in("t1", 0, 1e6); vp_assume(t0 <= t1); double a = t0, c = t1; bool hit = b.isect_range({o, d}, a, c); vp_assert(b.isect({o, d}, t0, t1) == hit, "test-agrees-with-range"); double t = vp_real_in("t", 0, 1e6); vp_assume(t0 <= t && t <= t1); bool in = inside(b, o + t * d);
    if (hit) { vp_assert(t0 <= a && a <= c && c <= t1, "range-inside-query"); vp_assert(in == (a <= t && t <= c), "range-is-exact"); } else vp_assert(!in, "miss-means-no-point-inside"); }
VP_ENTRY(bound_ops) { vp_itemode(1); Bound a = box("a"), b = box("b"); Vec3 p = vec("p"), q = vec("q"); Bound m = merge(a, b); vp_assert(!(inside(a, q) | inside(b, q)) | inside(m, q), "merge-contains-both"); Bound e = merge(a, p); vp_assert(inside(e, p), "merge-contains-point"); vp_assert(!inside(a, q) | inside(e, q), "merge-keeps-bound"); for (int i = 0; i < 3; i++) { vp_assert((m.min[i] == a.min[i]) | (m.min[i] == b.min[i]), "merge-is-tight"); vp_assert((m.max[i] == a.max[i]) | (m.max[i] == b.max[i]), "merge-is-tight"); vp_assert((e.min[i] == a.min[i]) | (e.min[i] == p[i]), "merge-is-tight"); vp_assert((e.max[i] == a.max[i]) | (e.max[i] == p[i]), "merge-is-tight"); }
    Vec3 c = a.center(); eq3(c + c, a.min + a.max, "center"); Vec3 s = a.max - a.min; eq(a.surface_area(), 2 * (s.x * s.y + s.x * s.z + s.y * s.z), "surface-area"); eq3(a[0], a.min, "index"); eq3(a[1], a.max, "index"); Bound z; Bound pb = merge(z, p); vp_assume(p.x > -1e9 && p.x < 1e9 && p.y > -1e9 && p.y < 1e9 && p.z > -1e9 && p.z < 1e9); eq3(pb.min, p, "empty-bound-neutral"); eq3(pb.max, p, "empty-bound-neutral"); }
// normals transform with the inverse transpose, J is the volume change
VP_ENTRY(transform) { Vec3 a = vec("a"), b = vec("b"), c = vec("c"), d = vec("d"); double det = glm::dot(a, glm::cross(b, c)); vp_assume(det != 0); Mat4 M(Vec4(a, 0), Vec4(b, 0), Vec4(c, 0), Vec4(d, 1)); Transform T(M); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) eq(T.M[i][j], M[i][j], "matrix-kept"); eq(T.J, det > 0 ? det : -det, "volume-change"); Mat3 L(a, b, c), I = glm::transpose(T.normal_M) * L; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) eq(I[i][j], i == j ? 1 : 0, "normal-matrix-is-inverse-transpose"); }
static PointGeometry pt(int k, const char* n, Vec3& p, Vec3& nn) { std::string s(n); p = vec((s + ".p").c_str()); nn = unit((s + ".n").c_str()); return k == 0 ? PointGeometry::make_on_surface(p, nn, nn) : k == 1 ? PointGeometry::make_degenerated(p) : PointGeometry::make_infinite(nn); }
VP_ENTRY(geometry_term) { int k1 = vp_choice("kind1", 3), k2 = vp_choice("kind2", 3); Vec3 p1, n1, p2, n2; auto a = pt(k1, "a", p1, n1), b = pt(k2, "b", p2, n2); if (k1 != 2 && k2 != 2) vp_assume(glm::dot(p2 - p1, p2 - p1) > 0); double G = surface::geometry_term(a, b); eq(G, surface::geometry_term(b, a), "symmetric"); double x = nonneg("pdf"); eq(surface::convert_pdf_to_area(x, a, b), x * G, "area-conversion"); auto A = [](double t) { return t < 0 ? -t : t; };
    if (k1 == 2 && k2 == 2) { eq(G, 0, "undefined-at-infinity"); return; } if (k1 == 2) { eq(G, k2 == 0 ? A(glm::dot(n2, n1)) : 1, "directional"); vp_assert(surface::distance(a, b) >= Inf, "distance"); return; } if (k2 == 2) { eq(G, k1 == 0 ? A(glm::dot(n1, n2)) : 1, "directional"); vp_assert(surface::distance(a, b) >= Inf, "distance"); return; }
    Vec3 d = p2 - p1; double L2 = glm::dot(d, d), c1 = k1 == 0 ? A(glm::dot(n1, d)) : 1, c2 = k2 == 0 ? A(glm::dot(n2, d)) : 1; double D = surface::distance(a, b); eq(D * D, L2, "distance"); vp_assert(D >= 0, "distance"); double e = (k1 == 0) + (k2 == 0); if (e == 2) eq(G * L2 * L2, c1 * c2, "finite-points"); else if (e == 1) eq(G * L2 * D, c1 * c2, "finite-points"); else eq(G * L2, 1, "finite-points"); }
VP_ENTRY(projected_density) { int k = vp_choice("kind", 2); Vec3 p, n; auto g = pt(k, "g", p, n); Vec3 d = unit("d"); double x = nonneg("pdf"), r = surface::convert_pdf_SA_to_projSA(x, g, d), c = glm::dot(n, d); if (k == 1) eq(r, x, "degenerate-keeps-density"); else if (c == 0) eq(r, 0, "perpendicular"); else eq(r * (c < 0 ? -c : c), x, "projected-density"); }
// rays from the origin parallel to axes (bit-precise floating point): a zero component restricts nothing but membership of its slab, faces included
static void axisBound(int zeros) { double o[3], lo[3], hi[3], d[3]; const double C[2] = {1, -1}, Z[2] = {0.0, -0.0}; Bound b; for (int i = 0; i < 3; i++) { std::string s(1, char('0' + i)); o[i] = 0; lo[i] = vp_real_in(("lo" + s).c_str(), -1e6, 1e6); hi[i] = vp_real_in(("hi" + s).c_str(), -1e6, 1e6); vp_assume(lo[i] <= hi[i]); b.min[i] = lo[i]; b.max[i] = hi[i]; d[i] = (zeros >> i & 1) ? Z[vp_choice("zero", 2)] : C[vp_choice("sign", 2)]; }
    double t0 = vp_real_in("t0", 0, 1e6), t1 = vp_real_in("t1", 0, 1e6); vp_assume(t0 <= t1); double a = t0, c = t1; bool h = b.isect_range({Vec3(o[0], o[1], o[2]), Vec3(d[0], d[1], d[2])}, a, c); bool in = true; double A = t0, B = t1; for (int i = 0; i < 3; i++) { if (d[i] == 0) in = in & (lo[i] <= o[i]) & (o[i] <= hi[i]); else { double x = d[i] > 0 ? lo[i] : -hi[i], y = d[i] > 0 ? hi[i] : -lo[i]; A = A < x ? x : A; B = y < B ? y : B; } } in = in & (A <= B);
    vp_assert(h == in, "axis-parallel-hit"); if (h) { vp_assert(a == A && c == B, "axis-parallel-range"); } }
VP_ENTRY(bound_axis_x) { vp_itemode(1); axisBound(6); }
VP_ENTRY(bound_axis_y) { vp_itemode(1); axisBound(5); }
VP_ENTRY(bound_axis_z) { vp_itemode(1); axisBound(3); }
VP_ENTRY(bound_in_plane) { vp_itemode(1); axisBound(1 << vp_choice("axis", 3)); }

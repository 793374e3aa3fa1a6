// Participating media, phase functions and volumes.
#include "common.h"
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
using namespace lm; using namespace hx;
template <class T> static Component::Ptr<T> mk(const char* t, Json j) { auto p = comp::create<T>(t, "$.x", j); vp_assert((bool)p, "created"); return p; }
static Vec3 bvec(const char* n, double r = 1e6) { std::string s(n); return Vec3(vp_real_in((s + ".x").c_str(), -r, r), vp_real_in((s + ".y").c_str(), -r, r), vp_real_in((s + ".z").c_str(), -r, r)); }
static Vec3 dirOf(int k) { return k == 0 ? Vec3(0.48, 0.64, 0.6) : Vec3(-0.64, -0.48, 0.6); }
struct Box { Vec3 lo, hi; Box() { lo = bvec("lo"); for (int i = 0; i < 3; i++) hi[i] = lo[i] + vp_real_in("size", 0, 1e6); }
    // intersection of [t0,t1] with the slabs, computed without the library
    bool clip(Vec3 o, Vec3 d, double& t0, double& t1) const { double l = t0, h = t1; for (int i = 0; i < 3; i++) { double p = (lo[i] - o[i]) / d[i], q = (hi[i] - o[i]) / d[i], a = d[i] < 0 ? q : p, b = d[i] < 0 ? p : q; l = a > l ? a : l; h = b < h ? b : h; } t0 = l; t1 = h; return l <= h; } };
struct DVol final : public Volume { Box* B = nullptr; double mx = 1; mutable int n = 0; int limit = 2; mutable double val[8]; mutable Vec3 at[8]; Vec3 col;
    Bound bound() const override { return {B->lo, B->hi}; } bool has_scalar() const override { return true; } Float max_scalar() const override { return mx; } bool has_color() const override { return true; } mutable Vec3 colAt; mutable int nc = 0;
    Float eval_scalar(Vec3 p) const override { if (n >= limit) vp_end(); double v = vp_real_in("density", 0, 1e9); vp_assume(v <= mx); at[n] = p; val[n++] = v; return v; } Vec3 eval_color(Vec3 p) const override { colAt = p; nc++; return col; } };
struct NoPhase final : public Phase { std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&, Vec3) const override { return {}; } Float pdf_direction(const PointGeometry&, Vec3, Vec3) const override { return 0; } Vec3 eval(const PointGeometry&, Vec3, Vec3) const override { return Vec3(0); } };
struct Env { Root root; DVol den, alb; NoPhase ph; Env() { root.add("den", &den); root.add("alb", &alb); root.add("ph", &ph); } };
static Component::Ptr<Medium> homo(Env&, double mu, Vec3 al, const Box* b) { Json j{{"density", mu}, {"albedo", j3(al)}, {"phase", "$.ph"}}; if (b) { j["bound_min"] = j3(b->lo); j["bound_max"] = j3(b->hi); } return mk<Medium>("medium::homogeneous", j); }
VP_ENTRY(homogeneous) { vp_itemode(1); Env e; Box B; double mu = vp_real_in("mu", 1e-6, 1e6); Vec3 al = color("albedo"); auto m = homo(e, mu, al, &B); vp_assert(m->phase() == &e.ph && !m->is_emitter(), "phase-and-emission"); Vec3 o = bvec("o"), d = dirOf(vp_choice("dir", 2)); double t0 = vp_real_in("t0", 0, 1e6), t1 = vp_real_in("t1", 0, 1e6); vp_assume(t0 <= t1); double a = t0, b = t1; bool in = B.clip(o, d, a, b); Rng rng(1); auto T = m->eval_transmittance(rng, {o, d}, t0, t1); vp_assert(vp_rng(0) < 0, "transmittance-is-deterministic");
    auto s = m->sample_distance(rng, {o, d}, t0, t1); if (!in) { eq3(T, Vec3(1), "no-attenuation-outside"); vp_assert(!s, "no-interaction-outside"); return; } eq3(T, Vec3(std::exp(-mu * (b - a))), "beer-lambert"); vp_assert(vp_rng(0) >= 0 && vp_rng(1) < 0, "one-random-number"); double t = -std::log(1 - vp_rng(0)) / mu;
    vp_assert((bool)s, "samples"); if (!s) return; vp_assert(s->medium == (t < b - a), "medium-iff-free-flight-ends-inside"); if (s->medium) { eq3(s->p, o + d * (a + t), "scattering-point"); eq3(s->weight, al, "scattering-weight-is-albedo"); } else eq3(s->weight, Vec3(1), "surface-weight"); }
VP_ENTRY(homogeneous_unbounded) { Env e; double mu = vp_real_in("mu", 1e-6, 1e6); Vec3 al = color("albedo"); auto m = homo(e, mu, al, nullptr); Vec3 o = bvec("o"), d = dirOf(vp_choice("dir", 2)); double t1 = vp_real_in("t1", 0, 1e6); Rng rng(1); eq3(m->eval_transmittance(rng, {o, d}, 0, t1), Vec3(std::exp(-mu * t1)), "beer-lambert"); auto s = m->sample_distance(rng, {o, d}, 0, t1); double t = -std::log(1 - vp_rng(0)) / mu; vp_assert((bool)s && s->medium == (t < t1), "medium-iff-free-flight-ends-inside"); if (s && s->medium) { eq3(s->p, o + d * t, "scattering-point"); eq3(s->weight, al, "scattering-weight-is-albedo"); } }
static Component::Ptr<Medium> hetero(Env& e, Box& B) { e.den.B = &B; e.alb.B = &B; e.den.mx = vp_real_in("max", 1e-6, 1e6); e.alb.col = color("albedo"); return mk<Medium>("medium::heterogeneous", Json{{"volume_density", "$.den"}, {"volume_albedo", "$.alb"}, {"phase", "$.ph"}}); }
// delta tracking, up to two tentative collisions
VP_ENTRY(heterogeneous_sample) { Env e; Box B; auto m = hetero(e, B); vp_assert(m->phase() == &e.ph && !m->is_emitter(), "phase-and-emission"); Vec3 o = bvec("o"), d = dirOf(0); double t0 = vp_real_in("t0", 0, 1e6), t1 = vp_real_in("t1", 0, 1e6); vp_assume(t0 <= t1); double a = t0, b = t1; vp_itemode(1); bool in = B.clip(o, d, a, b); Rng rng(1); auto s = m->sample_distance(rng, {o, d}, t0, t1); if (!in) { vp_assert(!s && vp_rng(0) < 0, "no-interaction-outside"); return; }
    double t = a; for (int k = 0; k < e.den.n; k++) { t += -std::log(1 - vp_rng(2 * k)) / e.den.mx; eq3(e.den.at[k], o + d * t, "tentative-collision-point"); vp_assert(t < b, "tentative-collision-inside-range"); bool acc = vp_rng(2 * k + 1) * e.den.mx < e.den.val[k]; vp_assert(acc == ((bool)s && k == e.den.n - 1), "accepted-with-probability-density-over-majorant"); }
    if (s) { vp_assert(s->medium && e.den.n > 0, "scatters-in-medium"); eq3(s->p, o + d * t, "scattering-point"); eq3(s->weight, e.alb.col, "scattering-weight-is-albedo"); eq3(e.alb.colAt, s->p, "albedo-looked-up-at-scattering-point"); } else { t += -std::log(1 - vp_rng(2 * e.den.n)) / e.den.mx; vp_assert(t >= b, "leaves-only-beyond-range"); } }
// ratio tracking, up to three tentative collisions
VP_ENTRY(heterogeneous_transmittance) { Env e; Box B; auto m = hetero(e, B); e.den.limit = 3; Vec3 o = bvec("o"), d = dirOf(1); double t0 = vp_real_in("t0", 0, 1e6), t1 = vp_real_in("t1", 0, 1e6); vp_assume(t0 <= t1); double a = t0, b = t1; vp_itemode(1); bool in = B.clip(o, d, a, b); Rng rng(1); Vec3 T = m->eval_transmittance(rng, {o, d}, t0, t1); if (!in) { eq3(T, Vec3(1), "no-attenuation-outside"); return; } double t = a, R = 1; for (int k = 0; k < e.den.n; k++) { t += -std::log(1 - vp_rng(k)) / e.den.mx; eq3(e.den.at[k], o + d * t, "tentative-collision-point"); vp_assert(t < b, "tentative-collision-inside-range"); R *= 1 - e.den.val[k] / e.den.mx; } eq3(T, Vec3(R), "ratio-estimate"); t += -std::log(1 - vp_rng(e.den.n)) / e.den.mx; vp_assert(t >= b, "tracking-ends-beyond-range"); vp_assert(vp_rng(e.den.n + 1) < 0, "one-random-number-per-step"); }
static PointGeometry air() { return PointGeometry::make_degenerated(vec("x")); }
VP_ENTRY(isotropic) { auto p = mk<Phase>("phase::isotropic", {}); auto g = air(); Vec3 wi = unit("wi"); double a = u01o("u0"), b = u01o("u1"); auto f = [&](double x, double y) { return p->sample_direction({Vec2(x, y)}, g, wi)->wo; }; auto s = p->sample_direction({Vec2(a, b)}, g, wi); vp_assert((bool)s, "samples"); if (!s) return; eq(glm::dot(s->wo, s->wo), 1, "unit-length"); double q = p->pdf_direction(g, wi, s->wo); eq3(s->weight * q, p->eval(g, wi, s->wo), "weight-is-f-over-p"); density(f, a, b, q, "density"); Vec3 wo = unit("wo"); eq3(p->eval(g, wi, wo), p->eval(g, wo, wi), "reciprocal"); eq(p->eval(g, wi, wo).x * 4 * Pi, 1, "normalised"); }
static Component::Ptr<Phase> hg(double& g) { int k = vp_choice("gsign", 3); g = k == 0 ? 0 : k == 1 ? vp_real_in("g", 0.001, 0.999) : vp_real_in("g", -0.999, -0.001); return mk<Phase>("phase::hg", Json{{"g", g}}); }
VP_ENTRY(hg_sampling) { double G; auto p = hg(G); auto g = PointGeometry::make_degenerated(Vec3(0)); Vec3 wi = vp_choice("wi", 2) ? Vec3(0, 0, -1) : Vec3(0.6, 0, 0.8); double a = u01o("u0"), b = u01o("u1"); auto f = [&](double x, double y) { return p->sample_direction({Vec2(x, y)}, g, wi)->wo; }; auto s = p->sample_direction({Vec2(a, b)}, g, wi); vp_assert((bool)s, "samples"); if (!s) return; double q = p->pdf_direction(g, wi, s->wo); eq3(s->weight * q, p->eval(g, wi, s->wo), "weight-is-f-over-p"); density(f, a, b, q, "density"); }
VP_ENTRY(hg_any_direction) { double G; auto p = hg(G); auto g = air(); Vec3 wi = unit("wi"), wo = unit("wo"); double q = p->pdf_direction(g, wi, wo); eq3(p->eval(g, wi, wo), Vec3(q), "phase-is-its-density"); eq(q, p->pdf_direction(g, wo, wi), "reciprocal"); double c = -glm::dot(wi, wo), t = 1 + G * G - 2 * G * c, r = std::sqrt(t); eq(q * t * r * 4 * Pi, 1 - G * G, "henyey-greenstein"); vp_assert(q > 0, "positive"); auto s = p->sample_direction({Vec2(u01o("u0"), u01o("u1"))}, g, wi); vp_assert((bool)s, "samples"); if (s) eq3(s->weight, Vec3(1), "weight-is-one"); }
static bool inB(Bound b, Vec3 p) { return b.min.x <= p.x && p.x <= b.max.x && b.min.y <= p.y && p.y <= b.max.y && b.min.z <= p.z && p.z <= b.max.z; }
VP_ENTRY(volume_constant) { Json j = Json::object(); bool c = vp_choice("color", 2), s = vp_choice("scalar", 2); Vec3 col = color("col"); double v = nonneg("v"); Vec3 lo = bvec("lo"), hi = bvec("hi"); if (c) j["color"] = j3(col); if (s) j["scalar"] = v; j["bound_min"] = j3(lo); j["bound_max"] = j3(hi); if (!c && !s) { bool th = false; try { comp::create<Volume>("volume::constant", "$.x", j); } catch (const Exception&) { th = true; } vp_assert(th, "needs-a-value"); return; } auto V = mk<Volume>("volume::constant", j); vp_assert(V->has_color() == c && V->has_scalar() == s, "channels"); Vec3 p = vec("p"); if (c) eq3(V->eval_color(p), col, "color"); if (s) { eq(V->eval_scalar(p), v, "scalar"); eq(V->max_scalar(), v, "max"); } eq3(V->bound().min, lo, "bound"); eq3(V->bound().max, hi, "bound"); }
VP_ENTRY(volume_checker) { Vec3 lo(0, -1, 2), hi(1, 1, 3); auto V = mk<Volume>("volume::checker", Json{{"bound_min", j3(lo)}, {"bound_max", j3(hi)}}); eq3(V->bound().min, lo, "bound"); eq3(V->bound().max, hi, "bound"); vp_assert(V->has_scalar() && !V->has_color(), "channels"); int i = vp_choice("i", 5), j = vp_choice("j", 5); double fx = vp_real_in("fx", 0.01, 0.99), fy = vp_real_in("fy", 0.01, 0.99), fz = vp_real_in("fz", 0.01, 0.99); double v = V->eval_scalar(Vec3((i + fx) / 5, -1 + 2 * (j + fy) / 5, 2 + fz)); eq(v, (i + j) % 2 ? 0 : 1, "checker-pattern"); vp_assert_le(v, V->max_scalar(), "max-bounds-density"); }
VP_ENTRY(volume_sphere) { Vec3 c = bvec("c"); double r = vp_real_in("r", 1e-3, 1e6), v = nonneg("v"); Vec3 col = color("col"); auto V = mk<Volume>("volume::sphere", Json{{"pos", j3(c)}, {"radius", r}, {"scalar", v}, {"color", j3(col)}}); Vec3 p = vec("p"), d = p - c; double x = V->eval_scalar(p); if (glm::dot(d, d) < r * r) { eq(x, v, "inside"); vp_assert(inB(V->bound(), p), "bound-contains-volume"); } else eq(x, 0, "outside"); eq(V->max_scalar(), v, "max"); eq3(V->eval_color(p), col, "color"); vp_assert(V->has_color() && V->has_scalar(), "channels"); }
VP_ENTRY(volume_gaussian) { Vec3 c = bvec("c"); double s = vp_real_in("sigma", 1e-3, 1e3), v = pos("v"); int ax = vp_choice("axis", 3); Vec3 sg(s); sg[ax] = s / 2; auto V = mk<Volume>("volume::gaussian", Json{{"pos", j3(c)}, {"sigma", j3(sg)}, {"scalar", v}}); eq(V->eval_scalar(c), v, "peak"); eq(V->max_scalar(), v, "max"); Vec3 p = bvec("p"), d = p - c; double q = d.x * d.x / (sg.x * sg.x) + d.y * d.y / (sg.y * sg.y) + d.z * d.z / (sg.z * sg.z); eq(V->eval_scalar(p), v * std::exp(-0.5 * q), "gaussian"); vp_assert(V->has_scalar() && !V->has_color(), "channels"); }
// where the volume reports to be empty its density is negligible (below a thousandth of the peak)
VP_ENTRY(volume_gaussian_bound) { double s = vp_real_in("sigma", 1e-3, 1e3); int ax = vp_choice("axis", 3); Vec3 sg(s / 8); sg[ax] = s; auto V = mk<Volume>("volume::gaussian", Json{{"pos", j3(Vec3(0))}, {"sigma", j3(sg)}, {"scalar", 1.0}}); Bound b = V->bound(); double k = std::sqrt(-2 * std::log(1e-3)); vp_assert_le(k * s, b.max[ax], "bound-covers-significant-density"); vp_assert_le(b.min[ax], -k * s, "bound-covers-significant-density"); }
struct PVol final : public Volume { Bound b; double v, mx; Vec3 col; Bound bound() const override { return b; } bool has_scalar() const override { return true; } Float max_scalar() const override { return mx; } bool has_color() const override { return true; } Float eval_scalar(Vec3) const override { return v; } Vec3 eval_color(Vec3) const override { return col; } };
VP_ENTRY(volume_multi) { Root root; PVol V[2]; for (int i = 0; i < 2; i++) { V[i].b.min = bvec("lo"); for (int k = 0; k < 3; k++) V[i].b.max[k] = V[i].b.min[k] + vp_real_in("size", 0, 1e6); V[i].v = nonneg("v"); V[i].mx = nonneg("max"); vp_assume(V[i].v <= V[i].mx); V[i].col = color("col"); } root.add("a", &V[0]); root.add("b", &V[1]); Json l = Json::array(); l.push_back("$.a"); l.push_back("$.b"); auto M = mk<Volume>("volume::multi", Json{{"volumes_alb", l}, {"volumes_den", l}}); vp_assert(M->has_color() && M->has_scalar(), "channels"); eq(M->max_scalar(), V[0].mx + V[1].mx, "max");
    Vec3 p = bvec("p"); bool in[2] = {inB(V[0].b, p), inB(V[1].b, p)}; double s = (in[0] ? V[0].v : 0) + (in[1] ? V[1].v : 0); eq(M->eval_scalar(p), s, "density-is-sum"); vp_assert_le(M->eval_scalar(p), M->max_scalar(), "max-bounds-density"); if (in[0] || in[1]) vp_assert(inB(M->bound(), p), "bound-contains-volumes"); if (s > 0) eq3(M->eval_color(p) * s, (in[0] ? V[0].v * V[0].col : Vec3(0)) + (in[1] ? V[1].v * V[1].col : Vec3(0)), "albedo-weighted-by-density"); }

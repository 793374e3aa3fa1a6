// Shared helpers for harnesses: only the public interface of the library is used.
#pragma once
#include <pch.h>
#include <lm/lm.h>
#include "vp.h"
namespace hx {
using namespace lm;
inline Vec3 unit(const char* n) { double d[3]; vp_unit3(n, d); return Vec3(d[0], d[1], d[2]); }
inline Vec3 vec(const char* n) { std::string s(n); return Vec3(vp_real((s + ".x").c_str()), vp_real((s + ".y").c_str()), vp_real((s + ".z").c_str())); }
inline double u01(const char* n) { double x = vp_real_in(n, 0, 1); vp_assume(x < 1); return x; }
inline double u01o(const char* n) { double x = vp_real_in(n, 0, 1); vp_assume(x > 0 && x < 1); return x; }
inline double nonneg(const char* n) { return vp_real_in(n, 0, 1e30); }
inline double pos(const char* n) { double x = vp_real_in(n, 0, 1e30); vp_assume(x > 0); return x; }
inline void eq(double a, double b, const char* l) { vp_assert_eq(a, b, l); }
inline void eq3(Vec3 a, Vec3 b, const char* l) { vp_assert_eq(a.x, b.x, l); vp_assert_eq(a.y, b.y, l); vp_assert_eq(a.z, b.z, l); }
inline Vec3 color(const char* n) { std::string s(n); return Vec3(nonneg((s + ".r").c_str()), nonneg((s + ".g").c_str()), nonneg((s + ".b").c_str())); }
inline Json j3(Vec3 v) { Json j = Json::array(); j.push_back(v.x); j.push_back(v.y); j.push_back(v.z); return j; }
}
namespace hx {
// partial derivatives of a sampled point/direction w.r.t. the two uniform variables driving it
template <typename F> inline void partials(F f, double u0, double u1, Vec3& w, Vec3& d0, Vec3& d1) {
    w = f(u0, u1);
    if (vp_is_symbolic_run()) { for (int i = 0; i < 3; i++) { d0[i] = vp_diff(w[i], u0); d1[i] = vp_diff(w[i], u1); } return; }
    auto fd = [&](int k, double h) { double a0 = u0, b0 = u1, a1 = u0, b1 = u1; (k ? b0 : a0) += h; (k ? b1 : a1) -= h; return (f(a0, b0) - f(a1, b1)) / (2 * h); };
    double h = 1e-5; vp_assume(u0 > 1e-3 && u0 < 50 && u1 > 1e-3 && u1 < 50);
    for (int k = 0; k < 2; k++) { Vec3 a = fd(k, h), b = fd(k, h / 4), c = fd(k, h * 3); double s = glm::length(a) + glm::length(b);
        vp_assume(glm::length(a - b) < 1e-5 * (1 + s) && glm::length(a - c) < 1e-4 * (1 + s)); (k ? d1 : d0) = a; }
}
// density (w.r.t. area / solid angle) must be the reciprocal of |dw/du0 x dw/du1|:   p^2 |..|^2 == 1
template <typename F> inline void density(F f, double u0, double u1, double p, const char* label) {
    Vec3 w, a, b; partials(f, u0, u1, w, a, b); Vec3 c = glm::cross(a, b);
    vp_assert_near(p * p * glm::dot(c, c), 1, 5e-3, label);
}
}
namespace hx {
// Root of the object tree so that locators resolve; children are set by the harness.
struct Root final : public Component {
    std::vector<std::pair<std::string, Component*>> kids;
    Root() { comp::detail::Access::loc(this) = "$"; comp::detail::register_root_comp(this); }
    Component* underlying(const std::string& n) const override { for (auto& k : kids) if (k.first == n) return k.second; return nullptr; }
    void foreach_underlying(const ComponentVisitor& visit) override { for (auto& k : kids) visit(k.second, false); }
    void add(const char* n, Component* c) { kids.push_back({n, c}); }
};
using TD = Material::TransDir;
inline TD tdir() { return vp_choice("dir", 2) ? TD::LE : TD::EL; }
inline PointGeometry surf(Vec3 p, Vec3 n, Vec2 t = Vec2(0)) { return PointGeometry::make_on_surface(p, n, n, t); }
inline Material::DirectionSampleU dsu() { Material::DirectionSampleU us; us.ud = Vec2(u01o("u0"), u01o("u1")); us.udc = Vec2(u01("u2"), u01("u3")); return us; }
}

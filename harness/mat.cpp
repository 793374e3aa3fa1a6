// Materials: sampling / density / evaluation contract.
#include "common.h"
using namespace lm; using namespace hx;

// weight of a drawn direction is the BSDF value divided by its density
static void contract(const Material* m, const PointGeometry& g, Vec3 wi, int comp, TD td, const Material::DirectionSampleU& us, bool mayFail) {
    auto s = m->sample_direction(us, g, wi, comp, td);
    if (mayFail) { if (!s) return; } else vp_assert((bool)s, "always-samples");
    if (!s) return;
    auto f = m->eval(g, wi, s->wo, comp, td, false);
    auto p = m->pdf_direction(g, wi, s->wo, comp, false);
    vp_assert(p > 0, "pdf-positive-on-samples");
    eq3(s->weight * p, f, "weight-is-f-over-p");
}
VP_ENTRY(diffuse) {
    Vec3 Kd = color("Kd"); auto m = comp::create<Material>("material::diffuse", "", Json{{"Kd", j3(Kd)}});
    vp_assert((bool)m, "created");
    Vec3 n = unit("n"), wi = unit("wi"); auto g = surf(Vec3(0), n); vp_assume(glm::dot(wi, n) != 0); TD td = tdir();
    auto us = dsu(); contract(m.get(), g, wi, 0, td, us, false);
    auto s = m->sample_direction(us, g, wi, 0, td);
    eq(glm::dot(s->wo, s->wo), 1, "unit-direction");
    vp_assert(glm::dot(s->wo, n) * glm::dot(wi, n) > 0, "same-side");
    eq3(m->eval(g, wi, s->wo, 0, td, false), Kd / Pi, "lambertian-value"); eq3(m->reflectance(g), Kd, "reflectance");
    vp_assert(!m->is_specular_component(0), "not-specular");
}
VP_ENTRY(diffuse_any_wo) {
    Vec3 Kd = color("Kd"); auto m = comp::create<Material>("material::diffuse", "", Json{{"Kd", j3(Kd)}});
    Vec3 n = unit("n"), wi = unit("wi"), wo = unit("wo"); auto g = surf(Vec3(0), n); TD td = tdir(); bool ed = vp_choice("ed", 2);
    auto f = m->eval(g, wi, wo, 0, td, ed), f2 = m->eval(g, wo, wi, 0, td, ed); auto p = m->pdf_direction(g, wi, wo, 0, ed);
    eq3(f, f2, "reciprocity");
    if (glm::dot(wi, n) * glm::dot(wo, n) > 0) { eq3(f, Kd / Pi, "value-same-side"); eq(p, 1 / Pi, "pdf-same-side"); }
    else { eq3(f, Vec3(0), "zero-below"); eq(p, 0, "pdf-zero-below"); }
}
VP_ENTRY(diffuse_density) {
    auto m = comp::create<Material>("material::diffuse", "", Json{{"Kd", j3(Vec3(1))}});
    Vec3 n = unit("n"), wi = unit("wi"); auto g = surf(Vec3(0), n); vp_assume(glm::dot(wi, n) != 0);
    double u0 = u01o("u0"), u1 = u01o("u1");
    auto f = [&](double a, double b) { Material::DirectionSampleU us; us.ud = Vec2(a, b); us.udc = Vec2(0); auto s = m->sample_direction(us, g, wi, 0, TD::EL); vp_assume((bool)s); return s->wo; };
    Vec3 w = f(u0, u1); density(f, u0, u1, m->pdf_direction(g, wi, w, 0, false) * glm::dot(w, n), "density");
}
struct StubTex final : public Texture {
    Vec3 c; double a = 1; Vec2 last{-9}; mutable int n = 0; mutable Vec2 at;
    Vec3 eval(Vec2 t) const override { n++; at = t; return c * Vec3(1 + t.x * t.x, 1 + t.y * t.y, 1); }
    Vec3 eval_by_pixel_coords(int, int) const override { return c; }
    bool has_alpha() const override { return true; } Float eval_alpha(Vec2 t) const override { at = t; return a; } TextureSize size() const override { return {1, 1}; }
};
VP_ENTRY(diffuse_textured) {
    StubTex tex; tex.c = color("T"); Root root; root.add("tex", &tex); comp::detail::Access::loc(&tex) = "$.tex";
    auto m = comp::create<Material>("material::diffuse", "", Json{{"Kd", j3(Vec3(7))}, {"mapKd", "$.tex"}});
    Vec3 n(0, 0, 1), wi = unit("wi"); vp_assume(wi.z != 0); Vec2 t(vp_real("s"), vp_real("t")); auto g = surf(Vec3(0), n, t);
    auto us = dsu(); contract(m.get(), g, wi, 0, TD::EL, us, false);
    Vec3 exp = tex.c * Vec3(1 + t.x * t.x, 1 + t.y * t.y, 1);
    auto s = m->sample_direction(us, g, wi, 0, TD::EL);
    eq3(m->eval(g, wi, s->wo, 0, TD::EL, false) * Pi, exp, "texture-at-shading-point"); eq3(m->reflectance(g), exp, "reflectance-textured");
}
// ---- glossy (anisotropic GGX)
static Component::Ptr<Material> glossy(Vec3 Ks, double ax, double ay) { return comp::create<Material>("material::glossy", "", Json{{"Ks", j3(Ks)}, {"ax", ax}, {"ay", ay}}); }
// the radial uniform is parametrised as u = t^2/(1+t^2), t >= 0, which covers all of [0,1)
static Material::DirectionSampleU gsu(double t) { Material::DirectionSampleU us; us.ud = Vec2(u01("u0"), t * t / (1 + t * t)); us.udc = Vec2(0); return us; }
// incoming direction: normal incidence or one of several oblique rational directions, on either side
static Vec3 gwi(bool oblique) { double side = vp_choice("side", 2) ? -1 : 1; if (!oblique) return Vec3(0, 0, side); return vp_choice("w", 2) ? Vec3(0.6, 0, 0.8 * side) : Vec3(0.28, -0.576, 0.768 * side); }
static void glossy_contract(const Material* m, Vec3 wi, Material::DirectionSampleU us) {
    auto g = surf(Vec3(0), Vec3(0, 0, 1)); auto s = m->sample_direction(us, g, wi, 0, TD::EL); if (!s) return;
    eq(glm::dot(s->wo, s->wo), 1, "unit-direction"); vp_assert(s->wo.z * wi.z > 0, "same-side");
    auto f = m->eval(g, wi, s->wo, 0, TD::EL, false); auto p = m->pdf_direction(g, wi, s->wo, 0, false);
    eq3(s->weight * p, f, "weight-is-f-over-p");
}
VP_ENTRY(glossy) { double K = vp_real_in("Ks", 0, 1); auto m = glossy(Vec3(K), 0.5, 0.25); Vec3 wi = gwi(false); glossy_contract(m.get(), wi, gsu(vp_choice("t", 2) ? 0.5 : 2)); }
VP_ENTRY(glossy_anisotropic) { double K = vp_real_in("Ks", 0, 1); auto m = glossy(Vec3(K), 0.5, 0.25); Vec3 wi = gwi(false); glossy_contract(m.get(), wi, gsu(nonneg("t"))); }
VP_ENTRY(glossy_rough) { double K = vp_real_in("Ks", 0, 1); double a = vp_real_in("ax", 0.01, 2); auto m = glossy(Vec3(K), a, a); Vec3 wi = gwi(false); glossy_contract(m.get(), wi, gsu(nonneg("t"))); }
VP_ENTRY(glossy_oblique) { double K = vp_real_in("Ks", 0, 1); auto m = glossy(Vec3(K), 0.5, 0.25); Vec3 wi = gwi(true); Material::DirectionSampleU us; double t = nonneg("t"); us.ud = Vec2(vp_choice("azimuth", 4) * 0.25, t * t / (1 + t * t)); us.udc = Vec2(0); glossy_contract(m.get(), wi, us); }
static void glossy_dens(const Material* m, Vec3 wi) {
    Vec3 n(0, 0, 1); auto g = surf(Vec3(0), n);
    double u0 = u01o("u0"), t = pos("t");
    auto f = [&](double a, double b) { Material::DirectionSampleU us; us.ud = Vec2(a, b * b / (1 + b * b)); us.udc = Vec2(0); auto s = m->sample_direction(us, g, wi, 0, TD::EL); vp_assume((bool)s); return s->wo; };
    Vec3 w, a, b; partials(f, u0, t, w, a, b); Vec3 c = glm::cross(a, b); double p = m->pdf_direction(g, wi, w, 0, false) * glm::dot(w, n), du = 2 * t / ((1 + t * t) * (1 + t * t));
    vp_assert_near(p * p * glm::dot(c, c), du * du, 5e-3, "density");
}
VP_ENTRY(glossy_density) { auto m = glossy(Vec3(1), 0.5, 0.25); glossy_dens(m.get(), gwi(false)); }
VP_ENTRY(glossy_density_any_roughness) { double a = vp_real_in("ax", 0.01, 2); auto m = glossy(Vec3(1), a, a); glossy_dens(m.get(), gwi(false)); }
VP_ENTRY(glossy_density_oblique) { auto m = glossy(Vec3(1), 0.5, 0.25); glossy_dens(m.get(), gwi(true)); }
VP_ENTRY(glossy_any_wo) {
    double K = vp_real_in("Ks", 0, 1); auto m = glossy(Vec3(K), 0.5, 0.25);
    Vec3 n(0, 0, 1), wi = unit("wi"), wo = unit("wo"); auto g = surf(Vec3(0), n);
    if (wi.z * wo.z <= 0) { eq3(m->eval(g, wi, wo, 0, TD::EL, false), Vec3(0), "zero-below"); eq(m->pdf_direction(g, wi, wo, 0, false), 0, "pdf-zero-below"); }
    eq3(m->reflectance(g), Vec3(K), "reflectance"); vp_assert(!m->is_specular_component(0), "not-specular");
}
VP_ENTRY(glossy_reciprocal) {
    double K = vp_real_in("Ks", 0, 1); auto m = glossy(Vec3(K), 0.5, 0.25); Vec3 n(0, 0, 1), wi = unit("wi"), wo = unit("wo"); auto g = surf(Vec3(0), n); vp_assume(wi.z > 0 && wo.z > 0);
    auto f = m->eval(g, wi, wo, 0, TD::EL, false), f2 = m->eval(g, wo, wi, 0, TD::EL, false); eq3(f, f2, "reciprocity");
}

// ---- proxy / mask / mirror
VP_ENTRY(specular_reflection) {
    Vec3 n = unit("n"), wi = unit("wi"); auto g = surf(Vec3(0), n); TD td = tdir();
    int k = vp_choice("mat", 2); auto m = comp::create<Material>(k ? "material::mirror" : "material::mask", "", Json::object());
    auto c = m->sample_component({Vec2(u01("uc"), 0)}, g, wi); eq(c.weight * m->pdf_component(c.comp, g, wi), 1, "component-weight");
    auto s = m->sample_direction(dsu(), g, wi, c.comp, td); vp_assert((bool)s, "always-samples"); if (!s) return;
    if (k) { eq(glm::dot(s->wo, s->wo), 1, "unit-direction"); eq(glm::dot(s->wo, n), glm::dot(wi, n), "angle-of-reflection"); eq3(s->wo + wi, n * (2 * glm::dot(wi, n)), "reflection-plane"); }
    else eq3(s->wo, -wi, "pass-through");
    auto f = m->eval(g, wi, s->wo, c.comp, td, false); double p = m->pdf_direction(g, wi, s->wo, c.comp, false);
    eq3(s->weight * p, f, "weight-is-f-over-p"); eq3(s->weight * c.weight, Vec3(1), "lossless");
    eq3(m->eval(g, wi, s->wo, c.comp, td, true), Vec3(0), "delta-not-evaluable"); eq(m->pdf_direction(g, wi, s->wo, c.comp, true), 0, "delta-no-density");
    vp_assert(m->is_specular_component(c.comp), "is-specular");
}
// ---- glass
static Component::Ptr<Material> glass(double ni) { return comp::create<Material>("material::glass", "", Json{{"Ni", ni}}); }
VP_ENTRY(glass_components) {
    double ni = vp_real_in("Ni", 1, 4); vp_assume(ni > 1); auto m = glass(ni); Vec3 n(0, 0, 1), wi = unit("wi"); vp_assume(wi.z != 0); auto g = surf(Vec3(0), n); TD td = tdir();
    double p0 = m->pdf_component(0, g, wi), p1 = m->pdf_component(1, g, wi); eq(p0 + p1, 1, "component-probabilities-sum-to-one"); vp_assert(p0 >= 0 && p0 <= 1, "fresnel-in-unit-interval");
    double u = u01("uc"); auto c = m->sample_component({Vec2(u, 0)}, g, wi); vp_assert(c.comp == (u < p0 ? 0 : 1), "component-frequency"); eq(c.weight * m->pdf_component(c.comp, g, wi), 1, "component-weight");
    auto s = m->sample_direction(dsu(), g, wi, c.comp, td); vp_assert((bool)s, "always-samples"); if (!s) return;
    auto f = m->eval(g, wi, s->wo, c.comp, td, false); double p = m->pdf_direction(g, wi, s->wo, c.comp, false); eq3(s->weight * p, f, "weight-is-f-over-p");
    double eta = wi.z > 0 ? 1 / ni : ni;
    if (c.comp == 0) { eq3(s->wo, Vec3(-wi.x, -wi.y, wi.z), "reflected-direction"); eq3(s->weight * c.weight, Vec3(1), "reflection-lossless"); }
    else { eq(s->wo.x, -eta * wi.x, "snell"); eq(s->wo.y, -eta * wi.y, "snell"); vp_assert(s->wo.z * wi.z < 0, "crosses-interface"); eq(glm::dot(s->wo, s->wo), 1, "unit-direction");
        eq3(s->weight * c.weight, Vec3(td == TD::EL ? eta * eta : 1), "radiance-scaling"); }
    eq3(m->eval(g, wi, s->wo, c.comp, td, true), Vec3(0), "delta-not-evaluable"); eq(m->pdf_direction(g, wi, s->wo, c.comp, true), 0, "delta-no-density"); vp_assert(m->is_specular_component(c.comp), "is-specular");
}
VP_ENTRY(glass_reversible) { // light sent back along the refracted direction leaves along the incident one, with the same Fresnel factor
    double ni = vp_real_in("Ni", 1, 4); vp_assume(ni > 1); auto m = glass(ni); Vec3 n(0, 0, 1); double x = vp_real_in("x", 0, 1), z = vp_real_in("z", 0, 1); vp_assume(z > 0); vp_sqrule(z, 1 - x * x); Vec3 wi(x, 0, z); auto g = surf(Vec3(0), n);
    auto s = m->sample_direction(dsu(), g, wi, 1, TD::LE); vp_assert((bool)s, "always-samples"); if (!s) return;
    auto b = m->sample_direction(dsu(), g, s->wo, 1, TD::LE); vp_assert((bool)b, "always-samples-back"); if (!b) return;
    eq3(b->wo, wi, "reversible"); eq(m->pdf_component(0, g, s->wo), m->pdf_component(0, g, wi), "fresnel-symmetric");
    double r0 = (1 - ni) / (1 + ni) * ((1 - ni) / (1 + ni)); eq(m->pdf_component(0, g, wi), r0 + (1 - r0) * (1 - z) * (1 - z) * (1 - z) * (1 - z) * (1 - z), "schlick");
}
VP_ENTRY(glass_total_reflection) { // beyond the critical angle everything is reflected
    double ni = vp_real_in("Ni", 1, 4); vp_assume(ni > 1); auto m = glass(ni); Vec3 n(0, 0, 1); Vec3 wi = unit("wi"); vp_assume(wi.z < 0); vp_assume(ni * ni * (1 - wi.z * wi.z) > 1); auto g = surf(Vec3(0), n);
    eq(m->pdf_component(0, g, wi), 1, "all-reflected"); auto c = m->sample_component({Vec2(u01("uc"), 0)}, g, wi); vp_assert(c.comp == 0, "reflection-selected");
}
// ---- mixtures over stub materials with arbitrary values and densities
struct StubMat final : public Material {
    Vec3 f[2]; double p[2]; bool spec = false; Vec3 refl; int id = 0;
    ComponentSample sample_component(const ComponentSampleU&, const PointGeometry&, Vec3) const override { return {0, 1}; }
    Float pdf_component(int, const PointGeometry&, Vec3) const override { return 1; }
    static Vec3 dir(int i) { return i ? Vec3(0, 1, 0) : Vec3(1, 0, 0); }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&, Vec3, int, TransDir) const override { return DirectionSample{dir(id), f[id] / p[id]}; }
    Float pdf_direction(const PointGeometry&, Vec3, Vec3 wo, int, bool d) const override { return spec && d ? 0 : p[wo.y == 1 ? 1 : 0]; }
    Vec3 eval(const PointGeometry&, Vec3, Vec3 wo, int, TransDir, bool d) const override { return spec && d ? Vec3(0) : f[wo.y == 1 ? 1 : 0]; }
    bool is_specular_component(int) const override { return spec; }
    Vec3 reflectance(const PointGeometry&) const override { return refl; }
};
static void stubs(StubMat* s, bool sp0, bool sp1) { for (int i = 0; i < 2; i++) { s[i].id = i; s[i].spec = i ? sp1 : sp0; s[i].refl = Vec3(nonneg("refl")); for (int k = 0; k < 2; k++) { s[i].f[k] = Vec3(nonneg("f"), nonneg("g"), 1); s[i].p[k] = pos("p"); } } }
static Json mixJson(double w0, double w1) { Json a = Json::array(); a.push_back({{"material", "$.m0"}, {"weight", w0}}); a.push_back({{"material", "$.m1"}, {"weight", w1}}); return a; }
VP_ENTRY(mixture_rr) {
    bool sp = vp_choice("spec", 2); StubMat s[2]; stubs(s, false, sp); Root root; root.add("m0", &s[0]); root.add("m1", &s[1]); double w[2] = {pos("w0"), pos("w1")};
    auto m = comp::create<Material>("material::constant_weight_mixture_rr", "", mixJson(w[0], w[1])); auto g = surf(Vec3(0), Vec3(0, 0, 1)); Vec3 wi(0, 0, 1); TD td = tdir();
    double u = u01("uc"); auto c = m->sample_component({Vec2(u, 0)}, g, wi); vp_assert(c.comp == (u < w[0] / (w[0] + w[1]) ? 0 : 1), "component-frequency");
    eq(c.weight * m->pdf_component(c.comp, g, wi), 1, "component-weight"); eq(m->pdf_component(c.comp, g, wi), w[c.comp] / (w[0] + w[1]), "component-probability");
    auto d = m->sample_direction(dsu(), g, wi, c.comp, td); vp_assert((bool)d, "samples"); if (!d) return; eq3(d->wo, StubMat::dir(c.comp), "delegates-to-component");
    double p = m->pdf_direction(g, wi, d->wo, c.comp, false); Vec3 f = m->eval(g, wi, d->wo, c.comp, td, false); eq3(d->weight * p, f, "weight-is-f-over-p"); eq3(f, w[c.comp] * s[c.comp].f[c.comp], "weighted-value"); eq(p, s[c.comp].p[c.comp], "component-density");
    vp_assert(m->is_specular_component(c.comp) == s[c.comp].spec, "specular-flag"); eq3(m->reflectance(g), w[0] * s[0].refl + w[1] * s[1].refl, "reflectance");
}
VP_ENTRY(mixture_marginalized) {
    bool sp = vp_choice("spec", 2); StubMat s[2]; stubs(s, false, sp); Root root; root.add("m0", &s[0]); root.add("m1", &s[1]); double w[2] = {pos("w0"), pos("w1")};
    auto m = comp::create<Material>("material::constant_weight_mixture_marginalized", "", mixJson(w[0], w[1])); auto g = surf(Vec3(0), Vec3(0, 0, 1)); Vec3 wi(0, 0, 1); TD td = tdir();
    double u = u01("uc"), q = w[0] / (w[0] + w[1]); auto c = m->sample_component({Vec2(u, 0)}, g, wi); eq(c.weight * m->pdf_component(c.comp, g, wi), 1, "component-weight");
    auto us = dsu(); auto d = m->sample_direction(us, g, wi, c.comp, td); vp_assert((bool)d, "samples"); if (!d) return; int k = d->wo.y == 1;
    double p = m->pdf_direction(g, wi, d->wo, c.comp, false); Vec3 f = m->eval(g, wi, d->wo, c.comp, td, false); eq3(d->weight * p, f, "weight-is-f-over-p");
    if (sp) { vp_assert(c.comp == (u < q ? 0 : 1) && k == c.comp, "component-frequency"); eq3(f, w[k] * s[k].f[k], "weighted-value"); eq(p, s[k].p[k], "component-density"); vp_assert(m->is_specular_component(c.comp) == s[k].spec, "specular-flag"); }
    else { vp_assert(c.comp == 0, "component-frequency"); vp_assert(k == (us.udc[0] < q ? 0 : 1), "marginal-frequency"); eq3(f, w[0] * s[0].f[k] + w[1] * s[1].f[k], "weighted-value"); eq(p, q * s[0].p[k] + (1 - q) * s[1].p[k], "marginal-density"); vp_assert(!m->is_specular_component(0), "specular-flag"); }
    eq3(m->reflectance(g), w[0] * s[0].refl + w[1] * s[1].refl, "reflectance");
}
VP_ENTRY(proxy) {
    StubMat s; s.id = 1; s.spec = vp_choice("spec", 2); s.refl = color("R"); for (int k = 0; k < 2; k++) { s.f[k] = color("f"); s.p[k] = pos("p"); } Root root; root.add("m0", &s);
    auto m = comp::create<Material>("material::proxy", "", Json{{"ref", "$.m0"}}); auto g = surf(Vec3(0), Vec3(0, 0, 1)); Vec3 wi(0, 0, 1); TD td = tdir(); bool ed = vp_choice("ed", 2);
    auto c = m->sample_component({Vec2(u01("uc"), 0)}, g, wi); vp_assert(c.comp == 0, "component"); eq(c.weight, 1, "component-weight"); eq(m->pdf_component(0, g, wi), 1, "component-probability");
    auto d = m->sample_direction(dsu(), g, wi, 0, td); vp_assert((bool)d, "samples"); if (!d) return; eq3(d->wo, StubMat::dir(1), "same-direction"); eq3(d->weight, s.f[1] / s.p[1], "same-weight");
    eq(m->pdf_direction(g, wi, d->wo, 0, ed), s.pdf_direction(g, wi, d->wo, 0, ed), "same-density"); eq3(m->eval(g, wi, d->wo, 0, td, ed), s.eval(g, wi, d->wo, 0, td, ed), "same-value"); eq3(m->reflectance(g), s.refl, "reflectance"); vp_assert(m->is_specular_component(0) == s.spec, "specular-flag");
}
// ---- mixture used by OBJ models: diffuse + glossy under an alpha mask
VP_ENTRY(objmix_components) {
    StubTex tex; tex.c = color("T"); tex.a = vp_real_in("alpha", 0, 1); Root root; root.add("tex", &tex); bool nomask = vp_choice("nomask", 2);
    auto m = comp::create<Material>("material::mixture_wavefrontobj", "$.mat", Json{{"Kd", j3(Vec3(1))}, {"mapKd", "$.tex"}, {"Ks", j3(Vec3(0.5))}, {"ax", 0.5}, {"ay", 0.5}, {"no_alpha_mask", nomask}}); vp_assert((bool)m, "created");
    Vec3 n(0, 0, 1), wi(0, 0, 1); auto g = surf(Vec3(0), n, Vec2(0.25, 0.5)); double a = nomask ? 1 : tex.a; TD td = tdir();
    double u = u01("uc"); auto c = m->sample_component({Vec2(u, 0)}, g, wi); vp_assert(c.comp == (u < a ? 0 : 1), "component-frequency"); eq(m->pdf_component(0, g, wi), a, "alpha-is-probability"); eq(m->pdf_component(1, g, wi), 1 - a, "alpha-is-probability"); eq(c.weight * m->pdf_component(c.comp, g, wi), 1, "component-weight");
    vp_assert(m->is_specular_component(c.comp) == (c.comp == 1), "specular-flag");
    if (c.comp == 1) { auto s = m->sample_direction(dsu(), g, wi, 1, td); vp_assert((bool)s, "samples"); if (!s) return; eq3(s->wo, -wi, "pass-through"); Vec3 f = m->eval(g, wi, s->wo, 1, td, false); double p = m->pdf_direction(g, wi, s->wo, 1, false);
        eq3(s->weight * p, f, "weight-is-f-over-p"); eq3(s->weight * c.weight, Vec3(1), "pass-through-lossless"); eq3(m->eval(g, wi, s->wo, 1, td, true), Vec3(0), "delta-not-evaluable"); eq(m->pdf_direction(g, wi, s->wo, 1, true), 0, "delta-no-density"); }
}
VP_ENTRY(objmix_surface) {
    StubTex tex; tex.c = Vec3(pos("T")); tex.a = vp_real_in("alpha", 0, 1); Root root; root.add("tex", &tex); double Ks = vp_real_in("Ks", 0, 1);
    auto m = comp::create<Material>("material::mixture_wavefrontobj", "$.mat", Json{{"Kd", j3(Vec3(1))}, {"mapKd", "$.tex"}, {"Ks", j3(Vec3(Ks))}, {"ax", 0.5}, {"ay", 0.5}, {"no_alpha_mask", false}});
    auto gl = glossy(Vec3(Ks), 0.5, 0.5); Vec3 n(0, 0, 1), wi(0, 0, 1); auto g = surf(Vec3(0), n, Vec2(0)); TD td = tdir();
    double t = vp_choice("t", 2) ? 0.5 : 2; double u0 = vp_choice("azimuth", 2) * 0.25; Material::DirectionSampleU us; us.ud = Vec2(u0, t * t / (1 + t * t)); us.udc = Vec2(u01("sel"), 0);
    auto s = m->sample_direction(us, g, wi, 0, td); if (!s) return; Vec3 f = m->eval(g, wi, s->wo, 0, td, false); double p = m->pdf_direction(g, wi, s->wo, 0, false);
    eq3(s->weight * p, f, "weight-is-f-over-p"); double wd = tex.c.x / (tex.c.x + Ks);
    eq3(f, tex.a * (tex.c / Pi + gl->eval(g, wi, s->wo, 0, td, false)), "value-is-sum"); eq(p, wd / Pi + (1 - wd) * gl->pdf_direction(g, wi, s->wo, 0, false), "density-is-mixture");
}

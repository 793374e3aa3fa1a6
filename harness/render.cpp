#include <fstream>
// The renderers, executed as they are on the real scene and path layer over scripted lights, cameras, materials and media.
#include "common.h"
#include <lm/serial.h>
#include <sstream>
#include <lm/path.h>
#include <lm/film.h>
#include <lm/scheduler.h>
#include <lm/renderer.h>
using namespace lm; using namespace hx;
static bool is(Vec3 a, Vec3 b) { return vp_close(a.x, b.x) && vp_close(a.y, b.y) && vp_close(a.z, b.z); }
constexpr int K = 9;          // vertices of a walk: 0 is the endpoint it starts from
static int draws() { int n = 0; while (vp_rng(n) >= 0) n++; return n; }
static std::string idx(const char* n, int i) { return n + std::to_string(i); }
namespace std { namespace chrono { inline namespace _V2 { static long tick; system_clock::time_point system_clock::now() noexcept { return time_point(duration(tick += 1000)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(tick += 1000)); } } } }
struct World;
static World* W;
// ---- a film that records what it is given
struct VFilm final : public Film { struct S { Vec2 rp; Vec3 c; }; std::vector<S> s, px; std::vector<double> scale; int clears = 0, w = 3, h = 2; bool afterClear = true;
    FilmSize size() const override { return {w, h}; } long long num_pixels() const override { return w * h; } bool save(const std::string&) const override { return false; } FilmBuffer buffer() override { return {}; } void accum(const Film*) override {}
    void set_pixel(int x, int y, Vec3 v) override { px.push_back({Vec2(x, y), v}); } void splat_pixel(int x, int y, Vec3 v) override { s.push_back({Vec2((x + 0.5) / w, (y + 0.5) / h), v}); } void update_pixel(int, int, const PixelUpdateFunc&) override { vp_assert(false, "unexpected-film-call"); }
    void rescale(Float k) override { scale.push_back(k); } void clear() override { clears++; s.clear(); px.clear(); scale.clear(); } void splat(Vec2 rp, Vec3 v) override { s.push_back({rp, v}); }
    Vec3 at(Vec2 rp) const { Vec3 c(0); for (auto& e : s) if (e.rp.x == rp.x && e.rp.y == rp.y) c += e.c; return c; } double total() const { double k = 1; for (double x : scale) k *= x; return k; } };
struct VSched : public scheduler::Scheduler { static int kind; static long long pixel, processed; int my; long long run(const ProcessFunc& f) const override { kind = my; f(pixel, 0, 0); return processed; } };
int VSched::kind = -1; long long VSched::pixel = 0, VSched::processed = 1;
struct VSpp final : public VSched { VSpp() { my = 0; } }; struct VSpi final : public VSched { VSpi() { my = 1; } }; struct VSppAll final : public VSched { VSppAll() { my = 0; } };
namespace lm { LM_COMP_REG_IMPL(VSpp, "scheduler::spp::vp"); LM_COMP_REG_IMPL(VSpi, "scheduler::spi::vp"); LM_COMP_REG_IMPL(VSppAll, "scheduler::spp::sample"); }
// ---- the scripted walk. Vertex k lies at (k,0,0); the walk leaves it along D(k); light or camera samples lie at (k,1000+id,0) and are seen along N(k)
static Vec3 P(int k) { return Vec3(k, 0, 0); }
static Vec3 D(int k) { static const Vec3 d[4] = {Vec3(0, 0, -1), Vec3(0.6, 0, 0.8), Vec3(0, -0.6, 0.8), Vec3(0, 0.28, -0.96)}; Vec3 v = d[k & 3]; return (k & 4) ? -v : v; }
static Vec3 N(int k) { static const Vec3 d[4] = {Vec3(0.28, 0, -0.96), Vec3(0, 0.8, -0.6), Vec3(-0.8, 0, -0.6), Vec3(0.28, 0, 0.96)}; Vec3 v = d[k & 3]; return (k & 4) ? -v : v; }   // direction from vertex k towards its explicitly sampled endpoint
static int vid(Vec3 p, const char* l) { int k = 0; while (k < K && !(p.y == 0 && p.z == 0 && p.x == k)) k++; vp_assert(k < K, l); if (k == K) vp_end(); return k; }
struct Vtx { int kind = 0; bool vis = true, light = false, spec = false, nosample = false, norp = false; Vec3 w, fn, E, Le, Tr, dw; double pb, pn, pd, ph, pc; int comp = 0, lightId = 0; };
// kind: 0 nothing beyond, 1 surface, 2 medium point, 3 environment
struct World { Root root; Vtx v[K]; VFilm film; Component::Ptr<Scene> s; int nCam = -1, nMesh = -1, nMed = -1, nEnv = -1, nArea = -1, nPoint = -1; int nLights = 0; bool fromLight = false; mutable Vec2 ud; mutable int camSamples = 0; mutable int hitDraws[K + 1] = {}; Vec3 We; double pcam, pcamdir;
    void add(const char* n, Component* c) { root.add(n, c); comp::detail::Access::loc(c) = std::string("$.") + n; } };
// wi seen at vertex k of the walk
static void came(int k, Vec3 wi) { if (k > 0) vp_assert(is(wi, -D(k - 1)), "incident-direction"); }
struct WLight final : public Light { int id = 0; bool env = false, degen = false, spec = false; 
    PointGeometry at(int k) const { if (env) return PointGeometry::make_infinite(-N(k)); Vec3 p(k, 1000 + id, 0); return degen ? PointGeometry::make_degenerated(p) : surf(p, Vec3(0, 0, 1)); }
    std::optional<RaySample> sample_ray(const RaySampleU&, const Transform&) const override { vp_assert(W->fromLight, "emission-sampled-by-light-tracing-only"); return RaySample{surf(P(0), Vec3(0, 0, 1)), D(0), W->v[0].w}; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&) const override { vp_assert(false, "unexpected-light-call"); return {}; } Float pdf_direction(const PointGeometry&, Vec3) const override { vp_assert(false, "unexpected-light-call"); return 1; }
    std::optional<PositionSample> sample_position(const PositionSampleU&, const Transform&) const override { vp_assert(false, "unexpected-light-call"); return {}; } Float pdf_position(const PointGeometry&, const Transform&) const override { vp_assert(false, "unexpected-light-call"); return 1; } Float pdf_ray(const PointGeometry&, Vec3, const Transform&, bool) const override { vp_assert(false, "unexpected-light-call"); return 1; }
    std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry& g, const Transform&) const override { int k = vid(g.p, "sampled-from-the-current-vertex"); W->v[k].lightId = id; if (W->v[k].nosample) return {}; return RaySample{at(k), -N(k), W->v[k].E}; }
    Float pdf_direct(const PointGeometry& g, const PointGeometry& l, const Transform&, Vec3 wo, bool d) const override { int k = vid(g.p, "density-from-the-current-vertex"); if (is(wo, -N(k))) return W->v[k].pd; vp_assert(is(wo, -D(k)), "density-of-the-actual-direction"); if (!l.infinite) vp_assert(is(l.p, P(k + 1)), "density-of-the-actual-light-point"); (void)d; return W->v[k].ph; }
    bool is_specular() const override { return spec; } bool is_infinite() const override { return env; } bool is_env() const override { return env; } bool is_connectable(const PointGeometry&) const override { return !env; }
    Vec3 eval(const PointGeometry& g, Vec3 wo, bool) const override { int k = 0; if (g.infinite) { while (k < K - 1 && !is(wo, -D(k))) k++; k++; vp_assert(k < K && is(g.wo, wo), "environment-in-the-direction-of-the-walk"); } else k = vid(g.p, "emission-of-the-hit-point"); came(k, wo); return W->v[k].Le; } void set_scene_bound(const Bound&) override {} };
struct WCam final : public Camera { void set_aspect_ratio(Float) override {} Mat4 view_matrix() const override { return Mat4(1); } Mat4 projection_matrix() const override { return Mat4(1); } Ray primary_ray(Vec2 rp) const override { W->ud = rp; return {P(0), D(0)}; }
    std::optional<RaySample> sample_ray(const RaySampleU&) const override { vp_assert(false, "unexpected-camera-call"); return {}; } Float pdf_ray(const PointGeometry&, Vec3) const override { return 1; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU& u, const PointGeometry& g) const override { vid(g.p, "camera-point"); W->ud = u.ud; W->camSamples++; return DirectionSample{D(0), W->v[0].w}; } Float pdf_direction(const PointGeometry&, Vec3 w) const override { if (is(w, N(0))) return W->v[0].pn; vp_assert(is(w, D(0)), "camera-direction"); return W->v[0].pb; }
    std::optional<PositionSample> sample_position(const PositionSampleU&) const override { return PositionSample{PointGeometry::make_degenerated(P(0)), Vec3(1 / W->pcam)}; } Float pdf_position(const PointGeometry&) const override { return W->pcam; }
    std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry& g) const override { int k = vid(g.p, "sampled-from-the-current-vertex"); if (W->v[k].nosample) return {}; return RaySample{PointGeometry::make_degenerated(Vec3(k, 1000, 0)), -N(k), W->v[k].E}; } Float pdf_direct(const PointGeometry&, const PointGeometry&, Vec3) const override { return 1; }
    std::optional<Vec2> raster_position(Vec3 w) const override { if (is(w, D(0))) return Vec2(0.125, 0.25); if (is(w, N(0)) && !W->fromLight) return W->v[0].norp ? std::optional<Vec2>() : Vec2(0.5, 0.75); for (int k = 0; k < K; k++) if (is(w, -N(k))) return W->v[k].norp ? std::optional<Vec2>() : Vec2(0.01 * k, 0.5); vp_assert(false, "raster-position-of-the-primary-direction"); return {}; }
    bool is_connectable(const PointGeometry&) const override { return true; } Vec3 eval(Vec3 w) const override { if (is(w, N(0))) return W->v[0].fn; vp_assert(is(w, D(0)), "camera-direction"); return W->We; } };
struct WMat final : public Material { static TransDir dir() { return W->fromLight ? TransDir::LE : TransDir::EL; }
    ComponentSample sample_component(const ComponentSampleU&, const PointGeometry& g, Vec3 wi) const override { int k = vid(g.p, "component-of-the-hit-vertex"); came(k, wi); return {W->v[k].comp, 1 / W->v[k].pc}; } Float pdf_component(int, const PointGeometry& g, Vec3) const override { return W->v[vid(g.p, "component-of-the-hit-vertex")].pc; }
    void c(int k, int comp) const { vp_assert(comp == W->v[k].comp, "sampled-component-used"); }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry& g, Vec3 wi, int comp, TransDir t) const override { int k = vid(g.p, "direction-at-the-current-vertex"); came(k, wi); c(k, comp); vp_assert(t == dir(), "transport-direction"); if (W->v[k].kind == 9) return {}; return DirectionSample{D(k), W->v[k].w}; }
    Float pdf_direction(const PointGeometry& g, Vec3 wi, Vec3 wo, int comp, bool) const override { int k = vid(g.p, "density-at-the-current-vertex"); came(k, wi); c(k, comp); if (is(wo, N(k))) return W->v[k].pn; vp_assert(is(wo, D(k)), "density-of-the-actual-direction"); return W->v[k].pb; }
    Vec3 eval(const PointGeometry& g, Vec3 wi, Vec3 wo, int comp, TransDir t, bool delta) const override { int k = vid(g.p, "value-at-the-current-vertex"); came(k, wi); c(k, comp); vp_assert(t == dir(), "transport-direction"); vp_assert(is(wo, N(k)), "value-in-the-connecting-direction"); vp_assert(delta, "delta-distributions-excluded-from-connections"); return W->v[k].spec ? Vec3(0) : W->v[k].fn; }
    bool is_specular_component(int comp) const override { for (int k = 1; k < K; k++) if (W->v[k].comp == comp) return W->v[k].spec; return false; } Vec3 reflectance(const PointGeometry& g) const override { return W->v[vid(g.p, "reflectance-of-the-hit-point")].fn; } };
struct WPhase final : public Phase { std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry& g, Vec3 wi) const override { int k = vid(g.p, "direction-at-the-current-vertex"); came(k, wi); return DirectionSample{D(k), W->v[k].w}; } Float pdf_direction(const PointGeometry&, Vec3, Vec3) const override { return 1; } Vec3 eval(const PointGeometry& g, Vec3 wi, Vec3 wo) const override { int k = vid(g.p, "value-at-the-current-vertex"); came(k, wi); vp_assert(is(wo, N(k)), "value-in-the-connecting-direction"); return W->v[k].fn; } };
// the point a shadow ray belongs to
static int shadow(Vec3 o, Vec3 d, double t) { Vec3 e = o.y < 500 ? o : o + d * t; int k = int(std::floor(e.x + 0.5)); return k; }
struct WMedium final : public Medium { WPhase ph; std::optional<DistanceSample> sample_distance(Rng&, Ray r, Float, Float) const override { int k = vid(r.o, "distance-from-the-current-vertex"); vp_assert(is(r.d, D(k)), "distance-along-the-sampled-direction"); if (W->v[k].kind == 8) return {}; return DistanceSample{P(k + 1), W->v[k].dw, W->v[k + 1].kind == 2}; }
    Vec3 eval_transmittance(Rng&, Ray r, Float, Float t) const override { return W->v[shadow(r.o, r.d, t)].Tr; } bool is_emitter() const override { return false; } const Phase* phase() const override { return &ph; } };
struct WMesh final : public Mesh { Tri tri{}; void foreach_triangle(const ProcessTriangleFunc& f) const override { f(0, tri); } Tri triangle_at(int) const override { return tri; } int num_triangles() const override { return 1; } InterpolatedPoint surface_point(int f, Vec2) const override { return {P(f), Vec3(0, 0, 1), Vec3(0, 0, 1), Vec2(0)}; } };
struct WAccel final : public Accel { void build(const Scene&) override {} std::optional<Hit> intersect(Ray r, Float, Float b) const override { Transform I{Mat4(1)}; if (b < Inf) { int k = shadow(r.o, r.d, b); if (W->v[k].vis) return {}; return Hit{1, Vec2(0), I, W->nMesh, 1}; }
    int k = vid(r.o, "ray-from-the-current-vertex"); vp_assert(is(r.d, D(k)), "ray-along-the-sampled-direction"); W->hitDraws[k + 1] = draws(); int kind = W->v[k + 1].kind; if (kind != 1 && kind != 9 && kind != 8) return {}; return Hit{1, Vec2(0), I, W->v[k + 1].light ? W->nArea : W->nMesh, k + 1}; } };
// the renderer as read back from an archive, if a test asks for it
extern "C" int getpid(); extern "C" int unlink(const char*);
struct File { std::string p; File() { if (vp_is_symbolic_run()) p = "f"; else p = "/tmp/vp-render-" + std::to_string(getpid()); } ~File() { if (!vp_is_symbolic_run()) unlink(p.c_str()); } };
static bool reloadOn = false; struct Reload { Reload() { reloadOn = true; } ~Reload() { reloadOn = false; } };
static Component::Ptr<Renderer> reloaded(Root& root, Component::Ptr<Renderer> r) { if (!reloadOn || !r) return r; root.add("renderer", r.get()); File file; { std::ofstream st(file.p, std::ios::out | std::ios::binary); OutputArchive ar(st, std::string("$")); cereal::save_owned(ar, r.get()); } Component::Ptr<Renderer> q; std::ifstream st(file.p, std::ios::in | std::ios::binary); serial::load_comp(st, q, "$"); vp_assert((bool)q, "loaded"); return q; }
struct Sc : World { WLight area, point, env; WCam cam; WMat mat; WMedium med; WMesh mesh; WAccel acc;
    Sc() { W = this; VSched::kind = -1; area.id = 0; point.id = 1; point.degen = true; env.id = 2; env.env = true; add("area", &area); add("point", &point); add("env", &env); add("cam", &cam); add("mat", &mat); add("med", &med); add("mesh", &mesh); add("acc", &acc); add("film", &film); s = comp::create<Scene>("scene::default", "$.scene", Json{{"accel", "$.acc"}}); vp_assert((bool)s, "created"); root.add("scene", s.get()); }
    int prim(const char* kind, std::string loc) { Json j = Json::object(); j[kind] = loc; int n = s->create_primitive_node(j); s->add_child(0, n); return n; }
    void build(bool haveArea, bool havePoint, bool haveEnv, bool medium) { nCam = prim("camera", "$.cam"); nMesh = s->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}); s->add_child(0, nMesh); if (haveArea) { nArea = s->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}, {"light", "$.area"}}); s->add_child(0, nArea); nLights++; } if (havePoint) { nPoint = prim("light", "$.point"); nLights++; } if (haveEnv) { nEnv = prim("light", "$.env"); nLights++; } if (medium) nMed = prim("medium", "$.med"); s->build(); }
    void values(int n) { We = Vec3(1); pcam = 1; for (int k = 0; k < n; k++) { auto& x = v[k]; auto c = [&](const char* m) { std::string q = idx(m, k); return Vec3(pos((q + "r").c_str()), pos((q + "g").c_str()), pos((q + "b").c_str())); }; auto p = [&](const char* m) { return pos(idx(m, k).c_str()); }; x.w = c("weight"); x.fn = c("f"); x.E = c("E"); x.Le = c("Le"); x.pb = p("p_dir"); x.pn = p("p_dir_nee"); x.pd = p("p_light"); x.ph = p("p_light_hit"); x.pc = k ? p("p_comp") : 1; x.comp = k ? k % 2 : 0; } pcam = pos("p_cam"); }
    Component::Ptr<Renderer> make(const char* name, Json j) { j["scene"] = "$.scene"; j["output"] = "$.film"; j["scheduler"] = "vp"; auto r = comp::create<Renderer>(name, "$.renderer", j); vp_assert((bool)r, "created"); return reloaded(root, std::move(r)); } };
static const Vec2 RP(0.125, 0.25), RPN(0.5, 0.75);
// film cleared once before, scaled so that the average over the samples remains
static void scaled(Sc& w) { vp_assert(w.film.clears == 1, "film-cleared"); double n = VSched::kind == 0 ? 1.0 : w.film.w * w.film.h; eq(w.film.total() * VSched::processed, n, "film-scaled-by-number-of-samples"); }
// the subset of the image plane the primary direction was drawn from
static void window(Sc& w, bool pixel) { if (!pixel) { vp_assert(w.ud.x >= 0 && w.ud.x < 1 && w.ud.y >= 0 && w.ud.y < 1, "primary-direction-in-the-image"); bool a = false, b = false; for (int i = 0; i < 24 && vp_rng(i) >= 0; i++) { a = a | (w.ud.x == vp_rng(i)); b = b | (w.ud.y == vp_rng(i)); } vp_assert(a & b, "primary-direction-uniform-in-the-image"); return; }
    double x = w.ud.x * w.film.w - double(VSched::pixel % w.film.w), y = w.ud.y * w.film.h - double(VSched::pixel / w.film.w); vp_assert(x >= 0 && x <= 1 && y >= 0 && y <= 1, "primary-direction-in-the-pixel"); bool a = false, b = false; for (int i = 0; i < 24 && vp_rng(i) >= 0; i++) { double u = vp_rng(i); a = a | (vp_is_symbolic_run() ? x == u : std::abs(x - u) < 1e-9); b = b | (vp_is_symbolic_run() ? y == u : std::abs(y - u) < 1e-9); } vp_assert(a & b, "primary-direction-uniform-in-the-pixel"); }
// the weight of one of two techniques with densities p and q
static Vec3 bal(double p, double q) { return Vec3(p / (p + q)); }
enum { Naive, NEE, MIS };
// What a path tracer must add to the image for this walk: every vertex reached by the walk that emits, and every vertex connected to a light
static void pt(int mode, bool image, int n, bool medium = false) { Sc w; w.values(n); for (int k = 1; k < n; k++) { auto& x = w.v[k]; x.kind = 1; }
    // where the walk ends: it leaves the scene, hits the environment or reaches the maximum number of vertices
    int last = vp_choice("last", n); bool env = last < n - 1 && vp_choice("env", 2); if (last < n - 1) w.v[last + 1].kind = 0; for (int k = 1; k <= last; k++) { w.v[k].light = vp_choice(idx("light", k).c_str(), 2); w.v[k].comp = k - 1; w.v[k].spec = mode != Naive && k < n - 1 && vp_choice(idx("spec", k).c_str(), 2); } w.v[0].comp = 0;
    bool two = false; if (mode != Naive) { int b = vp_choice("blocked", 4); if (b == 3) two = true; else if (b) { int k = b - (image ? 1 : 0); if (k < n) w.v[k].vis = false; } }
    w.build(true, two, env, medium); VSched::pixel = image ? 0 : 4; VSched::processed = 7;
    auto r = w.make("renderer::pt", {{"max_verts", n}, {"sampling_mode", std::string(mode == Naive ? "naive" : mode == NEE ? "nee" : "mis")}, {"primary_ray_sampling_mode", std::string(image ? "image" : "pixel")}}); Json res = r->render(); scaled(w); vp_assert(res["processed"].get<long long>() == VSched::processed, "reports-processed");
    Vec3 T(1 / w.pcam), C(0), CN(0); bool leaves = last < n - 1; int nl = w.nLights; for (int k = 0; k <= last && k < n - 1; k++) { auto& x = w.v[k]; bool conn = mode != Naive && !x.spec && (image || k > 0); auto& y = w.v[k + 1];
        if (conn && x.vis) { bool byHit = x.lightId != 1; Vec3 m = mode == MIS && byHit ? bal(x.pd / nl, x.pn) : Vec3(1); (k ? C : CN) += T * x.fn * x.E * double(nl) * m; }
        bool hitEnv = k == last && leaves && env; if (k == last && !hitEnv) break; T *= x.w; bool emits = hitEnv || y.light; if (emits && !(mode == NEE && conn)) C += T * y.Le * (mode == MIS && conn ? bal(x.pb, x.ph / nl) : Vec3(1)); if (hitEnv) break; T *= 1 / y.pc; }
    eq3(w.film.at(RP), C, "image-contribution"); eq3(w.film.at(RPN), CN, "directly-seen-light-contribution"); for (auto& s : w.film.s) vp_assert((s.rp.x == RP.x && s.rp.y == RP.y) || (s.rp.x == RPN.x && s.rp.y == RPN.y), "splat-position"); }
VP_ENTRY(pt_image_plane) { bool image = vp_choice("image", 2); Sc w; w.values(2); w.v[1].kind = 1; w.v[1].light = true; w.build(true, false, false, false); w.film.w = 1 + vp_choice("w", 3); w.film.h = 1 + vp_choice("h", 2); VSched::pixel = image ? 0 : vp_choice("pixel", w.film.w * w.film.h); VSched::processed = vp_choice("processed", 2) ? 7 : 1; auto r = w.make("renderer::pt", {{"max_verts", 2}, {"sampling_mode", "naive"}, {"primary_ray_sampling_mode", std::string(image ? "image" : "pixel")}}); r->render(); scaled(w); vp_assert(VSched::kind == (image ? 1 : 0), "scheduler-of-the-sampling-mode"); window(w, !image); eq3(w.film.at(RP), w.v[0].w * w.v[1].Le / w.pcam, "image-contribution"); }
VP_ENTRY(pt_naive) { pt(Naive, vp_choice("image", 2), 4); }
VP_ENTRY(pt_nee_pixel) { pt(NEE, false, 4); }
VP_ENTRY(pt_nee_image) { pt(NEE, true, 3); }
VP_ENTRY(pt_mis_pixel) { pt(MIS, false, 4); }
VP_ENTRY(pt_mis_image) { pt(MIS, true, 3); }

// no light sample, a light outside the image, or no direction to continue in
VP_ENTRY(pt_failed_samples) { Sc w; w.values(3); w.v[1].kind = 1; w.v[2].kind = 1; w.v[2].light = true; int c = vp_choice("case", 4); if (c == 0) w.v[1].nosample = w.v[0].nosample = true; if (c == 1) w.v[0].norp = true; if (c == 2) w.v[1].kind = 9; if (c == 3) w.v[1].fn = w.v[0].fn = Vec3(0); w.build(true, false, false, false); bool image = vp_choice("image", 2); auto r = w.make("renderer::pt", {{"max_verts", 3}, {"sampling_mode", "mis"}, {"primary_ray_sampling_mode", std::string(image ? "image" : "pixel")}}); r->render(); auto& v = w.v; Vec3 T1 = v[0].w / (w.pcam * v[1].pc), hit = T1 * v[1].w * v[2].Le * bal(v[1].pb, v[1].ph), nee = T1 * v[1].fn * v[1].E * bal(v[1].pd, v[1].pn), pri = v[0].fn * v[0].E / w.pcam * bal(v[0].pd, v[0].pn);
    eq3(w.film.at(RP), c == 0 ? hit : c == 1 ? hit + nee : c == 2 ? nee : hit, "image-contribution"); eq3(w.film.at(RPN), image && c == 2 ? pri : Vec3(0), "directly-seen-light-contribution"); }
// lights that cannot be hit (specular or degenerate) are only reached by connections; nothing is lost
VP_ENTRY(pt_unhittable_light) { Sc w; w.values(3); w.v[1].kind = 1; w.v[2].kind = 1; bool spec = vp_choice("specular", 2); w.area.spec = spec; w.build(spec, !spec, false, false); auto r = w.make("renderer::pt", {{"max_verts", 3}}); r->render(); auto& v = w.v; eq3(w.film.at(RP), v[0].w / (w.pcam * v[1].pc) * v[1].fn * v[1].E, "image-contribution"); }
// light tracing: every vertex of the walk is connected to the camera
VP_ENTRY(lt) { int n = 4; Sc w; w.fromLight = true; w.values(n); for (int k = 1; k < n; k++) w.v[k].kind = 1; int last = vp_choice("last", n); bool env = last < n - 1 && vp_choice("env", 2); if (last < n - 1) w.v[last + 1].kind = 0; for (int k = 1; k <= last; k++) { w.v[k].comp = k - 1; w.v[k].spec = k < n - 1 && vp_choice(idx("spec", k).c_str(), 2); } bool two = vp_choice("lights", 2); int c = vp_choice("case", 6); if (c == 1) w.v[1].vis = false; if (c == 2) w.v[2].vis = false; if (c == 3) w.v[1].norp = true; if (c == 4) w.v[1].nosample = true; if (c == 5) w.v[2].kind = w.v[2].kind ? 9 : 0;
    w.build(true, two, env, false); VSched::pixel = 4; VSched::processed = 7; auto r = w.make("renderer::lt", {{"max_verts", n}}); Json res = r->render(); scaled(w); vp_assert(VSched::kind == 1, "scheduler-of-the-sampling-mode"); vp_assert(res["processed"].get<long long>() == 7, "reports-processed");
    Vec3 T = w.v[0].w * double(w.nLights), all(0), sum(0); for (int k = 1; k <= last && k < n - 1; k++) { auto& x = w.v[k]; T *= 1 / x.pc; Vec3 C(0); if (!x.spec && x.vis && !x.norp && !x.nosample) C = T * x.fn * x.E; eq3(w.film.at(Vec2(0.01 * k, 0.5)), C, "image-contribution"); T *= x.w; if (x.kind == 9) break; } for (auto& s : w.film.s) { bool ok = s.c.x == 0 && s.c.y == 0 && s.c.z == 0; for (int k = 1; k < n - 1 && k <= last; k++) ok = ok || (s.rp.x == 0.01 * k && s.rp.y == 0.5); vp_assert(ok, "splat-position"); } }
// volumetric path tracing
static void volpt(bool naive, int n, bool medium) { Sc w; w.values(n); for (int k = 0; k < n; k++) { auto c = [&](const char* m) { std::string q = idx(m, k); return Vec3(pos((q + "r").c_str()), pos((q + "g").c_str()), pos((q + "b").c_str())); }; w.v[k].Tr = medium ? c("Tr") : Vec3(1); w.v[k].dw = medium ? c("dist_weight") : Vec3(1); w.v[k].kind = 1; }
    int last = vp_choice("last", n); bool env = last < n - 1 && vp_choice("env", 2); if (last < n - 1) w.v[last + 1].kind = 0; bool plain = !naive || vp_choice("lights_on_the_way", 2); for (int k = 1; k <= last; k++) { if (medium && vp_choice(idx("in_medium", k).c_str(), 2)) w.v[k].kind = 2; else { w.v[k].light = plain && vp_choice(idx("light", k).c_str(), 2); w.v[k].spec = !naive && k < n - 1 && vp_choice(idx("spec", k).c_str(), 2); } w.v[k].comp = k - 1; } w.v[0].comp = 0;
    bool two = false, any = false; for (int k = 1; k <= last; k++) any = any || w.v[k].light; if (!naive && !any) { int b = vp_choice("blocked", 3); if (b == 2) two = true; if (b == 1) w.v[1].vis = false; }
    w.build(true, two, env, medium); VSched::pixel = 4; VSched::processed = 7; auto r = w.make(naive ? "renderer::volpt_naive" : "renderer::volpt", {{"max_verts", n}}); Json res = r->render(); scaled(w); vp_assert(res["processed"].get<long long>() == 7, "reports-processed"); bool image = VSched::kind == 1;
    Vec3 T(1 / w.pcam), C(0), CN(0); bool leaves = last < n - 1; for (int k = 0; k <= last && k < n - 1; k++) { auto& x = w.v[k]; bool conn = !naive && !x.spec && (image || k > 0); auto& y = w.v[k + 1]; if (conn && x.vis) (k ? C : CN) += T * x.fn * x.E * x.Tr * double(w.nLights);
        bool hitEnv = k == last && leaves && env; if (k == last && !hitEnv) break; T *= x.w * x.dw; if ((hitEnv || y.light) && !conn) C += T * y.Le; if (hitEnv) break; if (y.kind == 1) T *= 1 / y.pc; }
    eq3(w.film.at(RP), C, "image-contribution"); eq3(w.film.at(RPN), CN, "directly-seen-light-contribution"); }
VP_ENTRY(volpt_naive) { volpt(true, 4, vp_choice("medium", 2)); }
VP_ENTRY(volpt_nee) { volpt(false, 4, false); }
VP_ENTRY(volpt_nee_medium) { volpt(false, 4, true); }
VP_ENTRY(volpt_image_plane) { Sc w; w.values(2); w.v[1].kind = 1; w.v[1].light = true; w.build(true, false, false, false); w.film.w = 1 + vp_choice("w", 3); w.film.h = 1 + vp_choice("h", 2); VSched::pixel = vp_choice("pixel", w.film.w * w.film.h); VSched::processed = vp_choice("processed", 2) ? 7 : 1; auto r = w.make(vp_choice("naive", 2) ? "renderer::volpt_naive" : "renderer::volpt", {{"max_verts", 2}}); r->render(); scaled(w); window(w, VSched::kind == 0); eq3(w.film.at(RP), w.v[0].w * w.v[1].Le / w.pcam, "image-contribution"); }
// Russian roulette: the walk goes on with probability 1-q and its weight is divided by exactly that
static void roulette(const char* name, bool light, double q0) { const int n = 8; Sc w; w.fromLight = light; w.values(2); Vec3 T = w.v[0].w; for (int k = 0; k < n; k++) { auto& x = w.v[k]; x.w = k ? Vec3(1) : T; x.Le = x.E = x.fn = x.Tr = x.dw = Vec3(1); x.pb = x.pn = x.pd = x.ph = x.pc = 1; x.comp = 0; x.kind = k ? 1 : 0; x.spec = !light; x.vis = light && k == 6; } w.pcam = 1; if (!light) w.v[7].light = true; w.build(true, false, false, false); Json j = {{"max_verts", n}, {"sampling_mode", "mis"}}; if (q0 != 0.2) j["rr_prob"] = q0; auto r = w.make(name, j); vp_itemode(1); r->render(); vp_itemode(0);
    double m = T.x > T.y ? T.x : T.y; m = m > T.z ? m : T.z; double q = 1 - m > q0 ? 1 - m : q0; Vec3 C = w.film.at(light ? Vec2(0.01 * 6, 0.5) : RP); bool above = false, below = false; int a = w.hitDraws[6], b = draws(); if (w.hitDraws[7]) b = w.hitDraws[7]; for (int i = a; i < b; i++) { above = above | (vp_rng(i) >= q); below = below | (vp_rng(i) < q); }
    bool went = false; for (auto& s : w.film.s) went = went || s.c.x != 0 || s.c.y != 0 || s.c.z != 0; if (went) { eq3(C * (1 - q), T, "survivors-compensate-the-terminated"); vp_assert(above, "survival-probability"); } else vp_assert(below, "survival-probability"); }
VP_ENTRY(roulette_pt) { roulette("renderer::pt", false, 0.2); }
VP_ENTRY(roulette_lt) { roulette("renderer::lt", true, 0.2); }
VP_ENTRY(roulette_volpt_naive) { roulette("renderer::volpt_naive", false, vp_choice("q0", 2) ? 0.2 : 0.5); }
VP_ENTRY(roulette_volpt) { roulette("renderer::volpt", false, vp_choice("q0", 2) ? 0.2 : 0.5); }
// ray casting
VP_ENTRY(raycast) { Sc w; w.values(2); int c = vp_choice("hit", 3); w.v[1].kind = c == 1; w.build(false, c != 2, c == 2, false); w.film.w = 1 + vp_choice("w", 3); w.film.h = 1 + vp_choice("h", 2); VSched::pixel = vp_choice("pixel", w.film.w * w.film.h); int x = VSched::pixel % w.film.w, y = VSched::pixel / w.film.w; bool nrm = vp_choice("normal", 2), cc = vp_choice("constant", 2), col = vp_choice("color", 2); Vec3 bg = color("bg"), k = color("col"); Json j = {{"bg_color", j3(bg)}, {"visualize_normal", nrm}, {"use_constant_color", cc}}; if (col) j["color"] = j3(k); auto r = w.make("renderer::raycast", j); r->render(); vp_assert(w.film.clears == 1 && w.film.px.size() == 1, "one-pixel-written"); if (w.film.px.size() != 1) return; eq(w.ud.x * w.film.w, x + 0.5, "ray-through-the-pixel-centre"); eq(w.ud.y * w.film.h, y + 0.5, "ray-through-the-pixel-centre"); auto& p = w.film.px[0]; vp_assert(p.rp.x == x && p.rp.y == y, "pixel-of-the-ray");
    if (c == 0) eq3(p.c, bg, "background"); else if (c == 2) { if (!nrm) eq3(p.c, w.v[1].Le, "environment-radiance"); } else if (nrm) eq3(p.c, Vec3(0, 0, 1), "normal"); else { Vec3 e = col ? k : w.v[1].fn; if (cc) eq3(p.c, e, "surface-color"); else { for (int i = 0; i < 3; i++) { vp_assert_le(p.c[i], e[i], "shaded-surface-color"); vp_assert_le(0, p.c[i], "shaded-surface-color"); } eq3(p.c * e.y, e * p.c.y, "shaded-surface-color"); } } for (double s : w.film.scale) eq(s, 1, "not-rescaled"); }
VP_ENTRY(not_renderable) { Sc w; w.values(2); w.v[1].kind = 0; const char* names[] = {"renderer::pt", "renderer::lt", "renderer::volpt", "renderer::volpt_naive", "renderer::raycast", "renderer::bdpt", "renderer::bdptopt", "renderer::pt_naive_path", "renderer::pt_nee_path", "renderer::lt_nee_path"}; int i = vp_choice("renderer", 10), c = vp_choice("missing", 3); if (c != 0) w.prim("camera", "$.cam"); if (c != 1) w.prim("light", "$.point"); if (c == 2 ) { w.s->reset(); } w.s->build(); auto r = w.make(names[i], {{"max_verts", 3}}); bool thrown = false; try { r->render(); } catch (const Exception&) { thrown = true; } vp_assert(thrown == (c != 1 || i != 4), "incomplete-scene-rejected"); if (thrown) vp_assert(w.film.clears == 0, "film-kept"); }
VP_ENTRY(blank) { Sc w; w.film.w = 1 + vp_choice("w", 3); w.film.h = 1 + vp_choice("h", 3); Vec3 c = color("c"); auto r = w.make("renderer::blank", {{"color", j3(c)}}); r->render(); int n = w.film.w * w.film.h; vp_assert((int)w.film.px.size() == n && w.film.clears <= 1, "every-pixel-once"); std::vector<int> seen(n, 0); for (auto& p : w.film.px) { int x = int(p.rp.x), y = int(p.rp.y); vp_assert(x >= 0 && x < w.film.w && y >= 0 && y < w.film.h, "pixel-in-the-film"); if (x >= 0 && x < w.film.w && y >= 0 && y < w.film.h) seen[y * w.film.w + x]++; eq3(p.c, c, "color"); } for (int s : seen) vp_assert(s == 1, "every-pixel-once"); }
// renderers read back from an archive behave as the ones saved
VP_ENTRY(saved_pt) { Reload r; pt(vp_choice("mode", 3), vp_choice("image", 2), 3); }
VP_ENTRY(saved_lt) { Reload r; vp_h_lt(); }
VP_ENTRY(saved_volpt) { Reload r; volpt(vp_choice("naive", 2), 3, false); }
VP_ENTRY(saved_roulette) { Reload r; vp_h_roulette_volpt(); }
VP_ENTRY(saved_raycast) { Reload r; vp_h_raycast(); }
VP_ENTRY(saved_blank) { Reload r; vp_h_blank(); }

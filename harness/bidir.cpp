#include <fstream>
// Bidirectional path sampling: one full path x0 (light) ... x[n-1] (camera) with arbitrary edge lengths, values and densities.
// Each strategy is isolated by limiting how far the two subpaths get; the sum over the strategies of (density of producing the path) x (what the renderer adds for it)
// must equal the measurement contribution of the path.
#include "common.h"
#include <lm/serial.h>
#include <sstream>
#include <lm/path.h>
#include <lm/bidir.h>
#include <lm/film.h>
#include <lm/scheduler.h>
#include <lm/renderer.h>
using namespace lm; using namespace hx;
namespace std { namespace chrono { inline namespace _V2 { static long tick; system_clock::time_point system_clock::now() noexcept { return time_point(duration(tick += 1000)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(tick += 1000)); } } } }
constexpr int M = 5;
static bool is(Vec3 a, Vec3 b) { return vp_close(a.x, b.x) && vp_close(a.y, b.y) && vp_close(a.z, b.z); }
static std::string idx(const char* n, int i) { return n + std::to_string(i); }
enum { Area, Point, Env, Directional };
struct BWorld; static BWorld* W;
static Vec3 E(int k) { static const Vec3 d[4] = {Vec3(1, 0, 0), Vec3(0, 1, 0), Vec3(0, 0, -1), Vec3(1, 0, 0)}; return d[k]; }   // direction of the edge from vertex k to k+1
struct VFilm final : public Film { struct S { Vec2 rp; Vec3 c; }; std::vector<S> s; std::vector<double> scale; int clears = 0;
    FilmSize size() const override { return {3, 2}; } long long num_pixels() const override { return 6; } bool save(const std::string&) const override { return false; } FilmBuffer buffer() override { return {}; } void accum(const Film*) override {} void set_pixel(int, int, Vec3) override { vp_assert(false, "unexpected-film-call"); } void splat_pixel(int, int, Vec3) override { vp_assert(false, "unexpected-film-call"); } void update_pixel(int, int, const PixelUpdateFunc&) override { vp_assert(false, "unexpected-film-call"); }
    void rescale(Float k) override { scale.push_back(k); } void clear() override { clears++; s.clear(); scale.clear(); } void splat(Vec2 rp, Vec3 v) override { s.push_back({rp, v}); } };
struct VSpi final : public scheduler::Scheduler { long long run(const ProcessFunc& f) const override { f(0, 0, 0); return 5; } };
namespace lm { LM_COMP_REG_IMPL(VSpi, "scheduler::spi::vp"); }
struct BWorld { int n = 3, type = Area; int maxL = 99, maxE = 99; bool blocked = false; Vec3 x[M], nrm[M], Le, We, f[M]; double l[M], pp, qL, pr, pcam, qE, qe[M], ql[M], pc[M]; bool spec[M] = {}; int nMesh = -1, nArea = -1, nBlack = -1, nl = 1, onlyLight = 0;
    bool inf() const { return type == Env || type == Directional; } Vec3 prev(int k) const { return -E(k - 1); } Vec3 next(int k) const { return E(k); } };
static int vid(const PointGeometry& g, const char* l) { int k = 0; while (k < W->n && !(g.t.x == k)) k++; vp_assert(!g.infinite && !g.degenerated && k < W->n, l); if (k >= W->n) vp_end(); eq3(g.p, W->x[k], l); return k; }
struct BLight final : public Light { bool dummy = false;
    PointGeometry at() const { if (W->inf()) return PointGeometry::make_infinite(E(0), W->x[0]); if (W->type == Point) return PointGeometry::make_degenerated(W->x[0]); return PointGeometry::make_on_surface(W->x[0], W->nrm[0], W->nrm[0], Vec2(0)); }
    void dir(Vec3 w) const { vp_assert(is(w, E(0)), "light-asked-about-the-path-direction"); }
    std::optional<RaySample> sample_ray(const RaySampleU&, const Transform&) const override { return RaySample{at(), E(0), W->Le / (W->inf() ? W->pr : W->pp * W->qL)}; } Float pdf_ray(const PointGeometry&, Vec3 w, const Transform&, bool d) const override { dir(w); vp_assert(!d, "density-with-delta"); return W->inf() ? W->pr : W->pp * W->qL; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&) const override { return DirectionSample{E(0), W->Le / W->qL}; } Float pdf_direction(const PointGeometry&, Vec3 w) const override { dir(w); vp_assert(!W->inf(), "no-separate-direction-density"); return W->qL; }
    std::optional<PositionSample> sample_position(const PositionSampleU&, const Transform&) const override { vp_assert(!W->inf(), "no-separate-position-density"); return PositionSample{at(), Vec3(1 / W->pp)}; } Float pdf_position(const PointGeometry&, const Transform&) const override { vp_assert(!W->inf(), "no-separate-position-density"); return W->pp; }
    std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry&, const Transform&) const override { vp_assert(false, "unexpected-light-call"); return {}; } Float pdf_direct(const PointGeometry&, const PointGeometry&, const Transform&, Vec3, bool) const override { vp_assert(false, "unexpected-light-call"); return 1; }
    bool is_specular() const override { return W->type == Directional; } bool is_infinite() const override { return W->inf(); } bool is_env() const override { return W->type == Env; } bool is_connectable(const PointGeometry&) const override { return !W->inf(); }
    Vec3 eval(const PointGeometry&, Vec3 wo, bool d) const override { dir(wo); return d && W->type == Directional ? Vec3(0) : W->Le; } void set_scene_bound(const Bound&) override {} };
struct BCam final : public Camera { static Vec3 d() { return -E(W->n - 2); } static PointGeometry at() { return PointGeometry::make_degenerated(W->x[W->n - 1]); } void dir(Vec3 w) const { vp_assert(is(w, d()), "camera-asked-about-the-path-direction"); }
    void set_aspect_ratio(Float) override {} Mat4 view_matrix() const override { return Mat4(1); } Mat4 projection_matrix() const override { return Mat4(1); } Ray primary_ray(Vec2) const override { return {}; }
    std::optional<RaySample> sample_ray(const RaySampleU&) const override { return RaySample{at(), d(), W->We / (W->pcam * W->qE)}; } Float pdf_ray(const PointGeometry&, Vec3 w) const override { dir(w); return W->pcam * W->qE; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&) const override { return DirectionSample{d(), W->We / W->qE}; } Float pdf_direction(const PointGeometry&, Vec3 w) const override { dir(w); return W->qE; } std::optional<PositionSample> sample_position(const PositionSampleU&) const override { return PositionSample{at(), Vec3(1 / W->pcam)}; } Float pdf_position(const PointGeometry&) const override { return W->pcam; }
    std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry&) const override { vp_assert(false, "unexpected-camera-call"); return {}; } Float pdf_direct(const PointGeometry&, const PointGeometry&, Vec3) const override { return 1; }
    std::optional<Vec2> raster_position(Vec3 w) const override { dir(w); return Vec2(0.25, 0.5); } bool is_connectable(const PointGeometry&) const override { return true; } Vec3 eval(Vec3 w) const override { dir(w); return W->We; } };
// comp index of vertex k is k
struct BMat final : public Material { ComponentSample sample_component(const ComponentSampleU&, const PointGeometry& g, Vec3) const override { int k = vid(g, "component-of-the-vertex"); return {k, 1 / W->pc[k]}; } Float pdf_component(int c, const PointGeometry& g, Vec3) const override { int k = vid(g, "component-of-the-vertex"); vp_assert(c == k, "sampled-component-used"); return W->pc[k]; }
    // light walk: arrives from the previous vertex, leaves to the next
    static bool toEye(int k, Vec3 wi, Vec3 wo) { return is(wi, W->prev(k)) && is(wo, W->next(k)); } static bool toLight(int k, Vec3 wi, Vec3 wo) { return is(wo, W->prev(k)) && is(wi, W->next(k)); }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry& g, Vec3 wi, int c, TransDir t) const override { int k = vid(g, "direction-at-the-vertex"); vp_assert(c == k, "sampled-component-used"); if (k == 0) return {}; bool le = t == TransDir::LE; vp_assert(is(wi, le ? W->prev(k) : W->next(k)), "incident-direction"); return DirectionSample{le ? W->next(k) : W->prev(k), W->f[k] / (le ? W->qe[k] : W->ql[k])}; }
    Float pdf_direction(const PointGeometry& g, Vec3 wi, Vec3 wo, int c, bool d) const override { int k = vid(g, "density-at-the-vertex"); vp_assert(c == k, "sampled-component-used"); vp_assert(toEye(k, wi, wo) || toLight(k, wi, wo), "density-of-a-path-direction"); if (d && W->spec[k]) return 0; return toEye(k, wi, wo) ? W->qe[k] : W->ql[k]; }
    Vec3 eval(const PointGeometry& g, Vec3 wi, Vec3 wo, int c, TransDir t, bool d) const override { int k = vid(g, "value-at-the-vertex"); vp_assert(c == k, "sampled-component-used"); vp_assert(t == TransDir::LE ? toEye(k, wi, wo) : toLight(k, wi, wo), "value-of-the-path-directions"); return d && W->spec[k] ? Vec3(0) : W->f[k]; }
    bool is_specular_component(int c) const override { return W->spec[c]; } Vec3 reflectance(const PointGeometry&) const override { return Vec3(0); } };
// absorbs everything: where an eye subpath that could otherwise see the environment ends
struct Black final : public Material { ComponentSample sample_component(const ComponentSampleU&, const PointGeometry&, Vec3) const override { return {0, 1}; } Float pdf_component(int, const PointGeometry&, Vec3) const override { return 1; } std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&, Vec3, int, TransDir) const override { return {}; } Float pdf_direction(const PointGeometry&, Vec3, Vec3, int, bool) const override { return 1; } Vec3 eval(const PointGeometry&, Vec3, Vec3, int, TransDir, bool) const override { return Vec3(0); } bool is_specular_component(int) const override { return false; } Vec3 reflectance(const PointGeometry&) const override { return Vec3(0); } };
struct BMesh final : public Mesh { Tri tri{}; void foreach_triangle(const ProcessTriangleFunc& f) const override { f(0, tri); } Tri triangle_at(int) const override { return tri; } int num_triangles() const override { return 1; } InterpolatedPoint surface_point(int f, Vec2) const override { static const Vec3 m[M] = {Vec3(3, 1, 2), Vec3(1, 2, -2), Vec3(-2, 3, 1), Vec3(1, 1, 3), Vec3(1, 2, 3)}; Vec3 n = glm::normalize(m[f]); return {W->x[f], n, n, Vec2(f, 0)}; } };
struct BAccel final : public Accel { void build(const Scene&) override {} std::optional<Hit> intersect(Ray r, Float, Float b) const override { Transform I{Mat4(1)}; if (b < Inf) { if (!W->blocked) return {}; return Hit{1, Vec2(0), I, W->nMesh, 1}; }
    int n = W->n; for (int k = 0; k < n - 1; k++) { if (is(r.d, E(k)) && (n < 5 || is(r.o, W->x[k]))) { eq3(r.o, W->x[k], "ray-from-the-vertex"); if (k + 1 >= n - 1 || k + 2 > W->maxL) return {}; return Hit{1, Vec2(0), I, W->nMesh, k + 1}; } if (is(r.d, -E(k)) && (n < 5 || is(r.o, W->x[k + 1]))) { eq3(r.o, W->x[k + 1], "ray-from-the-vertex"); if (n - k > W->maxE) { if (W->type != Env || k == 0) { if (W->type != Env) return {}; return Hit{1, Vec2(0), I, W->nBlack, n > 2 ? 1 : 0}; } return Hit{1, Vec2(0), I, W->nBlack, k}; } if (k == 0) { if (W->type != Area) return {}; return Hit{1, Vec2(0), I, W->nArea, 0}; } return Hit{1, Vec2(0), I, W->nMesh, k}; } } vp_assert(false, "ray-along-the-path"); return {}; } };
// the renderer as read back from an archive, if a test asks for it
extern "C" int getpid(); extern "C" int unlink(const char*);
struct File { std::string p; File() { if (vp_is_symbolic_run()) p = "f"; else p = "/tmp/vp-bidir-" + std::to_string(getpid()); } ~File() { if (!vp_is_symbolic_run()) unlink(p.c_str()); } };
static bool reloadOn = false; struct Reload { Reload() { reloadOn = true; } ~Reload() { reloadOn = false; } };
static Component::Ptr<Renderer> reloaded(Root& root, Component::Ptr<Renderer> r) { if (!reloadOn || !r) return r; root.add("renderer", r.get()); File file; { std::ofstream st(file.p, std::ios::out | std::ios::binary); OutputArchive ar(st, std::string("$")); cereal::save_owned(ar, r.get()); } Component::Ptr<Renderer> q; std::ifstream st(file.p, std::ios::in | std::ios::binary); serial::load_comp(st, q, "$"); vp_assert((bool)q, "loaded"); return q; }
struct BS : BWorld { Root root; BLight light; BCam cam; BMat mat; Black black; BMesh mesh; BAccel acc; VFilm film; Component::Ptr<Scene> s; int nL = -1, nCam = -1;
    void add(const char* m, Component* c) { root.add(m, c); comp::detail::Access::loc(c) = std::string("$.") + m; }
    BS(int n_, int type_) { W = this; n = n_; type = type_; auto c = [&](const char* m, int k) { std::string q = idx(m, k); return Vec3(pos((q + "r").c_str()), pos((q + "g").c_str()), pos((q + "b").c_str())); }; auto p = [&](const char* m, int k) { return pos(idx(m, k).c_str()); };
        x[0] = Vec3(0); for (int k = 0; k + 1 < n; k++) { l[k] = n == 5 ? 1 << k : vp_real_in(idx("length", k).c_str(), 0.001, 1e6); x[k + 1] = x[k] + E(k) * l[k]; } Le = c("Le", 0); We = c("We", 0); pp = p("p_light_pos", 0); qL = p("p_light_dir", 0); pr = p("p_light_ray", 0); pcam = p("p_cam_pos", 0); qE = p("p_cam_dir", 0); for (int k = 0; k < n - 1; k++) { pc[k] = p("p_comp", k); if (k) { f[k] = c("f", k); qe[k] = p("p_to_eye", k); ql[k] = p("p_to_light", k); } }
        add("light", &light); add("cam", &cam); add("mat", &mat); add("black", &black); add("mesh", &mesh); add("acc", &acc); add("film", &film); s = comp::create<Scene>("scene::default", "$.scene", Json{{"accel", "$.acc"}}); vp_assert((bool)s, "created"); root.add("scene", s.get());
        nCam = s->create_primitive_node(Json{{"camera", "$.cam"}}); s->add_child(0, nCam); nMesh = s->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}}); s->add_child(0, nMesh); if (type == Env) { nBlack = s->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.black"}}); s->add_child(0, nBlack); } if (type == Area) nL = nArea = s->create_primitive_node(Json{{"mesh", "$.mesh"}, {"material", "$.mat"}, {"light", "$.light"}}); else nL = s->create_primitive_node(Json{{"light", "$.light"}}); s->add_child(0, nL); s->build();
        // the normals as the scene reports them
        for (int k = 0; k < n - 1; k++) { if (k == 0 && type != Area) continue; auto h = s->intersect({x[k + 1], -E(k)}); vp_assert((bool)h, "hit"); if (!h) vp_end(); nrm[k] = h->geom.n; } }
    double cosAt(int k, Vec3 d) const { if (k == n - 1 || (k == 0 && type != Area)) return 1; double c = glm::dot(nrm[k], d); return c < 0 ? -c : c; }
    double G(int k) const { double g = cosAt(k, E(k)) * cosAt(k + 1, E(k)); return k == 0 && inf() ? g : g / (l[k] * l[k]); }
    // can the strategy with s light vertices produce the path, and with what density
    bool samplable(int s) const { if (s >= n) return false; if (s == 0) return type == Area || type == Env; if (s == 1 && inf()) return false; return !(s > 1 && spec[s - 1]) && !(n - s > 1 && spec[s]); }
    double density(int s) const { double p = 1; if (s > 0) { if (!inf()) p = pp; if (s > 1) p *= (inf() ? pr : qL) * G(0) * pc[1]; for (int k = 1; k + 1 < s; k++) p *= qe[k] * G(k) * pc[k + 1]; } int t = n - s; if (t > 0) { p *= pcam; if (t > 1) p *= qE * G(n - 2) * (n - 2 ? pc[n - 2] : 1); for (int k = n - 2; n - k < t; k--) p *= ql[k] * G(k - 1) * (k - 1 ? pc[k - 1] : 1); } return p; }
    Vec3 measure() const { Vec3 c = Le * We; for (int k = 0; k < n - 1; k++) { c *= G(k); if (k) c *= f[k]; } return c; }
    void specs() { for (int k = 1; k < n - 1; k++) spec[k] = vp_choice(idx("spec", k).c_str(), 2); }
    Component::Ptr<Renderer> make(const char* name) { auto r = comp::create<Renderer>(name, "$.renderer", Json{{"scene", "$.scene"}, {"output", "$.film"}, {"scheduler", "vp"}, {"min_verts", n}, {"max_verts", n}}); vp_assert((bool)r, "created"); return r; }
    // what the renderer adds when exactly the subpaths of strategy s are produced
    Vec3 strategy(Renderer* r, int s) { maxL = s; maxE = n - s; blocked = s == 0; film.clears = 0; r->render(); vp_assert(film.clears == 1, "film-cleared"); double sc = 1; for (double k : film.scale) sc *= k; eq(sc * 5, 6, "film-scaled-by-number-of-samples"); Vec3 c(0); for (auto& e : film.s) { vp_assert(e.rp.x == 0.25 && e.rp.y == 0.5, "splat-position"); c += e.c; } return c; }
    Path path() const { Path p; for (int k = 0; k < n; k++) { if (k == 0) p.vs.push_back({SceneInteraction::make_light_endpoint(nL, light.at()), 0}); else if (k == n - 1) p.vs.push_back({SceneInteraction::make_camera_endpoint(nCam, cam.at()), 0}); else p.vs.push_back({SceneInteraction::make_surface_interaction(nMesh, PointGeometry::make_on_surface(x[k], nrm[k], nrm[k], Vec2(k, 0))), k}); } return p; } };
static void unbiased(const char* name, int n, int type) { BS w(n, type); w.specs(); auto r = w.make(name); Vec3 sum(0); bool any = false; for (int s = 0; s < n; s++) { Vec3 c = w.strategy(r.get(), s); if (!w.samplable(s)) { eq3(c, Vec3(0), "impossible-strategy-contributes-nothing"); continue; } any = true; sum += c * w.density(s); } if (any) eq3(sum, w.measure(), "strategies-add-up-to-the-measurement-contribution"); }
VP_ENTRY(bdpt3) { unbiased("renderer::bdpt", 3, vp_choice("light", 4)); }
VP_ENTRY(bdptopt3) { unbiased("renderer::bdptopt", 3, vp_choice("light", 4)); }
VP_ENTRY(bdpt2) { unbiased("renderer::bdpt", 2, vp_choice("light", 4)); }
VP_ENTRY(bdptopt2) { unbiased("renderer::bdptopt", 2, vp_choice("light", 4)); }
VP_ENTRY(bdpt4_area) { unbiased("renderer::bdpt", 4, Area); }
VP_ENTRY(bdpt4_other) { unbiased("renderer::bdpt", 4, 1 + vp_choice("light", 3)); }
VP_ENTRY(bdptopt4_area) { unbiased("renderer::bdptopt", 4, Area); }
VP_ENTRY(bdptopt4_other) { unbiased("renderer::bdptopt", 4, 1 + vp_choice("light", 3)); }
// a renderer that uses one strategy per path: the strategies it uses still add up
static void single(const char* name, int n) { BS w(n, vp_choice("light", 2)); w.specs(); auto r = w.make(name); Vec3 sum(0); for (int s = 0; s < n; s++) { Vec3 c = w.strategy(r.get(), s); if (!w.samplable(s)) { eq3(c, Vec3(0), "impossible-strategy-contributes-nothing"); continue; } sum += c * w.density(s); } bool naive = std::string(name) == "renderer::pt_naive_path", lt = std::string(name) == "renderer::lt_nee_path"; bool can = naive ? w.samplable(0) : lt ? w.samplable(n - 1) : w.samplable(1) || (w.samplable(0) && n > 2 && w.spec[1]); eq3(sum, can ? w.measure() : Vec3(0), "strategies-add-up-to-the-measurement-contribution"); }
VP_ENTRY(pt_naive_path) { single("renderer::pt_naive_path", 2 + vp_choice("n", 3)); }
VP_ENTRY(pt_nee_path) { single("renderer::pt_nee_path", 2 + vp_choice("n", 3)); }
VP_ENTRY(lt_nee_path) { single("renderer::lt_nee_path", 2 + vp_choice("n", 3)); }
VP_ENTRY(bdpt5) { unbiased("renderer::bdpt", 5, vp_choice("light", 3)); }
VP_ENTRY(bdptopt5) { unbiased("renderer::bdptopt", 5, vp_choice("light", 3)); }
// path lengths outside [min_verts, max_verts] are not added
VP_ENTRY(path_length_limits) { const char* names[] = {"renderer::bdpt", "renderer::bdptopt", "renderer::pt_naive_path", "renderer::pt_nee_path", "renderer::lt_nee_path"}; int i = vp_choice("renderer", 5); BS w(3, Area); int lo = 3 + vp_choice("min", 3), hi = 2 + vp_choice("max", 3); auto r = reloaded(w.root, comp::create<Renderer>(names[i], "$.renderer", Json{{"scene", "$.scene"}, {"output", "$.film"}, {"scheduler", "vp"}, {"min_verts", lo}, {"max_verts", hi}})); vp_assert((bool)r, "created"); if (!r) return; int s = i < 2 ? vp_choice("s", 3) : i == 2 ? 0 : i == 3 ? 1 : 2; w.maxL = s; w.maxE = 3 - s; w.blocked = s == 0; r->render(); Vec3 c(0); for (auto& e : w.film.s) c += e.c; bool on = lo <= 3 && 3 <= hi; if (!on) eq3(c, Vec3(0), "length-outside-the-limits-ignored"); else vp_assert(c.x > 0 && c.y > 0, "length-within-the-limits-added"); }
VP_ENTRY(path_functions) { int n = 2 + vp_choice("n", 3); BS w(n, vp_choice("light", 4)); w.specs(); Path p = w.path(); auto* S = w.s.get(); vp_assert(p.num_verts() == n && p.num_edges() == n - 1, "path-size"); Vec3 f = w.measure(); double total = 0; bool any = false;
    for (int s = 0; s <= n; s++) { bool can = w.samplable(s); vp_assert(p.is_samplable_bidir(S, s) == can, "samplable-strategies"); double d = p.pdf_bidir(S, s); if (!can) { eq(d, 0, "density-of-impossible-strategy"); continue; } eq(d, w.density(s), "path-density"); eq3(p.eval_measurement_contrb_bidir(S, s), f, "measurement-contribution-same-for-every-strategy"); eq3(p.eval_sampling_weight_bidir(S, s) * d, f, "sampling-weight-is-contribution-over-density"); double m = p.eval_mis_weight(S, s); vp_assert(m > 0 && m <= 1, "mis-weight-range"); total += m; any = true; } if (any) eq(total, 1, "mis-weights-sum-to-one");
    Vec2 rp = p.raster_position(S); vp_assert(rp.x == 0.25 && rp.y == 0.5, "raster-position"); for (int i = -1; i <= n; i++) { vp_assert(p.vertex_at(i, TransDir::LE) == (i >= 0 && i < n ? &p.vs[i] : nullptr) && p.vertex_at(i, TransDir::EL) == (i >= 0 && i < n ? &p.vs[n - 1 - i] : nullptr) && p.subpath_vertex_at(i) == (i >= 0 && i < n ? &p.vs[i] : nullptr), "vertex-lookup"); } for (int k = 0; k + 1 < n; k++) { eq3(p.direction(&p.vs[k], &p.vs[k + 1]), E(k), "edge-direction"); eq3(p.direction(&p.vs[k + 1], &p.vs[k]), -E(k), "edge-direction"); } }
// subpaths: the vertices in order, never more than asked for
static void isVertex(BS& w, const Vert& v, int k) { if (k == 0 && v.sp.type == SceneInteraction::LightEndpoint) { vp_assert(v.sp.primitive == w.nL, "subpath-vertex"); return; } if (k == w.n - 1) { vp_assert(v.sp.type == SceneInteraction::CameraEndpoint && v.sp.primitive == w.nCam, "subpath-vertex"); return; } vp_assert(v.sp.type == SceneInteraction::SurfaceInteraction && v.sp.primitive == (k == 0 ? w.nArea : w.nMesh) && v.sp.geom.t.x == k && v.comp == k, "subpath-vertex"); eq3(v.sp.geom.p, w.x[k], "subpath-vertex"); }
VP_ENTRY(subpaths) { int n = 4; BS w(n, vp_choice("light", 3)); bool le = vp_choice("LE", 2); int m = vp_choice("max_verts", 6), cont = vp_choice("continue", 2); Rng rng(1); Path p; auto dir = le ? TransDir::LE : TransDir::EL; int first = cont ? 2 : m; if (cont && m < 2) return; p = path::sample_subpath(rng, w.s.get(), first, dir); if (cont) { vp_assert(p.num_verts() == 2, "subpath-length"); path::sample_subpath_from_endpoint(rng, p, w.s.get(), m, dir); } int avail = le ? (w.inf() ? n : n - 1) : w.type == Point ? n - 1 : n; vp_assert(p.num_verts() == (m < avail ? m : avail), "subpath-length"); for (int i = 0; i < p.num_verts(); i++) { if (i == n - 1 && w.inf()) vp_assert(p.vs[i].sp.geom.infinite && p.vs[i].sp.primitive == w.nL, "subpath-vertex"); else isVertex(w, p.vs[i], le ? i : n - 1 - i); } }
VP_ENTRY(connections) { int n = 4; BS w(n, vp_choice("light", 3)); Rng rng(1); Path L = path::sample_subpath(rng, w.s.get(), n, TransDir::LE), Ey = path::sample_subpath(rng, w.s.get(), n, TransDir::EL); int s = vp_choice("s", n + 1), t = vp_choice("t", n + 1); if (s + t < 2 || s > L.num_verts() || t > Ey.num_verts()) return; w.blocked = vp_choice("blocked", 2); auto p = path::connect_subpaths(w.s.get(), L, Ey, s, t); bool ok; if (s == 0) ok = t == n && (w.type == Area || w.type == Env); else if (t == 0) ok = false; else ok = !w.blocked && !((s == 1 || s == n) && w.inf()) && !(t == n && w.inf());
    vp_assert((bool)p == ok, "connected-exactly-when-possible"); if (!p) return; vp_assert(p->num_verts() == s + t, "full-path"); if (p->num_verts() != s + t) return; for (int i = 0; i < s + t; i++) { int k = i < s ? i : n - t + i - s; if (i == 0) { vp_assert(p->vs[i].sp.type == SceneInteraction::LightEndpoint && p->vs[i].sp.primitive == w.nL, "full-path"); continue; } isVertex(w, p->vs[i], k); } }
VP_ENTRY(saved_bidir) { Reload r; vp_h_path_length_limits(); }

// Progress reporting, global contexts and polled values.
#include "common.h"
#include <lm/progresscontext.h>
#include <lm/parallelcontext.h>
#include <lm/scheduler.h>
#include <lm/debug.h>
using namespace lm; using namespace hx; using namespace lm::progress;
static long long g_now; // only the harness moves the clock
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now)); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now)); } } } }
struct Ev { int k; long long n; double t; }; // 0: start by samples, 1: start by time, 2: update, 3: time update, 4: end
static std::vector<Ev> g_log[4]; static int g_made, g_alive;
struct VpProgress final : public ProgressContext { int id = 0; VpProgress() { ++g_alive; } ~VpProgress() { --g_alive; }
    void construct(const Json& p) override { id = json::value<int>(p, "id"); ++g_made; }
    void start(ProgressMode m, long long n, double t) override { g_log[id].push_back({m == ProgressMode::Samples ? 0 : 1, n, t}); }
    void update(long long n) override { g_log[id].push_back({2, n, 0}); } void update_time(Float t) override { g_log[id].push_back({3, 0, t}); } void end() override { g_log[id].push_back({4, 0, 0}); } };
LM_COMP_REG_IMPL(VpProgress, "progress::vp");
static void fresh() { for (auto& l : g_log) l.clear(); g_made = 0; g_now = 1000000000LL; }
static Json leaf(int id) { return Json{{"progress::vp", Json{{"id", id}}}}; }
static void same(const std::vector<Ev>& a, const std::vector<Ev>& b, const char* l) { vp_assert(a.size() == b.size(), l); for (size_t i = 0; i < a.size() && i < b.size(); i++) { vp_assert(a[i].k == b[i].k, l); vp_assert(a[i].n == b[i].n, l); eq(a[i].t, b[i].t, l); } }
static Ev emit(int i) { std::string s = std::to_string(i); Ev e{vp_choice(("op" + s).c_str(), 5), 0, 0}; if (e.k == 0) { e.n = vp_i64(("total" + s).c_str()); e.t = -1; progress::start(ProgressMode::Samples, e.n, -1); } else if (e.k == 1) { e.n = -1; e.t = vp_real(("time" + s).c_str()); progress::start(ProgressMode::Time, -1, e.t); } else if (e.k == 2) { e.n = vp_i64(("processed" + s).c_str()); progress::update(e.n); } else if (e.k == 3) { e.t = vp_real(("elapsed" + s).c_str()); progress::update_time(e.t); } else progress::end(); return e; }
// ------------------------------------------------------------------ every listener hears everything, in order
VP_ENTRY(mux) { fresh(); int shape = vp_choice("shape", 5); Json l = Json::array(); int n = 0; auto add = [&] { l.push_back(leaf(n++)); }; if (shape < 4) for (int i = 0; i < shape; i++) add(); else { add(); Json in = Json::array(); in.push_back(leaf(1)); in.push_back(leaf(2)); n = 3; l.push_back(Json{{"progress::mux", in}}); } progress::init("mux", l); vp_assert(g_made == n && g_alive == n, "every-listener-created"); std::vector<Ev> want; for (int i = 0; i < 3; i++) want.push_back(emit(i)); for (int i = 0; i < n; i++) same(g_log[i], want, "every-listener-told"); progress::shutdown(); vp_assert(g_alive == 0, "listeners-released"); }
// an update is passed on exactly if more than the delay has passed since the last one passed on
VP_ENTRY(delay) { fresh(); static const int D[] = {0, 1, 40, 1000}; int d = D[vp_choice("delay", 4)]; progress::init("delay", Json{{"delay", d}, {"progress", leaf(0)}}); bool time = vp_choice("time", 2); std::vector<Ev> want; if (time) { double t = vp_real("total"); progress::start(ProgressMode::Time, -1, t); want.push_back({1, -1, t}); } else { long long n = vp_i64("total"); progress::start(ProgressMode::Samples, n, -1); want.push_back({0, n, -1}); } static const int S[] = {0, 1, 2, 30, 40, 41, 1001}; long long last = g_now; for (int i = 0; i < 3; i++) { std::string s = std::to_string(i); g_now += S[vp_choice(("wait" + s).c_str(), 7)] * 1000000LL; Ev e{time ? 3 : 2, 0, 0}; if (time) { e.t = vp_real(("t" + s).c_str()); progress::update_time(e.t); } else { e.n = vp_i64(("n" + s).c_str()); progress::update(e.n); } if (g_now - last > d * 1000000LL) { want.push_back(e); last = g_now; } } progress::end(); want.push_back({4, 0, 0}); same(g_log[0], want, "forwarded-after-the-delay"); progress::shutdown(); vp_assert(g_alive == 0, "listeners-released"); }
VP_ENTRY(unknown_listener) { fresh(); bool th = false; Json bad{{"progress::nope", Json::object()}}; int k = vp_choice("kind", 3); try { if (k == 0) { Json l = Json::array(); l.push_back(leaf(0)); l.push_back(bad); progress::init("mux", l); } else if (k == 1) progress::init("delay", Json{{"delay", 1}, {"progress", bad}}); else progress::init("delay", Json{{"progress", leaf(0)}}); } catch (const Exception&) { th = true; } vp_assert(th, "unknown-listener-refused"); vp_assert(g_alive == 0, "listeners-released"); progress::shutdown(); }
// ------------------------------------------------------------------ schedulers report what they do
struct VpFilm final : public Film { int w = 1, h = 1; FilmSize size() const override { return {w, h}; } long long num_pixels() const override { return (long long)w * h; } void set_pixel(int, int, Vec3) override {} bool save(const std::string&) const override { return true; } FilmBuffer buffer() override { return {}; } void accum(const Film*) override {} void splat_pixel(int, int, Vec3) override {} void update_pixel(int, int, const PixelUpdateFunc&) override {} void rescale(Float) override {} void clear() override {} };
LM_COMP_REG_IMPL(VpFilm, "film::vp");
VP_ENTRY(scheduler_reports) { fresh(); vpt_set_hwc(1); vp_sched(0); parallel::init("openmp", Json{{"num_threads", 1}, {"progress_update_interval", 1 + vp_choice("interval", 2)}}); progress::init("mux", Json::array({leaf(0)})); Root root; auto film = comp::create<Film>("film::vp", "$.film"); root.add("film", film.get()); ((VpFilm*)film.get())->w = 1 + vp_choice("w", 2); long long np = film->num_pixels(); static const char* N[] = {"spp::sample", "spi::sample", "spp::time", "spi::time"}; int k = vp_choice("kind", 4); bool time = k >= 2; long long n = 1 + vp_choice("n", 2), total = k == 0 ? np * n : n; double T = 0.75; auto s = comp::create<scheduler::Scheduler>(std::string("scheduler::") + N[k], "", Json{{"spp", n}, {"num_samples", n}, {"samples_per_iter", 2}, {"render_time", T}, {"output", "$.film"}}); vp_assert((bool)s, "created"); int fail = vp_choice("fail", 3), c = 0; bool th = false; long long start = g_now; try { s->run([&](long long, long long, int) { g_now += 500000000LL; if (fail && c++ == fail - 1) throw std::runtime_error("x"); }); } catch (const std::runtime_error&) { th = true; } auto& l = g_log[0]; vp_assert(th == (fail && (time ? true : total >= fail)), "failure-reaches-the-caller"); vp_assert(l.size() >= 2 && l.front().k == (time ? 1 : 0) && l.back().k == 4, "started-and-ended"); if (l.size() < 2) return; if (time) eq(l.front().t, T, "total"); else vp_assert(l.front().n == total, "total"); double last = 0; for (size_t i = 1; i + 1 < l.size(); i++) { vp_assert(l[i].k == (time ? 3 : 2), "one-start-and-one-end"); double v = time ? l[i].t : double(l[i].n), top = time ? double(g_now - start) / 1e9 : double(total); vp_assert(v >= last && v <= top, "between-zero-and-total"); last = v; } progress::shutdown(); parallel::shutdown(); }
VP_ENTRY(scoped_reports) { fresh(); progress::init("mux", Json::array({leaf(0)})); long long n = vp_i64("n"); double t = vp_real("t"); bool time = vp_choice("time", 2), thr = vp_choice("throw", 2); try { if (time) { ScopedTimeReport r(t); if (thr) throw 1; } else { ScopedReport r(n); if (thr) throw 1; } } catch (int) { } same(g_log[0], {time ? Ev{1, -1, t} : Ev{0, n, -1}, Ev{4, 0, 0}}, "ended-when-the-scope-is-left"); progress::shutdown(); }
// ------------------------------------------------------------------ contexts are used only while they exist
VP_ENTRY(contexts) { fresh(); auto refused = [](auto f) { try { f(); } catch (const Exception& ) { return true; } return false; }; progress::shutdown(); parallel::shutdown(); int k = vp_choice("history", 4); if (k == 1) { progress::init("mux", Json::array({leaf(0)})); parallel::init("openmp", Json{{"num_threads", 1}}); progress::shutdown(); parallel::shutdown(); } if (k == 2) { progress::init("nope"); parallel::init("nope"); } if (k == 3) { progress::init("mux", Json::array({leaf(0)})); progress::init("mux", Json::array({leaf(1)})); vp_assert(g_alive == 1, "previous-context-released"); progress::update(5); vp_assert(g_log[0].empty() && g_log[1].size() == 1, "new-context-is-used"); progress::shutdown(); } vp_assert(g_alive == 0, "released"); vp_assert(refused([] { progress::update(1); }) && refused([] { progress::end(); }) && refused([] { progress::start(ProgressMode::Samples, 1, 0); }) && refused([] { progress::update_time(1); }), "use-without-context-refused"); vp_assert(refused([] { parallel::num_threads(); }) && refused([] { parallel::main_thread(); }) && refused([] { parallel::foreach(1, [](long long, int) {}); }), "use-without-context-refused"); progress::init("mux", Json::array({leaf(2)})); progress::end(); vp_assert(g_log[2].size() == 1, "usable-again"); progress::shutdown(); }
// ------------------------------------------------------------------ polled values
VP_ENTRY(poll) { int a = 0, b = 0; double x = vp_real("x"), got = 0; debug::reg_on_poll({}); debug::poll(Json{{"v", x}}); debug::reg_on_poll([&](const Json& j) { ++a; got = j["v"].get<double>(); }); debug::poll(Json{{"v", x}}); vp_assert(a == 1, "told-once"); eq(got, x, "value"); bool two = vp_choice("replace", 2); if (two) debug::reg_on_poll([&](const Json&) { ++b; }); else debug::reg_on_poll({}); debug::poll(Json{{"v", x}}); vp_assert(a == 1 && b == (two ? 1 : 0), "latest-function-only"); debug::reg_on_poll({}); }

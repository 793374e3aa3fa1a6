// Parallel loop, sample schedulers and film under all schedules within the preemption bound.
#include "common.h"
#include <lm/parallelcontext.h>
#include <lm/scheduler.h>
using namespace hx; using namespace lm::parallel;
static void par(int n, int interval = 100) { vpt_set_hwc(2); Json p; p["num_threads"] = n; p["progress_update_interval"] = interval; parallel::init("openmp", p); }
// ------------------------------------------------------------------ parallel loop
static void once(int n, long long N) {
    par(n); int cnt[4] = {}, tid[4] = {-1, -1, -1, -1}; int busy[3] = {}; bool clash = false, bad = false;
    parallel::foreach(N, [&](long long i, int t) { if (i < 0 || i >= N || t < 0 || t >= n) { bad = true; return; } cnt[i]++; tid[i] = t; });
    vp_assert(!bad, "index-and-thread-id-in-range");
    for (int i = 0; i < 4; i++) vp_assert(cnt[i] == (i < N ? 1 : 0), "every-index-exactly-once");
    vp_assert(parallel::num_threads() == n, "number-of-threads");
    (void)busy; (void)clash; parallel::shutdown();
}
VP_ENTRY(foreach_once) { vp_sched(2); int n = 1 + vp_choice("threads", 2); once(n, vp_choice("n", 4)); }
VP_ENTRY(foreach_once3) { vp_sched(1); once(3, 3); }
VP_ENTRY(foreach_exception) { // an exception in any iteration reaches the caller, and the loop can be used again
    vp_sched(1); int n = 1 + vp_choice("threads", 2), k = vp_choice("where", 3); par(n); int cnt[3] = {}; int got = -1; bool other = false;
    try { parallel::foreach(3, [&](long long i, int) { cnt[i]++; if (i == k) throw (int)(100 + i); }); } catch (int e) { got = e; } catch (...) { other = true; }
    vp_assert(got == 100 + k && !other, "exception-reaches-caller");
    for (int i = 0; i < 3; i++) vp_assert(cnt[i] <= 1, "no-index-twice");
    vp_assert(n > 1 || cnt[0] == 1, "first-index-processed");
    int c2 = 0; if (n == 1) { parallel::foreach(2, [&](long long, int) { c2++; }); vp_assert(c2 == 2, "usable-after-exception"); }
    parallel::shutdown();
}
VP_ENTRY(foreach_exception_twice) { // two iterations fail: exactly one of the exceptions arrives
    vp_sched(2); par(2); int got = 0;
    try { parallel::foreach(2, [&](long long i, int) { throw (int)(100 + i); }); } catch (int e) { got = e; }
    vp_assert(got == 100 || got == 101, "exception-reaches-caller"); parallel::shutdown();
}
VP_ENTRY(foreach_progress) { // reported progress never decreases and never exceeds the number of iterations, also in a second loop
    vp_sched(1); int n = 1 + vp_choice("threads", 2); par(n, 2); int sizes[2] = {1 + vp_choice("n0", 3), 1 + vp_choice("n1", 2)};
    for (int k = 0; k < 2; k++) { long long last = 0; bool ok = true, mono = true; parallel::foreach(sizes[k], [&](long long, int) {}, [&](long long p) { if (p < 0 || p > sizes[k]) ok = false; if (p < last) mono = false; last = p; }); vp_assert(ok, "progress-within-total"); vp_assert(mono, "progress-monotone"); }
    parallel::shutdown();
}
VP_ENTRY(main_thread) { par(2); vp_sched(1); int mains = 0, others = 0; parallel::foreach(2, [&](long long, int t) { if (parallel::main_thread() != (t == 0)) others++; }); vp_assert(others == 0, "main-thread-is-thread-zero"); vp_assert(parallel::main_thread(), "caller-is-main"); (void)mains; parallel::shutdown(); }
// number of threads: non-positive values count down from the hardware's
VP_ENTRY(num_threads) { vpt_set_hwc(4); int n = vp_int("n", -3, 6); Json p; int k = n; for (int i = -3; i <= 6; i++) if (n == i) k = i; p["num_threads"] = k; parallel::init("openmp", p); vp_assert(parallel::num_threads() == (k > 0 ? k : 4 + k), "number-of-threads"); parallel::shutdown(); Json q; parallel::init("openmp", q); vp_assert(parallel::num_threads() == 4, "default-number-of-threads"); parallel::shutdown(); }
// ------------------------------------------------------------------ schedulers
// A context that runs a symbolic choice of iterations: properties of the index mapping for every index
static long long g_total; static int g_calls; static bool g_mark; static bool g_neg;
static std::function<void(long long, const ParallelProcessFunc&, const parallel::ParallelContext*)> g_loop;
struct VpContext final : public ParallelContext {
    int num_threads() const override { return 1; } bool main_thread() const override { return true; }
    void foreach(long long n, const ParallelProcessFunc& f, const ProgressUpdateFunc& up) const override { g_total = n; g_calls++; if (n < 0) g_neg = true; if (g_loop) g_loop(n, f, this); up(n); g_mark = true; }
};
LM_COMP_REG_IMPL(VpContext, "parallel::vpcontext");
struct VpFilm final : public Film {
    int w = 1, h = 1; FilmSize size() const override { return {w, h}; } long long num_pixels() const override { return (long long)w * h; }
    void set_pixel(int, int, Vec3) override {} bool save(const std::string&) const override { return true; } FilmBuffer buffer() override { return {}; } void accum(const Film*) override {} void splat_pixel(int, int, Vec3) override {} void update_pixel(int, int, const PixelUpdateFunc&) override {} void rescale(Float) override {} void clear() override {}
};
LM_COMP_REG_IMPL(VpFilm, "film::vp");
static Component::Ptr<Film> g_film; static Root* g_root;
static VpFilm* film(int w, int h) { g_root = new Root; g_film = comp::create<Film>("film::vp", "$.film"); g_root->add("film", g_film.get()); auto* f = (VpFilm*)g_film.get(); f->w = w; f->h = h; return f; }
static Component::Ptr<scheduler::Scheduler> sched(const char* n, Json p) { g_total = 0; g_calls = 0; g_neg = false; g_mark = false; p["output"] = "$.film"; return comp::create<scheduler::Scheduler>(n, "", p); }
VP_ENTRY(spp_sample_mapping) { // every pixel gets spp samples 0..spp-1: the index mapping is a bijection
    Json q; parallel::init("vpcontext", q); static const int W[] = {1, 3, 640, 7}, H[] = {1, 2, 480, 5}; int k = vp_choice("film", 4), spp = 0; static const int S[] = {1, 2, 3, 16, 1000}; spp = S[vp_choice("spp", 5)]; long long np = (long long)W[k] * H[k];
    film(W[k], H[k]); Json p; p["spp"] = spp; auto s = sched("scheduler::spp::sample", p); long long i = vp_i64("i"), j = vp_i64("j"), pi = -1, si = -1, pj = -1, sj = -1; int n = 0;
    vp_assume(i >= 0 && j >= 0 && i < np * spp && j < np * spp && i != j); 
    g_loop = [&](long long, const ParallelProcessFunc& f, const ParallelContext*) { n = 1; f(i, 0); n = 2; f(j, 0); };
    long long r = s->run([&](long long px, long long sa, int) { if (n == 1) { pi = px; si = sa; } else { pj = px; sj = sa; } });
    vp_assert(r == spp, "samples-per-pixel-returned"); vp_assert(g_total == np * spp && g_calls == 1, "all-samples-processed"); vp_assert(pi >= 0 && pi < np && si >= 0 && si < spp, "pixel-and-sample-in-range"); vp_assert(!(pi == pj && si == sj), "no-sample-twice"); parallel::shutdown();
}
VP_ENTRY(spp_sample_threads) { // with the real loop: every (pixel, sample) exactly once, thread ids in range
    vp_sched(1); int n = 1 + vp_choice("threads", 2); par(n); film(2, 1); Json p; p["spp"] = 2; auto s = sched("scheduler::spp::sample", p); int cnt[2][2] = {}; bool bad = false;
    long long r = s->run([&](long long px, long long sa, int t) { if (px < 0 || px > 1 || sa < 0 || sa > 1 || t < 0 || t >= n) { bad = true; return; } cnt[px][sa]++; });
    vp_assert(!bad && r == 2, "in-range"); for (auto& a : cnt) for (int c : a) vp_assert(c == 1, "every-sample-exactly-once"); parallel::shutdown();
}
VP_ENTRY(spi_sample) { Json q; parallel::init("vpcontext", q); long long N = vp_choice("n", 2) ? 1000000007LL : 5; Json p; p["num_samples"] = N; auto s = sched("scheduler::spi::sample", p); long long i = vp_i64("i"), j = vp_i64("j"), si = -1, sj = -1; vp_assume(i >= 0 && j >= 0 && i < N && j < N && i != j); int n = 0; bool bad = false;
    g_loop = [&](long long, const ParallelProcessFunc& f, const ParallelContext*) { n = 1; f(i, 0); n = 2; f(j, 0); };
    long long r = s->run([&](long long px, long long sa, int) { if (px != 0) bad = true; (n == 1 ? si : sj) = sa; }); vp_assert(!bad, "single-pixel"); vp_assert(r == N && g_total == N && g_calls == 1, "all-samples-processed"); vp_assert(si >= 0 && si < N && si != sj, "no-sample-twice"); parallel::shutdown();
}
// time-limited schedulers against an arbitrary non-decreasing clock
static long long g_now, g_first; static int g_ticks;
static long long tick() { static const long long D[] = {0, 500000000LL, 1000000000LL, 1001000000LL}; if (g_ticks++ < 12) g_now += D[vp_choice(("dt" + std::to_string(g_ticks)).c_str(), 4)]; else g_now += 10000000000LL; if (g_mark) { g_mark = false; g_first = g_now; } return g_now; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(tick())); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(tick())); } } } }
static void timed(bool spi) { // complete passes until the time is used up, no longer
    Json q; parallel::init("vpcontext", q); film(3, 1); double T = vp_real_in("render_time", 0, 2.5); Json p; p["render_time"] = T; if (spi) p["samples_per_iter"] = 3; auto s = sched(spi ? "scheduler::spi::time" : "scheduler::spp::time", p); g_ticks = 0; g_now = 0; int pass = 0; bool bad = false, late = false; long long start = -1; bool got[4][3] = {};
    g_loop = [&](long long n, const ParallelProcessFunc& f, const ParallelContext*) { if (start < 0) start = g_now; else if ((g_first - start) / 1e9 > T) late = true; if (n != 3) bad = true; if (pass >= 3) vp_end(); for (int i = 0; i < 3; i++) f(i, 0); pass++; };
    long long r = s->run([&](long long px, long long sa, int) { if (spi) { if (px != 0 || sa / 3 != pass) { bad = true; return; } px = sa % 3; sa = sa / 3; } if (px < 0 || px > 2 || sa != pass) { bad = true; return; } if (got[sa][px]) bad = true; got[sa][px] = true; });
    vp_assert(!bad, "complete-passes"); for (int i = 0; i < pass; i++) for (bool g : got[i]) vp_assert(g, "complete-passes"); vp_assert(r == (spi ? 3 : 1) * pass && pass >= 1, "samples-returned"); vp_assert((g_now - start) / 1e9 >= T, "not-before-the-time"); vp_assert(!late, "stops-after-the-time"); parallel::shutdown();
}
VP_ENTRY(spp_time) { timed(false); }
VP_ENTRY(spi_time) { timed(true); }

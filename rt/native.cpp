// Native side of the harness interface: runs the same harness on the really compiled code with
// concrete inputs.  usage: replay <entry> <inputs-file|-> <seed> <tries>
// With tries > 0, inputs that the file does not fix ("?" or absent) or that were perturbed are
// completed pseudo-randomly near the solver's assignment.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <random>
#include <stdexcept>
#include <dlfcn.h>
#include <unistd.h>
#include <csetjmp>
#include <csignal>
#include <vector>
static std::map<std::string, std::string> model; static std::map<std::string, int> names; static std::map<std::string, double> used;
static std::mt19937_64 rng; static int mode = 0; // 0 exact, 1 perturbed, 2 random
struct Skip {}; struct Fail { std::string label, detail; };
static std::string uniq(const char* n) { int k = names[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static bool has(const std::string& n, double& v) { auto it = model.find(n); if (it == model.end() || it->second == "?") return false; v = strtod(it->second.c_str(), nullptr); return true; }
static double rnd() { double r = U(); if (r < .35) return U(); if (r < .5) return 2 * U() - 1; if (r < .75) return 4 * U() - 2; if (r < .9) return 10 * U(); return 20 * U() - 10; }
// mode 3: the failing inputs again, every real that is not a small dyadic number moved by about 1e-7, so that a
// failure that exists only through rounding at a discontinuity is not reported
static double shake(double v) { double k = v * 1024; if (k == std::floor(k) && std::fabs(v) < 1e6) return v; return v + (2 * U() - 1) * 2e-7 * (1e-3 + std::fabs(v)); }
static double pick(const std::string& n, bool unitrange = false) {
    double v; bool h = has(n, v);
    if (mode == 3) v = h ? shake(v) : unitrange ? U() : rnd();
    else if (mode == 0) v = h ? v : 0.375;
    else if (mode == 1) { if (!h) v = unitrange ? U() : rnd(); else if (U() < .35) v += (2 * U() - 1) * std::pow(10., -4 * U()) * (1 + std::fabs(v)); }
    else { if (h && U() < .4) { } else v = unitrange ? U() : rnd(); }
    if (unitrange) { if (!(v >= 0)) v = 0; if (!(v < 1)) v = std::nextafter(1.0, 0.0); }
    used[n] = v; return v;
}
extern "C" {
double vp_real(const char* n0) { return pick(uniq(n0)); }
double vp_real_in(const char* n0, double lo, double hi) { std::string n = uniq(n0); double v; bool h = has(n, v);
    auto r = [&] { if (hi - lo < 1e6) return lo + (hi - lo) * U(); if (lo > -1e6) return lo + std::fabs(rnd()); if (hi < 1e6) return hi - std::fabs(rnd()); return rnd(); };
    if (mode == 3 && h) v = shake(v); else if (mode == 0) { if (!h) v = hi - lo < 1e6 ? lo + .375 * (hi - lo) : lo > -1e6 ? lo + .375 : .375; } else if (mode == 1) { if (!h) v = r(); else if (U() < .35) v += (2 * U() - 1) * std::pow(10., -4 * U()) * (1 + std::fabs(v)); } else if (!(h && U() < .4)) v = r();
    if (v < lo) v = lo; if (v > hi) v = hi; used[n] = v; return v; }
float vp_float(const char* n0) { return (float)pick(uniq(n0)); }
double vp_native_rng() { return pick(uniq("rng"), true); }
double vp_rng(int k) { auto it = used.find(k ? "rng#" + std::to_string(k) : std::string("rng")); return it == used.end() ? -1 : it->second; }
int vp_native_rngi() { double v; std::string n = uniq("rngi"); if (!has(n, v)) v = rng() % 0x7fffffff; used[n] = v; return (int)v; }
static long long pickInt(const std::string& n, long long lo, long long hi) {
    double dv; long long v = lo; bool h = false; auto it = model.find(n); if (it != model.end() && it->second != "?") { v = (long long)strtoll(it->second.c_str(), nullptr, 10); h = true; }
    (void)dv; if (mode == 2 || (mode == 1 && !h)) if (!h || U() < .5) v = lo + (long long)(rng() % (unsigned long long)(hi - lo + 1));
    if (v < lo) v = lo; if (v > hi) v = hi; used[n] = (double)v; return v; }
int vp_int(const char* n, int lo, int hi) { auto it = model.find(n); std::string u = uniq(n); if (model.count(u) && model[u] != "?") { long long x = (int)strtoll(model[u].c_str(), nullptr, 10); model[u] = std::to_string((int)x); } return (int)pickInt(u, lo, hi); }
long long vp_i64(const char* n) { return pickInt(uniq(n), -1000000, 1000000); }
unsigned char vp_u8(const char* n) { return (unsigned char)pickInt(uniq(n), 0, 255); }
bool vp_bool(const char* n) { return pickInt(uniq(n), 0, 1) != 0; }
int vp_choice(const char* n, int k) { return (int)pickInt(uniq(n), 0, k - 1); }
void vp_unit3(const char* n, double* p) {
    std::string b(n); double x = pick(uniq((b + ".x").c_str())), y = pick(uniq((b + ".y").c_str())), z = pick(uniq((b + ".z").c_str())); double l = std::sqrt(x * x + y * y + z * z);
    if (!(l > 1e-9)) { x = 0; y = 0; z = 1; l = 1; } p[0] = x / l; p[1] = y / l; p[2] = z / l; }
void vp_sqrule(double v, double rhs) { if (std::fabs(v * v - rhs) > 1e-6 * (1 + std::fabs(rhs))) throw Skip(); }
void vp_assume(bool c) { if (!c) throw Skip(); }
static void fail(const char* l, const std::string& d) { throw Fail{l, d}; }
void vp_assert(bool c, const char* l) { if (!c) fail(l, ""); }
void vp_assert_eq(double a, double b, const char* l) { if (a == b) return; double t = 2e-5 * (1e-6 + std::fabs(a) + std::fabs(b)) + 1e-9; if (!(std::fabs(a - b) <= t)) { char s[100]; snprintf(s, 100, "%.17g != %.17g", a, b); fail(l, s); } }
void vp_assert_le(double a, double b, const char* l) { double t = 2e-5 * (1e-6 + std::fabs(a) + std::fabs(b)) + 1e-9; if (!(a <= b + t)) { char s[100]; snprintf(s, 100, "%.17g > %.17g", a, b); fail(l, s); } }
double vp_diff(double, double) { throw Skip(); }
void vp_assert_near(double a, double b, double tol, const char* l) { if (a == b) return; if (!(std::fabs(a - b) <= tol * (1e-3 + std::fabs(a) + std::fabs(b)))) { char s[100]; snprintf(s, 100, "%.17g != %.17g", a, b); fail(l, s); } }
void vp_reach(const char*) {} void vp_divcheck(int) {} void vp_itemode(int) {} bool vp_close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
int vp_finite(double x) { return std::isfinite(x); }
void vp_end() { throw Skip(); }
int vp_is_symbolic_run() { return 0; } int vp_is_concrete(double) { return 1; } int vp_is_concrete_int(long) { return 1; } void vp_num_text(char* o, double v) { snprintf(o, 40, "%.17g", v); } void vp_int_text(char* o, int v) { snprintf(o, 40, "%d", v); }
void vp_print(const char*, double) {} void vp_print_i(const char*, long) {}
}
// ---- threads: one runs at a time, switching at the same points and by the same rule as the engine
#include "thr.h"
#include <thread>
#include <mutex>
#include <condition_variable>
// VP_DET: the scheduled replay under ThreadSanitizer; the scheduler's own synchronisation is hidden from it and only the edges of the program are annotated
#if defined(VP_DET)
extern "C" { void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int); void __tsan_acquire(void*); void __tsan_release(void*); void __tsan_on_report(void*) { printf("FAIL label=data-race detail=ThreadSanitizer report\n"); fflush(stdout); } }
struct Hide { Hide() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreSyncBegin("", 0); } ~Hide() { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } };
#define HIDE Hide hide_;
#define ACQ(p) __tsan_acquire(p)
#define REL(p) __tsan_release(p)
#define SHOW struct Show { Show() { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } ~Show() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreSyncBegin("", 0); } } show_;
static char born[256], dead[256];
#else
#define HIDE
#define SHOW
#define ACQ(p)
#define REL(p)
#endif
#if !defined(VP_TSAN) || defined(VP_DET)
namespace {
enum St { RUN, LOCK, JOIN, CV, DONE };
struct NT { St st = RUN; void* on = nullptr; void* cv = nullptr; int join = -1; };
std::mutex G; std::condition_variable GC; std::vector<NT> T(1); int cur = 0; int preempt = 2; std::map<void*, int> owner; thread_local int me = 0;
struct Slot { std::thread th; void (*fn)(void*) = nullptr; void* arg = nullptr; int tid = 0; std::condition_variable cv; }; std::map<int, Slot*> slots;
bool enabled(int t) { NT& x = T[t]; switch (x.st) { case RUN: return true; case LOCK: return !owner.count(x.on); case JOIN: return T[x.join].st == DONE; default: return false; } }
[[noreturn]] void die(const char* l, const char* d) { printf("FAIL label=%s detail=%s\n", l, d); for (auto& [n, v] : used) printf("INPUT %s %.17g\n", n.c_str(), v); fflush(stdout); _exit(3); }
int choose() { std::vector<int> en; bool m = enabled(cur); if (m) en.push_back(cur); for (int t = 0; t < (int)T.size(); t++) if (t != cur && enabled(t)) en.push_back(t); if (en.empty()) die("deadlock", "no thread can proceed"); if (en.size() == 1 || (m && preempt <= 0)) return en[0]; int k = (int)pickInt(uniq("sched"), 0, en.size() - 1); if (m && k) preempt--; return en[k]; }
void yieldTo(std::unique_lock<std::mutex>& lk, int t) { if (t == cur && t == me) return; cur = t; GC.notify_all(); GC.wait(lk, [] { return cur == me; }); }
void body(void (*fn)(void*), void* arg, int tid) { { HIDE me = tid; std::unique_lock<std::mutex> lk(G); GC.wait(lk, [] { return cur == me; }); } ACQ(&born[tid & 255]); try { fn(arg); } catch (Fail& f) { die(f.label.c_str(), f.detail.c_str()); } catch (Skip&) { printf("OK ran=0 skipped=1\n"); fflush(stdout); _exit(0); } catch (...) { die("uncaught-exception", "in thread"); } REL(&dead[tid & 255]); HIDE std::unique_lock<std::mutex> lk(G); T[tid].st = DONE; cur = choose(); GC.notify_all(); }
}
static void thrReset() { T.assign(1, NT()); cur = 0; preempt = 2; owner.clear(); me = 0; }
extern "C" {
void vp_sched(int n) { preempt = n; } int vp_tid() { return me; } 
#if defined(VP_DET)
void vp_internal(int b) { if (b) AnnotateIgnoreReadsBegin("", 0); else AnnotateIgnoreReadsEnd("", 0); } void vp_hb(void* p, int k) { if (k & 1) ACQ(p); if (k & 2) REL(p); } void vp_atomic_mem(int b) { vp_internal(b); }
#else
void vp_internal(int) {} void vp_hb(void*, int) {} void vp_atomic_mem(int) {}
#endif
 int vp_bits_eq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
void vp_point() { HIDE if (T.size() < 2) return; std::unique_lock<std::mutex> lk(G); yieldTo(lk, choose()); }
int vp_spawn(void (*fn)(void*), void* arg, int slot) { REL(&born[T.size() & 255]); HIDE std::unique_lock<std::mutex> lk(G); int t = T.size(); T.push_back(NT());
    if (!slot) std::thread(body, fn, arg, t).detach();
    else { Slot*& s = slots[slot]; if (!s) { s = new Slot; s->th = std::thread([s] { HIDE while (true) { void (*f)(void*); void* a; int id; { std::unique_lock<std::mutex> l2(G); s->cv.wait(l2, [s] { return s->fn != nullptr; }); f = s->fn; a = s->arg; id = s->tid; s->fn = nullptr; } SHOW body(f, a, id); } }); s->th.detach(); } s->fn = fn; s->arg = arg; s->tid = t; s->cv.notify_all(); }
    return t; }
void vp_join(int t) { { HIDE std::unique_lock<std::mutex> lk(G); if (t <= 0 || t >= (int)T.size()) die("crash", "join of a thread that is not joinable"); if (T[t].st != DONE) { T[me].st = JOIN; T[me].join = t; yieldTo(lk, choose()); } T[me].st = RUN; } ACQ(&dead[t & 255]); }
void vp_lock(void* m) { { HIDE std::unique_lock<std::mutex> lk(G); if (T.size() < 2) { owner[m] = 1; ACQ(m); return; } yieldTo(lk, choose()); while (owner.count(m)) { T[me].st = LOCK; T[me].on = m; yieldTo(lk, choose()); } T[me].st = RUN; owner[m] = me + 1; } ACQ(m); }
int vp_trylock(void* m) { vp_point(); { HIDE std::unique_lock<std::mutex> lk(G); if (owner.count(m)) return 0; owner[m] = me + 1; } ACQ(m); return 1; }
void vp_unlock(void* m) { REL(m); HIDE std::unique_lock<std::mutex> lk(G); if (!owner.count(m)) die("mutex-misuse", "unlock of a mutex that is not held"); owner.erase(m); }
void vp_cv_wait(void* cv, void* m) { REL(m); { HIDE std::unique_lock<std::mutex> lk(G); owner.erase(m); T[me].st = CV; T[me].cv = cv; T[me].on = m; yieldTo(lk, choose()); while (owner.count(m)) { T[me].st = LOCK; T[me].on = m; yieldTo(lk, choose()); } T[me].st = RUN; owner[m] = me + 1; } ACQ(m); }
void vp_cv_notify(void* cv, int all) { HIDE std::unique_lock<std::mutex> lk(G); std::vector<int> w; for (int t = 0; t < (int)T.size(); t++) if (T[t].st == CV && T[t].cv == cv) w.push_back(t); if (w.empty()) return; if (!all && w.size() > 1) { int k = (int)pickInt(uniq("wake"), 0, w.size() - 1); w = {w[k]}; } for (int t : w) T[t].st = LOCK; }
}
#else
// data-race replay: real threads under ThreadSanitizer
static thread_local int me = 0; static std::vector<std::thread*> TT(1); static int nt = 1; struct Slot { void (*fn)(void*) = nullptr; void* arg = nullptr; int tid = 0; bool busy = false; std::mutex m; std::condition_variable cv; }; static std::map<int, Slot*> slots; static std::vector<Slot*> ofTid(1);
static void thrReset() { for (auto* t : TT) if (t) { t->join(); delete t; } TT.assign(1, nullptr); ofTid.assign(1, nullptr); nt = 1; }
extern "C" {
void vp_sched(int) {} int vp_tid() { return me; } void vp_internal(int) {} void vp_hb(void*, int) {} void vp_atomic_mem(int) {} int vp_bits_eq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; } void vp_point() { if (rand() % 8 == 0) std::this_thread::yield(); }
int vp_spawn(void (*fn)(void*), void* arg, int slot) { int t = nt++; TT.push_back(nullptr); ofTid.push_back(nullptr);
    Slot* s = nullptr; if (slot) { Slot*& q = slots[slot]; if (!q) { q = new Slot; Slot* z = q; std::thread([z] { while (true) { { std::unique_lock<std::mutex> l(z->m); z->cv.wait(l, [z] { return z->fn && z->busy; }); } me = z->tid; z->fn(z->arg); std::unique_lock<std::mutex> l(z->m); z->fn = nullptr; z->busy = false; z->cv.notify_all(); } }).detach(); } s = q; std::unique_lock<std::mutex> l(s->m); s->fn = fn; s->arg = arg; s->tid = t; s->busy = true; s->cv.notify_all(); ofTid[t] = s; return t; }
    TT[t] = new std::thread([=] { me = t; fn(arg); }); return t; }
void vp_join(int t) { if (ofTid[t]) { Slot* s = ofTid[t]; std::unique_lock<std::mutex> l(s->m); s->cv.wait(l, [s] { return !s->busy; }); return; } TT[t]->join(); delete TT[t]; TT[t] = nullptr; }
static std::mutex CR; void vp_lock(void*) { CR.lock(); } void vp_unlock(void*) { CR.unlock(); } int vp_trylock(void*) { return CR.try_lock(); } void vp_cv_wait(void*, void*) {} void vp_cv_notify(void*, int) {}
__attribute__((weak)) unsigned vpt_hwc() { return 2; } __attribute__((weak)) void vpt_set_hwc(int) {}
extern "C" void __tsan_on_report(void*) { printf("FAIL label=data-race detail=ThreadSanitizer report\n"); fflush(stdout); }
}
#endif
// logging, progress display and floating-point trap switches: present only when the harness does not link the real ones
extern "C" {
extern "C" void vp_stub() {}
#define VP_NOP(n, sym) __attribute__((weak)) void n() __asm__(sym); void n() {}
VP_NOP(vpn_a, "_ZN2lm3log18update_indentationEi") VP_NOP(vpn_b, "_ZN2lm3log3logENS0_8LogLevelEiPKciS3_")
VP_NOP(vpn_c, "_ZN2lm9exception12enable_fpexEv") VP_NOP(vpn_d, "_ZN2lm9exception12disable_fpexEv")
VP_NOP(vpn_e, "_ZN2lm8progress5startENS0_12ProgressModeExd") VP_NOP(vpn_f, "_ZN2lm8progress3endEv") VP_NOP(vpn_g, "_ZN2lm8progress6updateEx") VP_NOP(vpn_h, "_ZN2lm8progress11update_timeEd")
}
static void onSig(int s) { printf("FAIL label=crash detail=signal %d\n", s); for (auto& [n, v] : used) printf("INPUT %s %.17g\n", n.c_str(), v); fflush(stdout); _exit(3); }
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
static void onAsan() { printf("FAIL label=crash detail=sanitizer\n"); for (auto& [n, v] : used) printf("INPUT %s %.17g\n", n.c_str(), v); fflush(stdout); }
int main(int argc, char** argv) {
    std::string entry = std::string("vp_h_") + argv[1]; 
    if (strcmp(argv[2], "-")) { FILE* f = fopen(argv[2], "r"); char a[512], b[512]; while (f && fscanf(f, "%511s %511s", a, b) == 2) model[a] = b; if (f) fclose(f); }
    rng.seed(atoll(argv[3])); int tries = atoi(argv[4]); int maxmode = argc > 5 ? atoi(argv[5]) : 2;
    signal(SIGSEGV, onSig); signal(SIGABRT, onSig); signal(SIGFPE, onSig);
    if (__asan_set_death_callback) __asan_set_death_callback(onAsan);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str()); if (!fn) { fprintf(stderr, "no entry\n"); return 2; }
    int skips = 0, ok = 0; bool trust = argc > 6 && atoi(argv[6]); (void)trust;
    for (int t = 0; t <= tries; t++) {
        mode = t == 0 ? 0 : (t % 3 ? 1 : 2); if (mode > maxmode) mode = maxmode; names.clear(); used.clear(); thrReset();
        std::string lab, det; bool bad = false;
        try { fn(); ok++; } catch (Skip&) { skips++; } catch (Fail& f) { bad = true; lab = f.label; det = f.detail; } catch (std::exception& e) { bad = true; lab = "uncaught-exception"; det = e.what(); } catch (...) { bad = true; lab = "uncaught-exception"; det = "?"; }
        if (bad && (t > 0 || !trust) && lab != "crash") {
            auto m0 = model; auto u0 = used; int m = mode, again = 0, fine = 0; for (auto& [n, v] : used) { char b[64]; snprintf(b, 64, "%.17g", v); model[n] = b; } mode = 3;
            for (int k = 0; k < 8; k++) { names.clear(); used.clear(); thrReset(); try { fn(); fine++; } catch (Skip&) {} catch (...) { again++; } }
            model = m0; used = u0; mode = m; if (again < 2 || fine > again) bad = false;
        }
        if (bad) { printf("FAIL label=%s detail=%s\n", lab.c_str(), det.c_str()); for (auto& [n, v] : used) printf("INPUT %s %.17g\n", n.c_str(), v); printf("TRY %d\n", t); fflush(stdout); _exit(3); }
    }
    printf("OK ran=%d skipped=%d\n", ok, skips); fflush(stdout); _exit(0);
}
// fresh memory holds a fixed pattern, so that a result depending on uninitialised memory is seen
#if !defined(VP_TSAN) && !__has_feature(address_sanitizer)
#include <new>
static void* vp_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x47, n); return p; }
void* operator new(size_t n) { return vp_new(n); } void* operator new[](size_t n) { return vp_new(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

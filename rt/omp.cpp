// Model of the OpenMP runtime entry points emitted for parallel regions, worksharing loops and critical sections.
// A region runs on omp_set_num_threads threads; worker k keeps its thread-local storage from region to region.
#include "thr.h"
extern "C" unsigned vpt_hwc();
namespace {
typedef long long ll;
struct Loop { bool init; ll lb, ub, st, chunk, next; };
struct Team { int n; void (*fn)(); int argc; void* args[24]; Loop loops[8]; int arrived; int gen; };
struct Work { Team* t; int idx; };
int g_n = 0; Team* teamOf[32]; int idxOf[32]; int loopNo[32]; char critical_lock;
void call(Team* t, int idx) {
    int gt = vp_tid(), bt = idx; int* g = &gt; int* b = &bt; void** a = t->args;
    typedef void* P;
    switch (t->argc) {
    case 0: ((void (*)(int*, int*))t->fn)(g, b); break; case 1: ((void (*)(int*, int*, P))t->fn)(g, b, a[0]); break; case 2: ((void (*)(int*, int*, P, P))t->fn)(g, b, a[0], a[1]); break; case 3: ((void (*)(int*, int*, P, P, P))t->fn)(g, b, a[0], a[1], a[2]); break;
    case 4: ((void (*)(int*, int*, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3]); break; case 5: ((void (*)(int*, int*, P, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3], a[4]); break; case 6: ((void (*)(int*, int*, P, P, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: ((void (*)(int*, int*, P, P, P, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break; case 8: ((void (*)(int*, int*, P, P, P, P, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 9: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
    case 10: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P))t->fn)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break; default: __builtin_trap(); }
}
void worker(void* p) { Work* w = (Work*)p; vp_internal(1); Team* t = w->t; int i = w->idx, me = vp_tid(); Team* ot = teamOf[me]; teamOf[me] = t; idxOf[me] = i; loopNo[me] = 0; vp_internal(0); call(t, i); vp_internal(1); teamOf[me] = ot; vp_internal(0); }
}
extern "C" {
int omp_get_thread_num(void) { vp_internal(1); int r = teamOf[vp_tid()] ? idxOf[vp_tid()] : 0; vp_internal(0); return r; }
int omp_get_num_threads(void) { vp_internal(1); Team* t = teamOf[vp_tid()]; int r = t ? t->n : 1; vp_internal(0); return r; }
int omp_get_max_threads(void) { return g_n > 0 ? g_n : (int)vpt_hwc(); }
int omp_get_num_procs(void) { return (int)vpt_hwc(); }
void omp_set_num_threads(int n) { g_n = n; }
void omp_set_dynamic(int) {}
int omp_in_parallel(void) { return teamOf[vp_tid()] != 0; }
int __kmpc_global_thread_num(void*) { return vp_tid(); }
void __kmpc_push_num_threads(void*, int, int n) { g_n = n; }
// called through a variadic prototype with argc trailing pointers
void __kmpc_fork_call(void*, int argc, void (*fn)(), void* a0, void* a1, void* a2, void* a3, void* a4, void* a5, void* a6, void* a7, void* a8, void* a9) {
    Team t = {}; t.n = omp_get_max_threads(); if (t.n > 8) t.n = 8; if (t.n < 1) t.n = 1; t.fn = fn; t.argc = argc; 
    if (argc > 0) t.args[0] = a0; if (argc > 1) t.args[1] = a1; if (argc > 2) t.args[2] = a2; if (argc > 3) t.args[3] = a3; if (argc > 4) t.args[4] = a4; if (argc > 5) t.args[5] = a5; if (argc > 6) t.args[6] = a6; if (argc > 7) t.args[7] = a7; if (argc > 8) t.args[8] = a8; if (argc > 9) t.args[9] = a9;
    if (teamOf[vp_tid()]) t.n = 1; // nested regions are serialised
    Work w[8]; int id[8]; Team* ot = teamOf[vp_tid()]; int oi = idxOf[vp_tid()], ol = loopNo[vp_tid()];
    for (int i = 0; i < t.n; i++) { w[i].t = &t; w[i].idx = i; }
    for (int i = 1; i < t.n; i++) id[i] = vp_spawn(worker, &w[i], 1000 + i);
    worker(&w[0]); for (int i = 1; i < t.n; i++) vp_join(id[i]);
    teamOf[vp_tid()] = ot; idxOf[vp_tid()] = oi; loopNo[vp_tid()] = ol;
}
void __kmpc_dispatch_init_8(void*, int, int, ll lb, ll ub, ll st, ll chunk) { vp_internal(1); int me = vp_tid(); Loop& l = teamOf[me]->loops[loopNo[me]]; if (!l.init) { l.init = true; l.lb = lb; l.ub = ub; l.st = st; l.chunk = chunk < 1 ? 1 : chunk; l.next = lb; } vp_internal(0); }
int __kmpc_dispatch_next_8(void*, int, int* last, ll* lb, ll* ub, ll* st) {
    vp_point(); vp_internal(1); int me = vp_tid(); Loop& l = teamOf[me]->loops[loopNo[me]]; int r = 0;
    if (l.st > 0 ? l.next <= l.ub : l.next >= l.ub) { *lb = l.next; ll e = l.next + l.st * (l.chunk - 1); if (l.st > 0 ? e > l.ub : e < l.ub) e = l.ub; *ub = e; *st = l.st; l.next = e + l.st; if (last) *last = e == l.ub; r = 1; } else loopNo[me]++;
    vp_internal(0); return r; }
void __kmpc_dispatch_init_8u(void* a, int b, int c, ll lb, ll ub, ll st, ll ch) { __kmpc_dispatch_init_8(a, b, c, lb, ub, st, ch); }
int __kmpc_dispatch_next_8u(void* a, int b, int* c, ll* lb, ll* ub, ll* st) { return __kmpc_dispatch_next_8(a, b, c, lb, ub, st); }
void __kmpc_dispatch_init_4(void* a, int b, int c, int lb, int ub, int st, int ch) { __kmpc_dispatch_init_8(a, b, c, lb, ub, st, ch); }
int __kmpc_dispatch_next_4(void* a, int b, int* c, int* lb, int* ub, int* st) { ll l, u, s; int r = __kmpc_dispatch_next_8(a, b, c, &l, &u, &s); if (r) { *lb = (int)l; *ub = (int)u; *st = (int)s; } return r; }
void __kmpc_dispatch_fini_8(void*, int) {} void __kmpc_dispatch_deinit(void*, int) {}
void __kmpc_for_static_init_8(void*, int, int sched, int* last, ll* lo, ll* up, ll* stride, ll incr, ll chunk) {
    vp_internal(1); int me = vp_tid(); Team* t = teamOf[me]; ll n = t ? t->n : 1, i = t ? idxOf[me] : 0, L = *lo, U = *up, cnt = incr > 0 ? (U - L) / incr + 1 : (L - U) / (-incr) + 1; if (incr > 0 ? U < L : L < U) cnt = 0;
    if (sched == 33) { if (chunk < 1) chunk = 1; ll span = chunk * incr; *stride = span * n; *lo = L + span * i; *up = *lo + span - incr; if (last) *last = cnt > 0 && i == ((cnt - 1) / chunk) % n; }
    else { ll per = cnt / n, ex = cnt % n, s = i * per + (i < ex ? i : ex), k = per + (i < ex ? 1 : 0); *lo = L + s * incr; *up = *lo + (k - 1) * incr; *stride = cnt * incr; if (last) *last = k > 0 && s + k == cnt; }
    vp_internal(0); }
void __kmpc_for_static_init_4(void* a, int b, int sched, int* last, int* lo, int* up, int* stride, int incr, int chunk) { ll l = *lo, u = *up, s = *stride; __kmpc_for_static_init_8(a, b, sched, last, &l, &u, &s, incr, chunk); *lo = (int)l; *up = (int)u; *stride = (int)s; }
void __kmpc_for_static_fini(void*, int) {}
void __kmpc_critical(void*, int, void*) { vp_lock(&critical_lock); }
void __kmpc_end_critical(void*, int, void*) { vp_unlock(&critical_lock); }
void __kmpc_barrier(void*, int) { vp_lock(&critical_lock); Team* t = teamOf[vp_tid()]; if (t) { int g = t->gen; if (++t->arrived == t->n) { t->arrived = 0; t->gen++; vp_cv_notify(&t->arrived, 1); } else while (t->gen == g) vp_cv_wait(&t->arrived, &critical_lock); } vp_unlock(&critical_lock); }
}

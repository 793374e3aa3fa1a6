// Targets of the calls that `vpsym --instrument` redirects (mutexes, std::thread, condition variables, wide atomics).
#include <thread>
#include <mutex>
#include <condition_variable>
#include <cstring>
#include "thr.h"
extern "C" {
int vpt_lock(void* m) { vp_lock(m); return 0; }
int vpt_unlock(void* m) { vp_unlock(m); return 0; }
int vpt_trylock(void* m) { return vp_trylock(m) ? 0 : 16; }
struct VptState { virtual ~VptState(); virtual void run(); }; // same vtable layout as std::thread::_State
static void vpt_run(void* p) { auto* s = (VptState*)p; s->run(); delete s; }
void vpt_thread_start(std::thread* t, void** s, void (*)()) { void* q = *s; *s = nullptr; int id = vp_spawn(vpt_run, q, 0); *(unsigned long*)t = (unsigned long)id + 1; }
void vpt_thread_join(std::thread* t) { unsigned long* p = (unsigned long*)t; vp_join((int)*p - 1); *p = 0; }
unsigned vpt_hwc_n = 2;
unsigned vpt_hwc() { return vpt_hwc_n; }
void vpt_set_hwc(int n) { vpt_hwc_n = n; }
void vpt_cv_nop(void*) {}
void vpt_cv_wait(void* cv, std::unique_lock<std::mutex>* lk) { vp_point(); vp_cv_wait(cv, lk->mutex()->native_handle()); }
void vpt_cv_all(void* cv) { vp_cv_notify(cv, 1); }
void vpt_cv_one(void* cv) { vp_cv_notify(cv, 0); }
// locations wider than the machine's atomics (order argument ignored: sequentially consistent)
void vpt_atomic_load(size_t n, void* src, void* dst, int) { vp_point(); vp_atomic_mem(1); vp_hb(src, 1); char tmp[64]; memcpy(tmp, src, n); vp_atomic_mem(0); memcpy(dst, tmp, n); }
void vpt_atomic_store(size_t n, void* dst, void* src, int) { char tmp[64]; memcpy(tmp, src, n); vp_point(); vp_atomic_mem(1); memcpy(dst, tmp, n); vp_atomic_mem(0); vp_hb(dst, 2); }
void vpt_atomic_exchange(size_t n, void* p, void* v, void* ret, int) { char a[64], b[64]; memcpy(a, v, n); vp_point(); vp_atomic_mem(1); vp_hb(p, 1); memcpy(b, p, n); memcpy(p, a, n); vp_atomic_mem(0); vp_hb(p, 2); memcpy(ret, b, n); }
bool vpt_atomic_cas(size_t n, void* p, void* exp, void* des, int, int) {
    char e[64], d[64], o[64]; memcpy(e, exp, n); memcpy(d, des, n); vp_point(); vp_atomic_mem(1); vp_hb(p, 1); memcpy(o, p, n); bool eq = vp_bits_eq(o, e, n); if (eq) { memcpy(p, d, n); vp_hb(p, 2); } vp_atomic_mem(0);
    if (!eq) memcpy(exp, o, n); return eq; }
}

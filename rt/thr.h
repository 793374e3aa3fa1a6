// Threading primitives: interpreted by the engine in the symbolic run, implemented by rt/native.cpp in the replay.
#pragma once
#include <cstddef>
extern "C" {
void vp_sched(int preemptions);          // bound on preemptive context switches
int vp_spawn(void (*fn)(void*), void* arg, int slot); // new thread; threads of one (non-zero) slot share thread-local storage
void vp_join(int tid); int vp_tid(); void vp_point();
void vp_lock(void*); int vp_trylock(void*); void vp_unlock(void*);
void vp_cv_wait(void* cv, void* m); void vp_cv_notify(void* cv, int all);
void vp_internal(int on);                // accesses of the runtime itself: not checked for races
void vp_hb(void* addr, int k);           // happens-before: 1 acquire, 2 release, 3 both
void vp_atomic_mem(int on);
int vp_bits_eq(const void*, const void*, size_t);
}

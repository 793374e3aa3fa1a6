// Harness interface. In the symbolic run these functions are interpreted by the engine; in the
// native replay they are implemented by rt/native.cpp, which feeds the solver's assignment.
#pragma once
extern "C" {
double vp_real(const char* name);                       // arbitrary real (R mode) / double (F mode)
double vp_real_in(const char* name, double lo, double hi); // arbitrary real in [lo,hi]
float vp_float(const char* name);
int vp_int(const char* name, int lo, int hi);           // arbitrary int in [lo,hi]
long long vp_i64(const char* name);
unsigned char vp_u8(const char* name);
bool vp_bool(const char* name);
int vp_choice(const char* name, int n);                 // arbitrary value in [0,n), explored by forking
void vp_unit3(const char* name, double* xyz);           // arbitrary unit vector
void vp_sqrule(double v, double rhs);                   // input v satisfies v*v == rhs
void vp_assume(bool);
void vp_assert(bool, const char* label);
void vp_assert_eq(double a, double b, const char* label);
void vp_assert_le(double a, double b, const char* label);
double vp_diff(double y, double x);                       // symbolic run only: d y / d x for input x
void vp_assert_near(double a, double b, double reltol, const char* label); // equality; reltol only for native replay
void vp_reach(const char* label);
void vp_divcheck(int on);                               // report division by zero / sqrt of negatives
void vp_itemode(int on);
bool vp_close(double a, double b);                       // equal; in the native replay equal up to rounding
double vp_rng(int k);                                  // k-th number drawn from the random number generator, -1 if none
void vp_sched(int preemptions);                          // bound on preemptive context switches
void vpt_set_hwc(int n);                                // value of std::thread::hardware_concurrency
int vp_finite(double);
void vp_end();
int vp_is_symbolic_run();
int vp_is_concrete(double);
int vp_is_concrete_int(long);
void vp_num_text(char* out, double v);                   // writes v as text that reads back as v
void vp_int_text(char* out, int v);
void vp_print(const char*, double);
void vp_print_i(const char*, long);
}
#define VP_ENTRY(name) extern "C" void vp_h_##name()

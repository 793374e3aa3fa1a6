// Native replay only: overrides the random number generator so that the solver's values are replayed,
// and silences logging.
#include <pch.h>
#include <lm/math.h>
#include <lm/logger.h>
extern "C" double vp_native_rng(); extern "C" int vp_native_rngi();
namespace lm { namespace detail {
extern double vp_rng_u(RngImplBase*) __asm__("_ZN2lm6detail11RngImplBase1uEv");
double vp_rng_u(RngImplBase*) { return vp_native_rng(); }
extern int vp_rng_i(RngImplBase*) __asm__("_ZN2lm6detail11RngImplBase5u_intEv");
int vp_rng_i(RngImplBase*) { return vp_native_rngi(); }
}}

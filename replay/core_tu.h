#ifdef MODE_CAPI
#include "c_bindings/c_wrapper.cpp"
#else
#include "verifier.h"
#include "prover_slow.h"
#endif

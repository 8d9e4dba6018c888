#include "verifier.h"
#include "prover_slow.h"
// odr-use, so that the inline members are emitted
auto use_inverse = &form::inverse;
auto use_generator = &form::generator;
auto use_assert = &form::assert_valid;
auto use_check = &form::check_valid;

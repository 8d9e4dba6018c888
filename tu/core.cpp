#include "verifier.h"
#include "prover_slow.h"

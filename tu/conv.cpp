#include "verifier.h"
#include "prover_slow.h"
// odr-use, so that the inline members are emitted
void use_conv(const integer& a, std::vector<uint8_t>& b, std::vector<uint64>& w, const std::string& s) {
    integer x(b), y(w), z(s), q(b.data(), b.size()); a.to_bytes(); a.to_vector(); a.to_string();
    VectorAppend(b, b); VectorAppendArray(b, b.data(), b.size()); Proof(b, b).hex();
}

// The library called directly, with plain C signatures: what the Python bindings must agree with.
#include "verifier.h"
#include "prover_slow.h"
#include <cstring>
typedef const uint8_t* B;
// every call: 0..n = answer, -1 = standard exception
extern "C" {
static std::vector<uint8_t> vec(B p, size_t n) { return std::vector<uint8_t>(p, p + n); }
static int out(const std::string& s, char* o, size_t cap) { if (s.size() >= cap) return -2; memcpy(o, s.data(), s.size()); return (int)s.size(); }
static std::string str(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
static std::string dec(const integer& x) { char* c = mpz_get_str(nullptr, 16, x.impl); std::string s(c); free(c); return s[0] == 0x2d ? "-0x" + s.substr(1) : "0x" + s; }
static std::string sgn_be(const integer& x) { std::string s(1, mpz_sgn(x.impl) < 0 ? '\1' : '\0'); std::string m((mpz_sizeinbase(x.impl, 2) + 7) / 8, '\0'); size_t n = 0; mpz_export(&m[0], &n, 1, 1, 0, 0, x.impl); return s + m.substr(0, n); }
int l_create(B s, size_t n, int bits, char* o, size_t cap) { std::vector<uint8_t> v; try { return (v = vec(s, n), out(dec(CreateDiscriminant(v, bits)), o, cap)); } catch (std::exception&) { return -1; } }
static integer Z(const char* s) { integer r; mpz_set_str(r.impl, s, 0); return r; }
int l_verify1(const char* D, B x, size_t xn, B y, size_t yn, B p, size_t pn, uint64_t it) { try { integer d = Z(D); form X = DeserializeForm(d, x, xn), Y = DeserializeForm(d, y, yn), P = DeserializeForm(d, p, pn); bool ok = false; VerifyWesolowskiProof(d, X, Y, P, it, ok); return ok; } catch (std::exception&) { return -1; } }
int l_verify(const char* D, B x, B p, size_t pn, uint64_t it, uint64_t bits, uint64_t depth) { try { return CheckProofOfTimeNWesolowski(Z(D), x, p, pn, it, bits, depth); } catch (std::exception&) { return -1; } }
int l_seedverify(B s, size_t n, int bits, B x, B p, size_t pn, uint64_t it, uint64_t depth) { try { auto v = vec(s, n); return CreateDiscriminantAndCheckProofOfTimeNWesolowski(v, bits, x, p, pn, it, depth); } catch (std::exception&) { return -1; } }
int l_withb(const char* D, const char* b, B x, B p, size_t pn, uint64_t it, uint64_t depth, int* ok, char* o, size_t cap) { try { auto r = CheckProofOfTimeNWesolowskiWithB(Z(D), Z(b), x, p, pn, it, depth); *ok = r.first; return out(str(r.second), o, cap); } catch (std::exception&) { return -1; } }
int l_getb(const char* D, B x, B p, size_t pn, uint64_t it, uint64_t depth, char* o, size_t cap) { try { return out(dec(GetBFromProof(Z(D), x, p, pn, it, depth)), o, cap); } catch (std::exception&) { return -1; } }
int l_prove(B s, size_t n, B x, size_t xn, int bits, uint64_t it, const char* path, char* o, size_t cap) { try { auto v = vec(s, n); integer d = CreateDiscriminant(v, bits); form f = DeserializeForm(d, x, xn); return out(str(ProveSlow(d, f, it, path)), o, cap); } catch (std::exception&) { return -1; } }
int l_deser(const char* D, B x, size_t xn, int strict, char* a, size_t* an, char* b, size_t* bn, size_t cap) { try { form f = DeserializeForm(Z(D), x, xn, strict != 0); *an = out(sgn_be(f.a), a, cap); *bn = out(sgn_be(f.b), b, cap); return 0; } catch (std::exception&) { return -1; } }
}

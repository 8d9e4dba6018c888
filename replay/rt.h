// Shared runtime of the replay harnesses: deterministic generator, case recording, crash reporting.
#pragma once
#include "oracle.h"
#include <csignal>
#include <unistd.h>
#include <ctime>
#include <set>
#include <random>
#include <functional>
#include <sstream>
extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));
namespace R {
inline char cur[1 << 16];
inline bool active = false;       // a case is running on the real code
inline uint64_t ncases = 0; inline std::set<uint64_t> seen; inline std::vector<std::string> samples;
inline std::mt19937_64 g(1);
inline double deadline = 1e18;
inline unsigned case_alarm = 120;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool time_left() { return now() < deadline; }
inline uint64_t rnd(uint64_t n) { return n ? g() % n : 0; }
inline uint64_t hash(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }
inline void write_str(const char* s) { ssize_t r = ::write(1, s, strlen(s)); (void)r; }
inline void on_signal(int s) {
    if (!active) { write_str("HARNESS-ERROR\n"); _exit(4); }
    char b[64]; snprintf(b, sizeof b, "\nFAIL crash signal=%d%s\nINPUT ", s, s == SIGALRM ? " (no answer)" : "");
    write_str(b); write_str(cur); write_str("\n"); alarm(10); signal(SIGALRM, SIG_DFL); if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace(); _exit(3);
}
// announce the case about to run
inline void begin(const std::string& d) {
    strncpy(cur, d.c_str(), sizeof cur - 1);
    ncases++; active = true;
    uint64_t h = hash(cur);
    if (seen.size() < 2000000 && seen.insert(h).second && (samples.size() < 4 || ((h & 1023) == 0 && samples.size() < 8))) samples.push_back(d.substr(0, 400));
    alarm(case_alarm);
}
[[noreturn]] inline void fail(const std::string& what) {
    printf("\nFAIL %s\nINPUT %s\n", what.c_str(), cur); fflush(stdout); _exit(3);
}
inline void expect(bool c, const std::string& what) { if (!c) fail(what); }
inline void done() {
    alarm(0);
    printf("CASES %llu\nDISTINCT %zu\n", (unsigned long long)ncases, seen.size());
    for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
    fflush(stdout);
}
inline void start(int argc, char** argv) {          // seed, seconds
    g.seed(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    deadline = now() + (argc > 2 ? atof(argv[2]) : 20);
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGALRM, SIGBUS, SIGILL}) signal(s, on_signal);
    std::set_terminate([] { on_signal(SIGABRT); });
}
inline O::Z zrand(int bits) { active = false; O::Z r = 0; for (int i = 0; i < bits; i += 32) r = (r << 32) + (unsigned long)(g() & 0xffffffff); r >>= (r == 0 ? 0 : std::max(0, (int)mpz_sizeinbase(r.get_mpz_t(), 2) - bits)); return r; }
inline O::Bytes brand(size_t n) { active = false; O::Bytes b(n); for (auto& c : b) c = (uint8_t)g(); return b; }
inline O::Z prime_disc(int bits) {           // -p, p = 7 mod 8
    O::Z p = zrand(bits); mpz_setbit(p.get_mpz_t(), bits - 1);
    for (;;) { mpz_nextprime(p.get_mpz_t(), p.get_mpz_t()); if (p % 8 == 7) { if (O::bits(p) == bits) return -p; p = O::Z(1) << (bits - 1); } }
}
inline O::Z comp_disc(int bits) {            // -(p1 p2 [p3]) = 1 mod 8, squarefree
    for (;;) {
        O::Z p = 3, q;
        int k = 2 + rnd(2); O::Z n = 1; int left = bits;
        std::set<std::string> u; bool ok = true;
        for (int i = 0; i < k; i++) { int b = i == k - 1 ? left : std::max(2, (int)rnd(left / 2 + 1)); O::Z x = zrand(b); mpz_setbit(x.get_mpz_t(), b - 1); mpz_nextprime(x.get_mpz_t(), x.get_mpz_t()); ok &= x != 2 && u.insert(x.get_str()).second; n *= x; left -= b - 1; if (left < 3) left = 3; }
        if (ok && n % 8 == 7 && O::bits(n) <= 1024 && n > 15) return -n;
    }
}
inline O::F prime_form(const O::Z& D, long from) {  // (p, b, c) for the first odd prime p >= from with (D/p) = 1
    for (O::Z p = from;; ) {
        mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
        if (p == 2 || mpz_jacobi(D.get_mpz_t(), p.get_mpz_t()) != 1) continue;
        O::Z d = O::fmod_(D, p);
        for (O::Z b = 1; b < p; b += 1) if (b * b % p == d) { if (b % 2 == 0) b = p - b; return O::reduce(O::from_ab(p, b, D)); }
    }
}
inline O::F ambiguous(const O::Z& D) {       // form (k,k,*) for a small odd divisor k of D, or the identity
    for (int k : {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (D % k == 0 && D % (k * k) != 0) return O::reduce(O::from_ab(k, k, D));
    return O::one(D);
}
inline O::F any_form(const O::Z& D) {
    active = false;
    switch (rnd(12)) {
        case 0: return O::one(D);
        case 1: return O::gen(D);
        case 2: return O::inv(O::gen(D));
        case 3: return ambiguous(D);
        case 4: return prime_form(D, 2 + rnd(60));
        case 5: return O::mul(prime_form(D, 2 + rnd(30)), prime_form(D, 2 + rnd(30)));
        case 6: return O::mul(ambiguous(D), O::gen(D));
        case 7: return O::pow(O::gen(D), O::Z((unsigned long)rnd(200)), D);
        default: return O::pow(rnd(2) ? O::gen(D) : prime_form(D, 2 + rnd(30)), zrand(1 + rnd(80)), D);
    }
}
inline O::Z order(const O::F& x, const O::Z& D, long lim) { O::F y = x; long n = 1; O::F e = O::one(D); while (!(y == e)) { if (n >= lim) return 0; y = O::mul(y, x); n++; } return n; }
inline std::string dec(const O::Z& z) { return z.get_str(); }
}
using R::begin; using R::expect; using R::fail; using R::rnd;

// Independent reference implementation used when replaying obligations on the real code:
// textbook composition/reduction of binary quadratic forms, SHA-256, hash-to-prime, the 100-byte
// format, and the n-Wesolowski relation. Uses only GMP; nothing from /repo.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <optional>
namespace O {
typedef mpz_class Z;
typedef std::vector<uint8_t> Bytes;
struct F { Z a, b, c; bool operator==(const F& o) const { return a == o.a && b == o.b && c == o.c; } bool operator!=(const F& o) const { return !(*this == o); } };
inline Z fdiv(const Z& x, const Z& y) { Z q; mpz_fdiv_q(q.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return q; }
inline Z fmod_(const Z& x, const Z& y) { Z q; mpz_fdiv_r(q.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return q; }
inline F reduce(F f) {
    auto norm = [&]() { Z r = fdiv(f.a - f.b, 2 * f.a); f.c = f.a * r * r + f.b * r + f.c; f.b = f.b + 2 * r * f.a; };
    norm();
    while (f.a > f.c || (f.a == f.c && f.b < 0)) { std::swap(f.a, f.c); f.b = -f.b; norm(); }
    return f;
}
inline bool is_reduced(const F& f) { return f.a > 0 && abs(f.b) <= f.a && f.a <= f.c && !((f.b < 0) && (abs(f.b) == f.a || f.a == f.c)); }
inline Z gcd_ab(const F& f) { Z g; mpz_gcd(g.get_mpz_t(), f.a.get_mpz_t(), f.b.get_mpz_t()); return g; }
inline Z disc(const F& f) { return f.b * f.b - 4 * f.a * f.c; }
inline F from_ab(const Z& a, const Z& b, const Z& D) { return F{a, b, (b * b - D) / (4 * a)}; }
inline F one(const Z& D) { Z b = fmod_(D, 2); return from_ab(1, b, D); }
inline F gen(const Z& D) { return reduce(from_ab(2, 1, D)); }
inline F inv(const F& f) { return reduce(F{f.a, -f.b, f.c}); }
inline F mul(const F& f, const F& g) {            // Cohen, Algorithm 5.4.7
    Z D = disc(f);
    Z a1 = f.a, b1 = f.b, a2 = g.a, b2 = g.b, c2 = g.c;
    if (a1 > a2) { std::swap(a1, a2); std::swap(b1, b2); c2 = f.c; }
    Z s = (b1 + b2) / 2, n = b2 - s, y1, d, y2, x2, d1;
    if (a2 % a1 == 0) { y1 = 0; d = a1; }
    else { Z u, v; mpz_gcdext(d.get_mpz_t(), u.get_mpz_t(), v.get_mpz_t(), a2.get_mpz_t(), a1.get_mpz_t()); y1 = u; }
    if (s % d == 0) { y2 = -1; x2 = 0; d1 = d; }
    else { Z x, y; mpz_gcdext(d1.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t(), s.get_mpz_t(), d.get_mpz_t()); x2 = x; y2 = -y; }
    Z v1 = a1 / d1, v2 = a2 / d1, r = fmod_(y1 * y2 * n - x2 * c2, v1);
    Z b3 = b2 + 2 * v2 * r, a3 = v1 * v2;
    return reduce(from_ab(a3, b3, D));
}
inline F pow(F x, Z n, const Z& D) {
    if (n < 0) { x = inv(x); n = -n; }
    F r = one(D);
    for (long i = (long)mpz_sizeinbase(n.get_mpz_t(), 2) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(n.get_mpz_t(), i)) r = mul(r, x); }
    return r;
}
// ---------------------------------------------------------------- SHA-256 (FIPS 180-4)
inline Bytes sha256(const Bytes& m) {
    static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    Bytes p = m; p.push_back(0x80); while (p.size() % 64 != 56) p.push_back(0);
    uint64_t bl = (uint64_t)m.size() * 8; for (int i = 7; i >= 0; i--) p.push_back((uint8_t)(bl >> (8 * i)));
    auto R = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[o+4*i] << 24 | (uint32_t)p[o+4*i+1] << 16 | (uint32_t)p[o+4*i+2] << 8 | p[o+4*i+3];
        for (int i = 16; i < 64; i++) w[i] = w[i-16] + w[i-7] + (R(w[i-15],7) ^ R(w[i-15],18) ^ (w[i-15] >> 3)) + (R(w[i-2],17) ^ R(w[i-2],19) ^ (w[i-2] >> 10));
        uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],k=h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = k + (R(e,6)^R(e,11)^R(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i], t2 = (R(a,2)^R(a,13)^R(a,22)) + ((a&b)^(a&c)^(b&c));
            k=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
        }
        h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=k;
    }
    Bytes r; for (int i = 0; i < 8; i++) for (int j = 3; j >= 0; j--) r.push_back((uint8_t)(h[i] >> (8 * j)));
    return r;
}
inline Z be(const uint8_t* p, size_t n) { Z r = 0; for (size_t i = 0; i < n; i++) r = r * 256 + p[i]; return r; }
inline Z le(const uint8_t* p, size_t n) { Z r = 0; for (size_t i = n; i-- > 0;) r = r * 256 + p[i]; return r; }
inline bool prime(const Z& n) { return n > 1 && mpz_probab_prime_p(n.get_mpz_t(), 30) != 0; }
inline Z hash_prime(Bytes seed, int bits, const std::vector<int>& mask) {
    for (;;) {
        Bytes blob;
        while ((int)blob.size() * 8 < bits) {
            for (size_t i = seed.size(); i-- > 0;) { seed[i] = (uint8_t)(seed[i] + 1); if (seed[i]) break; }
            Bytes h = sha256(seed);
            for (int i = 0; i < 32 && (int)blob.size() * 8 < bits; i++) blob.push_back(h[i]);
        }
        Z p = be(blob.data(), blob.size());
        for (int b : mask) mpz_setbit(p.get_mpz_t(), b);
        mpz_setbit(p.get_mpz_t(), 0);
        if (prime(p)) return p;
    }
}
inline int bits(const Z& x) { return x == 0 ? 1 : (int)mpz_sizeinbase(x.get_mpz_t(), 2); }
// ---------------------------------------------------------------- 100-byte format
inline void put_le(Bytes& o, size_t off, size_t n, const Z& v) { Z x = v; for (size_t i = 0; i < n; i++) { Z r = x % 256; o.at(off + i) = (uint8_t)r.get_ui(); x /= 256; } if (x != 0) throw std::runtime_error("field too small"); }
// cofactor t of a Euclidean remainder of (a,|b|) that is <= sqrt(a): a*x + |b|*t = r. Of the remainders below
// the bound the format takes the first one, except that the 64-bit Lehmer rounds it prescribes compare leading
// words only and may go one quotient further; the rounds are reproduced here (step = one exact quotient or the
// 2x2 matrix of the quotients that are certain from the leading words).
inline int64_t word(const Z& x, long sh) { Z y = x >> sh; uint64_t w = 0; y &= Z("18446744073709551615"); w = y.get_ui(); return (int64_t)w; }
inline Z cofactor(const Z& a, const Z& b) {
    Z L = sqrt(a), r0 = a, r1 = abs(b), t0 = 0, t1 = 1;      // t with r = .. + t*|b|
    while (r1 != 0 && r1 > L) {
        long sh = std::max<long>(0, (long)std::max(mpz_sizeinbase(r0.get_mpz_t(), 2), mpz_sizeinbase(r1.get_mpz_t(), 2)) - 63);
        int64_t x = word(r0, sh), y = word(r1, sh), bb = word(L, sh); int64_t A = 1, B = 0, C = 0, Dd = 1; int n = 0;   // r0' = A r0 + B r1, r1' = C r0 + D r1
        for (; y != 0 && y > bb; n++) {
            int64_t q = x / y, t = x - q * y, E = A - q * C, G = B - q * Dd;
            if (n & 1) { if (t < -E || y - t < G - Dd) break; } else { if (t < -G || y - t < E - C) break; }
            x = y; y = t; A = C; C = E; B = Dd; Dd = G;
        }
        if (n == 0) { Z q = r0 / r1, r = r0 - q * r1, t = t0 - q * t1; r0 = r1; r1 = r; t0 = t1; t1 = t; }
        else { Z u = A * r0 + B * r1, v = C * r0 + Dd * r1, s = A * t0 + B * t1, t = C * t0 + Dd * t1; r0 = u; r1 = v; t0 = s; t1 = t; if (r1 < 0) { r1 = -r1; t1 = -t1; } if (r0 < 0) { r0 = -r0; t0 = -t0; } }
    }
    // defining properties, whatever the rounds were
    Z k = t1 * abs(b) - r1; if (r1 < 0 || r1 > L || fmod_(k, a) != 0) throw std::logic_error("cofactor");
    return t1;
}
inline Bytes ser(F f, int dbits) {
    f = reduce(f);
    Bytes o(100, 0);
    if (f.b == 1 && f.a <= 2) { o[0] = f.a == 2 ? 8 : 4; return o; }
    size_t d = (dbits + 31) / 32 * 32;
    Z t, g, a1, b0; bool sg = f.b < 0;
    if (f.a == f.b) { a1 = f.a; t = 0; g = 0; b0 = 0; sg = false; }
    else {
        t = cofactor(f.a, f.b); g = gcd(f.a, t); if (g < 0) g = -g;
        a1 = f.a; b0 = 0;
        if (g != 1) { a1 = f.a / g; t = t / g; b0 = abs(f.b) / a1; }
    }
    size_t gs = (g == 0 ? 1 : (mpz_sizeinbase(g.get_mpz_t(), 2) + 7) / 8) - 1;
    o[0] = (sg ? 1 : 0) | (t < 0 ? 2 : 0); o[1] = (uint8_t)gs;
    size_t off = 2;
    put_le(o, off, d / 16 - gs, a1); off += d / 16 - gs;
    put_le(o, off, d / 32 - gs, abs(t)); off += d / 32 - gs;
    put_le(o, off, gs + 1, g); off += gs + 1;
    put_le(o, off, gs + 1, b0);
    return o;
}
// decoded reduced form, or nothing if the bytes are not acceptable
inline std::optional<F> deser(const Z& D, const uint8_t* s, bool strict = false) {
    int db = bits(D);
    Z a, b;
    if (s[0] & 12) { a = s[0] & 8 ? 2 : 1; b = 1; }
    else {
        size_t d = (db + 31) / 32 * 32, gs = s[1];
        if (d > 1024 || gs >= d / 32) return {};
        size_t off = 2;
        Z a1 = le(s + off, d / 16 - gs); off += d / 16 - gs;
        Z t = le(s + off, d / 32 - gs); off += d / 32 - gs;
        Z g = le(s + off, gs + 1); off += gs + 1;
        Z b0 = le(s + off, gs + 1);
        if (s[0] & 2) t = -t;
        if (t == 0) { a = a1; b = a1; }
        else {
            if (a1 == 0) return {};
            Z tt = t < 0 ? Z(t + a1) : t, ti, gg;
            if (gcd(tt, a1) != 1) return {};
            if (!mpz_invert(ti.get_mpz_t(), tt.get_mpz_t(), a1.get_mpz_t())) ti = 0;
            Z x = fmod_(fmod_(t * t, a1) * fmod_(D, a1), a1);
            if (!mpz_perfect_square_p(x.get_mpz_t())) return {};
            b = fmod_(sqrt(x) * ti, a1);
            a = g > 1 ? Z(a1 * g) : a1;
            b += a1 * b0;
            if (s[0] & 1) b = -b;
            if (strict && abs(b) > a) return {};
        }
        // canonical: encoding the decoded pair gives the same bytes (the pair itself, not its reduction)
        if (a <= 0) return {};
        Bytes o(100, 0);
        try {
            if (b == 1 && a <= 2) o[0] = a == 2 ? 8 : 4;
            else {
                Z tq, gq, aq, bq; bool sg = b < 0;
                if (a == b) { aq = a; tq = 0; gq = 0; bq = 0; sg = false; }
                else { tq = cofactor(a, b); gq = gcd(a, tq); aq = a; bq = 0; if (gq != 1) { aq = a / gq; tq = tq / gq; bq = abs(b) / aq; } }
                size_t gz = (gq == 0 ? 1 : (mpz_sizeinbase(gq.get_mpz_t(), 2) + 7) / 8) - 1;
                if (gz >= d / 32) return {};
                o[0] = (sg ? 1 : 0) | (tq < 0 ? 2 : 0); o[1] = (uint8_t)gz;
                size_t of = 2;
                put_le(o, of, d / 16 - gz, aq); of += d / 16 - gz; put_le(o, of, d / 32 - gz, abs(tq)); of += d / 32 - gz;
                put_le(o, of, gz + 1, gq); of += gz + 1; put_le(o, of, gz + 1, bq);
            }
        } catch (std::runtime_error&) { return {}; }
        if (memcmp(o.data(), s, 100)) return {};
    }
    if (a <= 0) return {};
    Z n = b * b - D;
    if (n % (4 * a) != 0) return {};
    return reduce(F{a, b, n / (4 * a)});
}
inline Z challenge(const Z& D, const F& x, const F& y) {
    Bytes m = ser(x, bits(D)), n = ser(y, bits(D)); m.insert(m.end(), n.begin(), n.end());
    return hash_prime(m, 264, {263});
}
inline Z discriminant(const Bytes& seed, int len) { return -hash_prime(seed, len, {0, 1, 2, len - 1}); }
inline Z pow2mod(uint64_t it, const Z& B) { Z r, two = 2, e; mpz_import(e.get_mpz_t(), 1, -1, 8, 0, 0, &it); mpz_powm(r.get_mpz_t(), two.get_mpz_t(), e.get_mpz_t(), B.get_mpz_t()); return r; }
struct Chain { bool ok = false; F x; uint64_t it = 0; };
// the segments after the first `base` bytes
inline Chain walk(const Z& D, const uint8_t* xs, const Bytes& p, size_t base, uint64_t it, uint64_t depth, bool check) {
    Chain r;
    auto x = deser(D, xs);
    if (!x) return r;
    r.x = *x; r.it = it;
    for (uint64_t k = 0; k < depth; k++) {
        const uint8_t* s = p.data() + p.size() - 141 * (k + 1);
        uint64_t si = be(s, 8).get_ui();
        Z B = be(s + 8, 33);
        auto pf = deser(D, s + 41);
        if (!pf || B == 0) return r;
        F y = mul(pow(*pf, B, D), pow(r.x, pow2mod(si, B), D));
        if (check && challenge(D, r.x, y) != B) return r;
        if (si > r.it) return r;
        r.it -= si; r.x = y;
    }
    r.ok = true;
    return r;
}
inline bool in_range(const Z& D) { return D < 0 && bits(D) <= 1024; }
inline bool verify(const Z& D, const uint8_t* xs, const Bytes& p, uint64_t it, uint64_t dsb, uint64_t depth) {
    if (dsb == 0 || dsb > 1024 || !in_range(D) || !xs) return false;
    if (depth > (1ull << 40) || p.size() != 200 + 141 * depth) return false;
    Chain c = walk(D, xs, p, 200, it, depth, true);
    if (!c.ok) return false;
    auto y = deser(D, p.data()), pf = deser(D, p.data() + 100);
    if (!y || !pf) return false;
    Z B = challenge(D, c.x, *y);
    return mul(pow(*pf, B, D), pow(c.x, pow2mod(c.it, B), D)) == *y;
}
// prover: proof of x^(2^T) by the definition
inline F square_times(F x, uint64_t T) { while (T--) x = mul(x, x); return x; }
inline F wesolowski(const Z& D, const F& x, const F& y, uint64_t T) {
    Z B = challenge(D, x, y), q = (Z(1) << T) / B;
    return pow(x, q, D);
}
inline void append(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
// a chain proof with the given segment lengths (first segment first); the last one is the final y|proof
inline Bytes prove_chain(const Z& D, F x, const std::vector<uint64_t>& T) {
    Bytes tail;
    for (size_t i = 0; i + 1 < T.size(); i++) {
        F y = square_times(x, T[i]), pf = wesolowski(D, x, y, T[i]);
        Z B = challenge(D, x, y);
        Bytes s; for (int j = 7; j >= 0; j--) s.push_back((uint8_t)(T[i] >> (8 * j)));
        for (int j = 32; j >= 0; j--) { Z t = (B >> (8 * j)) % 256; s.push_back((uint8_t)t.get_ui()); }
        append(s, ser(pf, bits(D)));
        append(s, tail); tail = s; x = y;
    }
    F y = square_times(x, T.back()), pf = wesolowski(D, x, y, T.back());
    Bytes r = ser(y, bits(D)); append(r, ser(pf, bits(D))); append(r, tail);
    return r;
}
inline std::string hex(const Bytes& b) { std::string s; char t[3]; for (auto c : b) { snprintf(t, 3, "%02x", c); s += t; } return s; }
inline std::string hex(const uint8_t* p, size_t n) { return hex(Bytes(p, p + n)); }
inline std::string str(const F& f) { return "(" + f.a.get_str() + "," + f.b.get_str() + "," + f.c.get_str() + ")"; }
}

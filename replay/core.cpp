// Replays the proof layer of /repo against the independent reference. One MODE_* per compilation.
#include "core_tu.h"
#include "rt.h"
typedef O::Z Z; typedef O::F F; typedef O::Bytes Bytes;
static integer I(const Z& z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }
static Z G(const integer& z) { return Z(z.impl); }
static form fo(const F& f) { form r; r.a = I(f.a); r.b = I(f.b); r.c = I(f.c); return r; }
static F of(const form& f) { return F{G(f.a), G(f.b), G(f.c)}; }
static int size_of(int i) { static const int s[] = {40, 64, 96, 128, 130, 160, 255, 256, 264, 512, 768, 1000, 1008, 1024}; return s[i % 14]; }

// an encoding with chosen field values: zero, one, tiny, full-size
[[maybe_unused]] static Bytes fields(const Z& D) {
    R::active = false;
    Bytes s(100, 0); int db = (O::bits(D) + 31) / 32 * 32; if (db < 32 || db > 1024) return s;
    int gs = rnd(3) ? rnd(std::min(4, db / 32)) : rnd(db / 32 + 2);
    s[0] = rnd(4); s[1] = gs; int off = 2;
    auto f = [&](int n) { if (n <= 0) return; Z v; switch (rnd(6)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = (long)rnd(40); break; case 3: v = R::zrand(1 + rnd(8 * n)); break; case 4: v = (Z(1) << (8 * n)) - 1; break; default: v = 1 + (long)rnd(4); } for (int k = 0; k < n; k++) { Z b = (v >> (8 * k)) % 256; if (off < 100) s[off] = b.get_ui(); off++; } };
    f(db / 16 - gs); f(db / 32 - gs); f(gs + 1); f(gs + 1);
    return s;
}
#if defined(MODE_VERIFY) || defined(MODE_WITHB) || defined(MODE_GETB) || defined(MODE_CDCHECK) || defined(MODE_TOTAL)
struct Job { Z D; Bytes x; Bytes p; uint64_t it; uint64_t depth; uint64_t dsb; std::vector<uint64_t> T; F xf; };
static std::string show(const Job& j) { std::ostringstream s; s << "D=" << j.D << " x=" << O::hex(j.x) << " iterations=" << j.it << " disc_bits=" << j.dsb << " depth=" << j.depth << " proof=" << O::hex(j.p); return s.str(); }
// in a small group (known order) a proof for any 64-bit segment length can be produced
static F powt(const F& x, uint64_t T, const Z& ord, const Z& D) { if (ord == 0) return O::square_times(x, T); Z e, two = 2, t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &T); mpz_powm(e.get_mpz_t(), two.get_mpz_t(), t.get_mpz_t(), ord.get_mpz_t()); return O::pow(x, e, D); }
static F weso(const F& x, const F& y, uint64_t T, const Z& ord, const Z& D) {
    Z B = O::challenge(D, x, y);
    if (ord == 0) return O::pow(x, (Z(1) << T) / B, D);
    // floor(2^T / B) = (2^T - (2^T mod B)) / B, taken modulo the order
    Z m = ord * B, e, two = 2, t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &T);
    mpz_powm(e.get_mpz_t(), two.get_mpz_t(), t.get_mpz_t(), m.get_mpz_t());
    Z r = O::pow2mod(T, B), q = O::fmod_(e - r, m) / B;
    return O::pow(x, q, D);
}
static Bytes chain(const Z& D, F x, const std::vector<uint64_t>& T, const Z& ord, int twist = -1) {
    Bytes tail;
    for (size_t i = 0; i + 1 < T.size(); i++) {
        F y = powt(x, T[i], ord, D);
        if ((int)i == twist) y = O::mul(y, O::gen(D));
        F pf = weso(x, y, T[i], ord, D); Z B = O::challenge(D, x, y);
        Bytes s; for (int j = 7; j >= 0; j--) s.push_back((uint8_t)(T[i] >> (8 * j)));
        for (int j = 32; j >= 0; j--) { Z t = (B >> (8 * j)) % 256; s.push_back((uint8_t)t.get_ui()); }
        O::append(s, O::ser(pf, O::bits(D))); O::append(s, tail); tail = s; x = y;
    }
    F y = powt(x, T.back(), ord, D);
    if ((int)T.size() - 1 == twist) y = O::mul(y, O::gen(D));
    F pf = weso(x, y, T.back(), ord, D);
    Bytes r = O::ser(y, O::bits(D)); O::append(r, O::ser(pf, O::bits(D))); O::append(r, tail);
    return r;
}
static Job honest(int i, bool wb) {
    Job j; bool small = R::rnd(3) == 0;
    j.D = small ? R::prime_disc(20 + R::rnd(5)) : (rnd(5) == 0 ? R::comp_disc(size_of(i)) : R::prime_disc(size_of(i)));
    j.xf = rnd(4) ? O::gen(j.D) : R::any_form(j.D);
    Z ord = small ? R::order(j.xf, j.D, 20000) : Z(0);
    int n = 1 + rnd(4);
    for (int k = 0; k < n; k++) {
        uint64_t t;
        if (ord != 0) { uint64_t e[] = {0, 1, 2, 255, 256, 65536, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, 0xffffffffffffffffull, R::g(), R::g() >> rnd(64)}; t = e[rnd(12)]; }
        else { uint64_t e[] = {0, 1, 2, 5, 31, 255, 264, 300}; t = rnd(3) ? rnd(400) : e[rnd(8)]; }
        j.T.push_back(t);
    }
    j.it = 0; for (auto t : j.T) j.it += t;       // may wrap: then the total is not the sum, and the proof must be refused
    j.depth = n - 1; j.dsb = (O::bits(j.D) + 7) / 8 * 8;
    j.x = O::ser(j.xf, O::bits(j.D));
    j.p = chain(j.D, j.xf, j.T, ord, rnd(12) == 0 ? (int)rnd(n) : -1);
    (void)wb;
    return j;
}
static const Z P264 = Z(1) << 264;
static void mutate(Job& j, size_t base) {
    bool seg = j.depth && j.depth < 1000 && j.p.size() >= base + 141 * j.depth;
    switch (rnd(22)) {
        case 0: j.it++; break;
        case 1: j.it--; break;
        case 2: j.it = R::g(); break;
        case 3: j.depth++; break;
        case 4: j.depth--; break;
        case 5: if (!j.p.empty()) j.p.pop_back(); break;
        case 6: j.p.push_back(0); break;
        case 7: j.p.insert(j.p.end(), 141, 0); break;
        case 8: j.p.insert(j.p.end(), 141, 0); j.depth++; break;
        case 9: if (j.p.size() >= base + 141) { j.p.resize(j.p.size() - 141); j.depth--; } break;
        case 10: j.x[rnd(100)] ^= 1 << rnd(8); break;
        case 11: j.x = O::ser(R::any_form(j.D), O::bits(j.D)); break;
        case 12: { Bytes b = O::ser(R::any_form(j.D), O::bits(j.D)); if (j.p.size() >= base) memcpy(&j.p[rnd(base / 100) * 100], b.data(), 100); break; }
        case 13: { uint64_t e[] = {0, 1, 7, 8, 1023, 1024, 1025, 1032, 2048, 1ull << 32, ~0ull}; j.dsb = e[rnd(11)]; break; }
        case 14: if (seg) { size_t s = base + 141 * rnd(j.depth); j.p[s + rnd(8)] ^= 1 << rnd(8); } break;
        case 15: if (seg) { size_t s = base + 141 * rnd(j.depth) + 8; j.p[s + rnd(33)] ^= 1 << rnd(8); } break;
        case 16: if (seg) { size_t s = base + 141 * rnd(j.depth) + 8; memset(&j.p[s], 0, 33); if (rnd(2)) j.p[s + 32] = rnd(4); } break;
        case 17: if (seg) { size_t s = base + 141 * rnd(j.depth) + 41; Bytes b = O::ser(R::any_form(j.D), O::bits(j.D)); memcpy(&j.p[s], b.data(), 100); } break;
        case 18: if (seg && j.depth > 1) { Bytes a(j.p.end() - 141, j.p.end()); memmove(&j.p[j.p.size() - 141], &j.p[j.p.size() - 282], 141); memcpy(&j.p[j.p.size() - 282], a.data(), 141); } break;
        case 19: if (j.p.size() >= 100) { auto y = O::deser(j.D, j.p.data()); if (y) { Bytes b = O::ser(O::inv(*y), O::bits(j.D)); memcpy(&j.p[0], b.data(), 100); } break; }
        case 20: j.D = j.D - 8 * (long)(1 + rnd(5)); break;
        default: if (!j.p.empty()) j.p[rnd(j.p.size())] ^= 1 << rnd(8);
    }
}
#endif

#ifdef MODE_VERIFY
static void one(const Job& j) {
    begin("CheckProofOfTimeNWesolowski " + show(j));
    std::unique_ptr<uint8_t[]> pb(new uint8_t[j.p.size()]), xb(new uint8_t[100]);      // exact-size heap blocks
    memcpy(pb.get(), j.p.data(), j.p.size()); memcpy(xb.get(), j.x.data(), 100);
    int r; std::string why = "accepted";
    try { r = CheckProofOfTimeNWesolowski(I(j.D), xb.get(), pb.get(), j.p.size(), j.it, j.dsb, j.depth); if (!r) why = "rejected"; } catch (std::exception& e) { r = 0; why = std::string("rejected by exception ") + e.what(); }
    bool o = O::verify(j.D, j.x.data(), j.p, j.it, j.dsb, j.depth);
    if (o != (bool)r) fail("the verifier says: " + why + "; the statement says: " + (o ? "valid" : "invalid"));
    expect(memcmp(pb.get(), j.p.data(), j.p.size()) == 0 && memcmp(xb.get(), j.x.data(), 100) == 0, "inputs unchanged");
}
static void run() {
    for (int i = 0; R::time_left(); i++) {
        Job j = honest(i, false);
        one(j);
        for (int k = 0; k < 8; k++) { Job m = j; mutate(m, 200); if (rnd(4) == 0) mutate(m, 200); one(m); }
    }
    Job j = honest(0, false);
    for (int n = 0; n < 2; n++) { begin("null argument"); bool r = true; try { r = CheckProofOfTimeNWesolowski(I(j.D), n ? nullptr : j.x.data(), n ? j.p.data() : nullptr, j.p.size(), j.it, j.dsb, j.depth); } catch (std::exception&) { r = false; } expect(!r, "null input refused"); }
}
#endif
#ifdef MODE_WITHB
static void one(const Job& j, const Z& B) {
    begin("CheckProofOfTimeNWesolowskiWithB B=" + B.get_str() + " " + show(j));
    std::unique_ptr<uint8_t[]> pb(new uint8_t[j.p.size()]); memcpy(pb.get(), j.p.data(), j.p.size());
    bool r = false; Bytes out;
    try { auto t = CheckProofOfTimeNWesolowskiWithB(I(j.D), I(B), j.x.data(), pb.get(), j.p.size(), j.it, j.depth); r = t.first; out = t.second; if (!r) expect(out.empty(), "rejected, but with output bytes"); } catch (std::exception& e) { }
    bool o = false; Bytes want;
    if (O::in_range(j.D) && j.depth < (1ull << 40) && j.p.size() == 100 + 141 * j.depth && B != 0) {
        O::Chain c = O::walk(j.D, j.x.data(), j.p, 100, j.it, j.depth, true);
        auto pf = O::deser(j.D, j.p.data());
        if (c.ok && pf) { F y = O::mul(O::pow(*pf, B, j.D), O::pow(c.x, O::pow2mod(c.it, B), j.D)); if (O::challenge(j.D, c.x, y) == B) { o = true; want = O::ser(y, O::bits(j.D)); } }
    }
    if (o != r) fail(std::string("the verifier says: ") + (r ? "accepted" : "rejected") + "; the statement says: " + (o ? "valid" : "invalid"));
    if (r) expect(out == want, "returned output bytes are not the output form: " + O::hex(out));
}
static void run() {
    for (int i = 0; R::time_left(); i++) {
        Job j = honest(i, true);
        O::Chain c = O::walk(j.D, j.x.data(), j.p, 200, j.it, j.depth, true);
        if (!c.ok) continue;
        auto y = O::deser(j.D, j.p.data()); if (!y) continue;
        Z B = O::challenge(j.D, c.x, *y);
        Job w = j; w.p.erase(w.p.begin(), w.p.begin() + 100);
        one(w, B);
        for (int k = 0; k < 6; k++) { Job m = w; Z b = B; if (rnd(3) == 0) { Z alt[] = {Z(0), Z(1), Z(3), B + 2, B - 2, -B, B * 3, Z(B % 256)}; b = alt[rnd(8)]; } else mutate(m, 100); one(m, b); }
    }
}
#endif
#ifdef MODE_GETB
static void one(const Job& j) {
    begin("GetBFromProof " + show(j));
    std::unique_ptr<uint8_t[]> pb(new uint8_t[j.p.size()]); memcpy(pb.get(), j.p.data(), j.p.size());
    bool r = false; Z B;
    try { B = G(GetBFromProof(I(j.D), j.x.data(), pb.get(), j.p.size(), j.it, j.depth)); r = true; } catch (std::exception& e) { }
    bool o = false; Z W;
    if (O::in_range(j.D) && j.depth < (1ull << 40) && j.p.size() == 200 + 141 * j.depth) {
        O::Chain c = O::walk(j.D, j.x.data(), j.p, 200, j.it, j.depth, false);
        auto y = O::deser(j.D, j.p.data());
        if (c.ok && y) { o = true; W = O::challenge(j.D, c.x, *y); }
    }
    if (o != r) fail(std::string("challenge extraction ") + (r ? "succeeded" : "was refused") + " for a " + (o ? "well-formed" : "malformed") + " proof");
    if (r) expect(B == W, "the challenge is " + B.get_str() + ", not " + W.get_str());
}
static void run() {
    for (int i = 0; R::time_left(); i++) { Job j = honest(i, false); one(j); for (int k = 0; k < 6; k++) { Job m = j; mutate(m, 200); one(m); } }
}
#endif
#ifdef MODE_CDCHECK
static void run() {
    for (int i = 0; R::time_left(); i++) {
        int len = (2 + rnd(31)) * 8; Bytes seed = R::brand(2 + rnd(40)); Z D = O::discriminant(seed, len);
        Job j; j.D = D; j.xf = rnd(3) ? O::gen(D) : R::any_form(D); int n = 1 + rnd(3);
        for (int k = 0; k < n; k++) j.T.push_back(rnd(300));
        j.it = 0; for (auto t : j.T) j.it += t;
        j.depth = n - 1; j.dsb = len; j.x = O::ser(j.xf, O::bits(D)); j.p = chain(D, j.xf, j.T, 0);
        for (int k = 0; k < 4; k++) {
            Job m = j; Bytes sd = seed; uint32_t b = len;
            if (k == 1) sd[rnd(sd.size())] ^= 1 << rnd(8);
            if (k == 2) { uint32_t e[] = {0, (uint32_t)len - 1, (uint32_t)len + 8, 1032, 0x80000000u + len, 0xffffffffu, (uint32_t)len + 1}; b = e[rnd(7)]; }
            if (k == 3) mutate(m, 200);
            begin("CreateDiscriminantAndCheck seed=" + O::hex(sd) + " bits=" + std::to_string(b) + " " + show(m));
            bool r = false; try { r = CreateDiscriminantAndCheckProofOfTimeNWesolowski(sd, b, m.x.data(), m.p.data(), m.p.size(), m.it, m.depth); } catch (std::exception&) {}
            bool o = b > 0 && b <= 1024 && b % 8 == 0 && O::verify(O::discriminant(sd, b), m.x.data(), m.p, m.it, b, m.depth);
            if (o != r) fail(std::string("the verifier says: ") + (r ? "accepted" : "rejected") + "; the statement says: " + (o ? "valid" : "invalid"));
        }
    }
}
#endif
#ifdef MODE_TOTAL
// arbitrary bytes, lengths, discriminants: an answer or an exception, no crash, no out-of-bounds access
static Z anyD() {
    R::active = false;
    switch (rnd(10)) {
        case 0: { long e[] = {0, 1, -1, -2, -3, -4, -7, -8, -11, -15, -16, -23, -63, -64, 5, 17, -28, -100}; return e[rnd(18)]; }
        case 1: return R::zrand(1 + rnd(1100));
        case 2: return -R::zrand(1 + rnd(1100));
        case 3: return -(Z(1) << rnd(1030)) + (long)rnd(3) - 1;
        case 4: { Z f = 3 + 2 * (long)rnd(5); return R::prime_disc(24 + rnd(60)) * f * f; }
        default: return R::prime_disc(size_of(rnd(14)));
    }
}
static void put(Bytes& b, size_t off, const Z& D) {
    if (off + 100 > b.size()) return;
    Bytes s(100, 0);
    switch (D < 0 && O::bits(D) <= 1024 ? rnd(5) : rnd(2)) {
        case 4: s = fields(D); break;
        case 0: s[0] = 4 << rnd(2); break;
        case 1: s = R::brand(100); s[0] &= 3; s[1] = rnd(8); break;
        case 2: { for (int t = 0; t < 20; t++) { Z a = 1 + (long)rnd(50), b = rnd(200); b -= 100; Z n = b * b - D; if (n > 0 && n % (4 * a) == 0) { s = O::ser(F{a, b, n / (4 * a)}, O::bits(D)); break; } } break; }
        default: try { if (D < -20 && O::fmod_(D, 8) == 1) s = O::ser(R::any_form(D), O::bits(D)); } catch (std::exception&) {}
    }
    memcpy(&b[off], s.data(), 100);
}
static void run() {
    while (R::time_left()) {
        Job j; j.D = anyD(); j.depth = rnd(4); size_t base = rnd(2) ? 200 : 100;
        j.p = R::brand(base + 141 * j.depth); j.x = Bytes(100, 0);
        put(j.x, 0, j.D);
        for (size_t o = 0; o < base; o += 100) put(j.p, o, j.D);
        for (uint64_t k = 0; k < j.depth; k++) { put(j.p, base + 141 * k + 41, j.D); if (rnd(2)) memset(&j.p[base + 141 * k], 0, 7); if (rnd(3) == 0) memset(&j.p[base + 141 * k + 8], 0, 32); }
        if (rnd(4) == 0) j.p.resize(rnd(600));
        if (rnd(6) == 0) j.depth = R::g() >> rnd(64);
        j.it = R::g() >> rnd(64); j.dsb = rnd(3) ? 1024 : R::g() >> rnd(64);
        Z B = rnd(3) ? R::zrand(264) : Z((long)rnd(5)) - 2;
        for (int m = 0; m < 3; m++) {
            begin(std::string(m == 0 ? "CheckProofOfTimeNWesolowski " : m == 1 ? "CheckProofOfTimeNWesolowskiWithB B=" + B.get_str() + " " : "GetBFromProof ") + show(j));
            std::unique_ptr<uint8_t[]> pb(new uint8_t[j.p.size()]), xb(new uint8_t[100]);
            memcpy(pb.get(), j.p.data(), j.p.size()); memcpy(xb.get(), j.x.data(), 100);
            const uint8_t* xp = rnd(40) ? xb.get() : nullptr; const uint8_t* pp = rnd(40) ? pb.get() : nullptr;
            try {
                if (m == 0) CheckProofOfTimeNWesolowski(I(j.D), xp, pp, j.p.size(), j.it, j.dsb, j.depth);
                else if (m == 1) CheckProofOfTimeNWesolowskiWithB(I(j.D), I(B), xp, pp, j.p.size(), j.it, j.depth);
                else GetBFromProof(I(j.D), xp, pp, j.p.size(), j.it, j.depth);
            } catch (std::exception&) {}
            expect(!memcmp(pb.get(), j.p.data(), j.p.size()), "input unchanged");
        }
    }
}
#endif
#ifdef MODE_SER
static void dz(const Z& D, const Bytes& s, const char* what) {
    for (int strict = 0; strict < 2; strict++) {
        begin(std::string("DeserializeForm (") + what + ") strict=" + std::to_string(strict) + " D=" + D.get_str() + " bytes=" + O::hex(s));
        std::unique_ptr<uint8_t[]> b(new uint8_t[s.size()]); memcpy(b.get(), s.data(), s.size());
        bool r = false; F f; form q;
        try { q = DeserializeForm(I(D), b.get(), s.size(), strict); r = true; f = of(q); } catch (std::exception&) {}
        std::optional<F> o; if (s.size() == 100) o = O::deser(D, s.data(), strict);
        if (r != o.has_value()) fail(std::string("bytes are ") + (r ? "accepted" : "refused") + ", the format says " + (o ? "valid " + O::str(*o) : "invalid"));
        if (r) { expect(f == *o, "decoded form is " + O::str(f) + ", the format says " + O::str(*o)); expect(O::is_reduced(f) && O::disc(f) == D, "decoded form is reduced with the discriminant"); }
    }
}
static Bytes s0() { Bytes s(100, 0); s[0] = 4 * (1 + rnd(2)); return s; }
static void run() {
    for (int i = 0; R::time_left(); i++) {
        int bits = rnd(3) ? size_of(i) : rnd(2) ? 1024 - rnd(30) : 16 + rnd(1009);
        Z D = rnd(3) ? R::prime_disc(bits) : R::comp_disc(bits);
        for (int k = 0; k < 6; k++) {
            F f = R::any_form(D);
            begin("SerializeForm D=" + D.get_str() + " form=" + O::str(f));
            form q = fo(f); auto v = SerializeForm(q, I(D).num_bits()); Bytes s(v.begin(), v.end());
            Bytes w = O::ser(f, O::bits(D));
            expect(s == w, "encoding is " + O::hex(s) + ", the format says " + O::hex(w));
            expect(of(q) == f, "the form is unchanged by encoding it");
            bool ok = false; try { ok = of(DeserializeForm(I(D), s.data(), 100, true)) == f; } catch (std::exception&) {}
            expect(ok, "decoding the encoding gives the form back");
            // an equivalent, not reduced, form encodes the same
            Z t = (long)rnd(7) - 3; form q2; F u{f.a, f.b + 2 * t * f.a, f.a * t * t + f.b * t + f.c}; q2 = fo(u);
            auto v2 = SerializeForm(q2, I(D).num_bits()); expect(Bytes(v2.begin(), v2.end()) == w, "an equivalent form encodes the same");
            for (int m = 0; m < 6; m++) {
                Bytes t = s;
                switch (m) {
                    case 0: t[rnd(100)] ^= 1 << rnd(8); break;
                    case 1: t[0] ^= 1 << rnd(8); break;
                    case 2: t[1] = rnd(2) ? t[1] + 1 : rnd(256); break;
                    case 3: { int sz = (O::bits(D) + 31) / 32 * 3 + 4; t[rnd(std::min(100, sz + 2))] ^= 1 << rnd(8); break; }
                    case 4: if (rnd(2)) t.pop_back(); else t.push_back(0); break;
                    default: { int sz = (O::bits(D) + 31) / 32 * 3 + 4; t[sz - 1 - rnd(3)] += 1 + rnd(8); }
                }
                dz(D, t, "mutated");
            }
            dz(D, s, "honest");
        }
        for (int m = 0; m < 8; m++) dz(D, fields(D), "fields");
        {   // discriminants for which there are no forms to decode
            Z E = rnd(3) ? R::zrand(rnd(40)) : R::zrand(size_of(rnd(14))); if (rnd(3) == 0) E *= E; if (E > 0 && rnd(2)) E = E - E % 8 + 1; Bytes t = rnd(2) ? s0() : fields(-E); if (rnd(3) == 0) t = O::ser(R::any_form(D), O::bits(D));
            begin("DeserializeForm for a non-negative discriminant D=" + E.get_str() + " bytes=" + O::hex(t));
            bool r = true; try { DeserializeForm(I(E), t.data(), t.size(), rnd(2)); } catch (std::exception&) { r = false; } expect(!r, "accepted");
        }
        Bytes r = R::brand(100); r[0] &= 3; r[1] = rnd(4); dz(D, r, "random");
        // pairs (a, b) that are not reduced, in their own encoding; special tags with any trailing bytes
        r = R::brand(100); r[0] = (1 + rnd(3)) * 4 + (rnd(64) << 4) + rnd(4); dz(D, r, "tagged");
        for (int m = 0; m < 4; m++) {   // small a' with inflated b0
            F f = m & 1 ? R::prime_form(D, 2 + rnd(50)) : O::mul(R::ambiguous(D), R::prime_form(D, 2)); Bytes s = O::ser(f, O::bits(D));
            int sz = (O::bits(D) + 31) / 32 * 3 + 4; s[sz - 1] += 4 * rnd(30); if (rnd(2)) s[0] ^= 1; dz(D, s, "inflated");
        }
    }
}
#endif
#ifdef MODE_HASH
static void run() {
    for (int n = 0; n <= 300; n++) {
        Bytes m = R::brand(n); begin("picosha2 message=" + O::hex(m));
        std::vector<unsigned char> h(32); picosha2::hash256(m.begin(), m.end(), h.begin(), h.end());
        expect(Bytes(h.begin(), h.end()) == O::sha256(m), "SHA-256 digest is " + O::hex(Bytes(h.begin(), h.end())));
    }
    for (int i = 0; R::time_left(); i++) {
        int len = i < 127 ? 16 + 8 * i : (2 + (int)rnd(127)) * 8; Bytes s = R::brand(rnd(3) ? 32 : 2 + rnd(210));
        if (rnd(4) == 0) for (size_t k = rnd(s.size()); k < s.size(); k++) s[k] = 0xff;
        begin("CreateDiscriminant bits=" + std::to_string(len) + " seed=" + O::hex(s));
        Bytes c = s; Z d;
        try { d = G(CreateDiscriminant(c, len)); } catch (std::exception& e) { fail(std::string("refused: ") + e.what()); }
        Z w = O::discriminant(s, len);
        expect(d == w, "discriminant is " + d.get_str() + ", not " + w.get_str());
        expect(c == s, "seed unchanged");
        expect(O::bits(d) == len && O::fmod_(d, 8) == 1 && d < 0, "shape of the discriminant");
        for (int k = 0; k < 2; k++) {
            int L = 264; std::vector<int> mask = {263}; if (k) { L = (2 + rnd(170)) * 8; mask.clear(); for (int z = rnd(4); z > 0; z--) mask.push_back(rnd(L)); mask.push_back(L - 1); }
            Bytes q = R::brand(k ? 2 + rnd(100) : 200); std::string ms; for (int b : mask) ms += std::to_string(b) + ",";
            begin("HashPrime bits=" + std::to_string(L) + " mask=" + ms + " seed=" + O::hex(q));
            Z p = G(HashPrime(q, L, mask)), v = O::hash_prime(q, L, mask);
            expect(p == v, "hash-to-prime is " + p.get_str() + ", not " + v.get_str());
        }
        Z D = R::prime_disc(size_of(i)); F x = R::any_form(D), y = R::any_form(D);
        begin("GetB D=" + D.get_str() + " x=" + O::str(x) + " y=" + O::str(y));
        form fx = fo(x), fy = fo(y); Z b = G(GetB(I(D), fx, fy)), w2 = O::challenge(D, x, y);
        expect(b == w2, "challenge is " + b.get_str() + ", not " + w2.get_str());
    }
    for (int len : {0, -8, -1, -2147483647, 1, 7, 9, 12, 1023, 1025, 1032, 2048, 2147483647, 2147483640}) { begin("CreateDiscriminant bits=" + std::to_string(len)); Bytes s = R::brand(32); bool t = false; try { CreateDiscriminant(s, len); } catch (std::invalid_argument&) { t = true; } expect(t, "bad size refused with invalid_argument"); }
    { begin("CreateDiscriminant empty seed"); Bytes s; bool t = false; try { CreateDiscriminant(s, 512); } catch (std::invalid_argument&) { t = true; } expect(t, "empty seed refused"); }
}
#endif
#ifdef MODE_PRIME
static void run() {
    auto one = [](const Z& n) { begin("prime " + n.get_str()); bool r = I(n).prime(), o = O::prime(n); if (r != o) fail(std::string("reported ") + (r ? "prime" : "composite")); };
    for (long n = 239; n < 200000; n += 2) one(n);
    // Carmichael numbers, base-2 strong pseudoprimes, Lucas-V and Fibonacci-like pseudoprimes, squares of Wieferich primes
    for (const char* s : {"561","1105","1729","2465","2821","6601","8911","10585","15841","29341","2047","3277","4033","4681","8321","15841","42799","49141","52633","65281","74665","80581","85489","88357","90751","1194649","12327121","3215031751","341550071728321","3825123056546413051","318665857834031151167461","3317044064679887385961981","913","150267335403","430558874533","14760229232131","936916995253453","323","377","1891","3827","4181","5777","6601","6721","10877","11663","13201","13981","15251","17119","17711","18407","5459","5777","10877","16109","18971","22499","24569","25199","40309","58519"}) one(Z(s));
    while (R::time_left()) {
        int b = 10 + rnd(1030); Z n = R::zrand(b); mpz_setbit(n.get_mpz_t(), 0); if (n < 239) continue; one(n);
        mpz_nextprime(n.get_mpz_t(), n.get_mpz_t()); one(n);
        int h = 5 + rnd(200); Z p = R::zrand(h); mpz_setbit(p.get_mpz_t(), h - 1); mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
        for (int k = 0; k < 3; k++) { Z q = (p - 1) * (2 + (long)rnd(6)) + 1; if (O::prime(q) && p * q > 239) one(p * q); }
        if (p > 20) one(p * p);
        Z m = (Z(1) << (8 + rnd(1000))) - 1; one(m);
    }
}
#endif
#ifdef MODE_GROUP
static std::string ops(const Z& D, const F& x, const F& y) { return "D=" + D.get_str() + " x=" + O::str(x) + " y=" + O::str(y); }
static void same(const form& r, const F& w, const char* what) { F f = of(r); if (!(f == w)) fail(std::string(what) + " gives " + O::str(f) + ", not " + O::str(w)); }
static void equiv(const form& r, const F& w, const Z& D, const char* what) { F f = of(r); if (!(f.a > 0 && O::disc(f) == D && O::reduce(f) == w)) fail(std::string(what) + " gives " + O::str(f) + ", not in the class of " + O::str(w)); }
static void run() {
    for (int i = 0; R::time_left(); i++) {
        int bits = rnd(3) ? size_of(i) : 8 + rnd(1017);
        Z D = rnd(3) ? R::prime_disc(bits) : R::comp_disc(bits); integer iD = I(D), L = root(-iD, 4); PulmarkReducer red;
        for (int k = 0; k < 12; k++) {
            F x = R::any_form(D), y = rnd(6) == 0 ? x : rnd(6) == 0 ? O::inv(x) : R::any_form(D);
#ifdef G_COMPOSE
            F w = O::mul(x, y), w2 = O::mul(x, x);
            form fx = fo(x), fy = fo(y), r;
            begin("multiply " + ops(D, x, y)); same(multiply(fx, fy), w, "multiplication"); same(fx * fy, w, "product");
            if (O::gcd_ab(x) == 1) { begin("square " + ops(D, x, x)); same(square(fx), w2, "squaring"); same(fx * fx, w2, "product with itself"); }
            begin("inverse " + ops(D, x, x)); same(fx.inverse(), O::inv(x), "inverse"); same(multiply(fx, fx.inverse()), O::one(D), "product with the inverse");
            begin("identity " + D.get_str()); same(form::identity(iD), O::one(D), "identity"); same(form::generator(iD), O::gen(D), "generator");
#endif
#ifdef G_NUCOMP
            F w = O::mul(x, y), w2 = O::mul(x, x);
            form fx = fo(x), fy = fo(y), r;
            begin("nucomp_form " + ops(D, x, y)); nucomp_form(r, fx, fy, iD, L); equiv(r, w, D, "nucomp"); same(fx, x, "operand after nucomp"); same(fy, y, "operand after nucomp");
            { form a1 = fx; nucomp_form(a1, a1, fy, iD, L); equiv(a1, w, D, "nucomp with the result in the first operand"); }
            begin("nudupl_form " + ops(D, x, x)); nudupl_form(r, fx, iD, L); equiv(r, w2, D, "nudupl"); same(fx, x, "operand after nudupl");
            { form a1 = fx; nudupl_form(a1, a1, iD, L); equiv(a1, w2, D, "nudupl in place"); for (int z = 0; z < 4; z++) { w2 = O::mul(w2, w2); red.reduce(a1); nudupl_form(a1, a1, iD, L); equiv(a1, w2, D, "repeated nudupl in place"); } }
#endif
#ifdef G_REDUCE
            // equivalent forms far from reduced: apply random unimodular changes of variables
            Z D0 = D; integer iD0 = iD;
            if (rnd(3) == 0) {      // ties: a = c, |b| = a, b = 0, tiny coefficients
                int nb = rnd(2) ? 1 + rnd(70) : 1 + rnd(520); Z a = 1 + R::zrand(nb), b = R::zrand(nb) % (a + 1); if (rnd(4) == 0) b = a; if (rnd(6) == 0) b = 0;
                Z c = a; if (b == a && rnd(2)) c = a + R::zrand(1 + rnd(nb)); else if (rnd(2)) b = -b;
                if (b == -a && c != a) b = a;
                x = O::reduce(F{a, b, c}); D0 = O::disc(x); iD0 = I(D0);
            }
            F u = x; for (int z = 1 + rnd(8); z > 0; z--) { Z t = R::zrand(1 + rnd(70)); if (rnd(2)) t = -t; u = F{u.a, u.b + 2 * t * u.a, u.a * t * t + u.b * t + u.c}; if (rnd(2)) { std::swap(u.a, u.c); u.b = -u.b; } }
            begin("reduce " + ops(D0, u, x));
            form q = fo(u); q.reduce(); same(q, O::reduce(u), "reduction"); expect(q.is_reduced(), "is_reduced() holds after reduction");
            q = fo(u); red.reduce(q); { F w = O::reduce(u), v = of(q); if (v.b == -v.a) v.b = -v.b; if (!(v == w)) fail("fast reduction gives " + O::str(of(q)) + ", not " + O::str(w)); }
            q = fo(u); expect(q.is_reduced() == O::is_reduced(u), "is_reduced() on " + O::str(u));
            { F n{x.a, -x.b, x.c}; q = fo(n); expect(q.is_reduced() == O::is_reduced(n), "is_reduced() on " + O::str(n)); }
            begin("from_abd " + ops(D0, u, x)); { form fx; bool t = false; try { fx = form::from_abd(I(u.a), I(u.b), iD0); } catch (std::exception&) { t = true; } expect(!t, "from_abd accepts a form of the discriminant"); same(fx, O::reduce(u), "from_abd");
              Z e = u.b + 1; t = false; try { form::from_abd(I(u.a), I(e), iD0); } catch (std::exception&) { t = true; } expect(t || O::fmod_(e * e - D0, 4 * u.a) == 0, "from_abd refuses a pair that is no form of the discriminant");
              t = false; try { form::from_abd(I(-u.a), I(u.b), iD0); } catch (std::exception&) { t = true; } expect(t, "from_abd refuses a negative leading coefficient"); }
#endif
#ifdef G_POW
            Z n = rnd(4) == 0 ? Z((long)rnd(20)) : R::zrand(1 + rnd(300));
            begin("FastPowFormNucomp n=" + n.get_str() + " " + ops(D, x, x));
            same(FastPowFormNucomp(fo(x), iD, I(n), L, red), O::pow(x, n, D), "power");
            uint64_t a = R::g() >> rnd(64), b = R::g() >> rnd(64); Z c = 1 + R::zrand(1 + rnd(300)); Z ee, za, zb; mpz_import(za.get_mpz_t(), 1, -1, 8, 0, 0, &a); mpz_import(zb.get_mpz_t(), 1, -1, 8, 0, 0, &b);
            begin("FastPow a=" + za.get_str() + " b=" + zb.get_str() + " c=" + c.get_str());
            mpz_powm(ee.get_mpz_t(), za.get_mpz_t(), zb.get_mpz_t(), c.get_mpz_t()); integer ic = I(c); expect(G(FastPow(a, b, ic)) == ee, "modular power"); expect(G(ic) == c, "modulus unchanged");
#endif
        }
    }
#ifdef G_POW
    begin("FastPow modulo 0"); bool t = false; try { integer z; FastPow(2, 5, z); } catch (std::runtime_error&) { t = true; } expect(t, "modulus 0 refused");
#endif
}
#endif
#ifdef MODE_PROVE
static void run() {
    auto one = [](const Z& D, const F& x, uint64_t T) {
        begin("ProveSlow D=" + D.get_str() + " x=" + O::str(x) + " T=" + std::to_string(T));
        form fx = fo(x); integer iD = I(D); Bytes p; try { p = ProveSlow(iD, fx, T, ""); } catch (std::exception& e) { fail(std::string("exception ") + e.what()); }
        expect(p.size() == 200, "proof is 200 bytes");
        F y = O::square_times(x, T), pf = O::wesolowski(D, x, y, T); Bytes w = O::ser(y, O::bits(D)), w2 = O::ser(pf, O::bits(D));
        expect(Bytes(p.begin(), p.begin() + 100) == w, "output is not x^(2^T)");
        expect(Bytes(p.begin() + 100, p.end()) == w2, "proof is not x^floor(2^T/B)");
        Bytes xs = O::ser(x, O::bits(D));
        bool ok = false; try { ok = CheckProofOfTimeNWesolowski(iD, xs.data(), p.data(), p.size(), T, 1024, 0); } catch (std::exception&) {}
        expect(ok, "the verifier refuses the honest proof");
    };
    for (uint64_t T = 0; T <= 70; T++) { Z D = R::prime_disc(64 + rnd(100)); one(D, T % 3 ? O::gen(D) : R::any_form(D), T); }
    // bucket sums with any block size and stride
    for (int i = 0; R::time_left(); i++) {
        Z D = R::prime_disc(rnd(4) ? 40 + rnd(200) : size_of(i)); F x = rnd(2) ? O::gen(D) : R::any_form(D);
        if (i % 3 == 0) { one(D, x, rnd(4) ? rnd(3000) : 60000 + rnd(20000)); continue; }
        uint64_t k = 1 + rnd(8), l = 1 + rnd(4), T = rnd(1500);
        begin("GenerateWesolowski k=" + std::to_string(k) + " l=" + std::to_string(l) + " T=" + std::to_string(T) + " D=" + D.get_str() + " x=" + O::str(x));
        std::vector<form> in; F y = x; for (uint64_t t = 0; t < T; t++) { if (t % (k * l) == 0) in.push_back(fo(y)); y = O::mul(y, y); }
        form fy = fo(y), fx = fo(x); integer iD = I(D); PulmarkReducer red;
        form pf = GenerateWesolowski(fy, fx, iD, red, in, T, k, l);
        expect(of(pf) == O::wesolowski(D, x, y, T), "proof is not x^floor(2^T/B)");
        integer B = I(O::challenge(D, x, y)); Z q = (Z(1) << T) / G(B);
        for (uint64_t b = 0; k * (b + 1) <= T; b++) { Z dig = (q >> (k * b)) & ((Z(1) << k) - 1); begin("GetBlock i=" + std::to_string(b) + " k=" + std::to_string(k) + " T=" + std::to_string(T) + " B=" + G(B).get_str()); expect(Z((unsigned long)GetBlock(b, k, T, B)) == dig, "block digit"); }
    }
    { begin("ApproximateParameters"); for (uint64_t T = 0; T < 3000; T++) { int l = 0, k = 0; ApproximateParameters(T, l, k); expect(l >= 1 && k >= 1 && k < 40, "parameters for T=" + std::to_string(T)); }
      for (int s = 0; s < 64; s++) for (int d = -1; d < 2; d++) { int l = 0, k = 0; uint64_t T = (1ull << s) + d; ApproximateParameters(T, l, k); expect(l >= 1 && k >= 1 && k < 60, "parameters for T=" + std::to_string(T)); } }
    // cancellation: without the shutdown file the prover stops early and returns nothing
    { Z D = R::prime_disc(64); form x = fo(O::gen(D)); integer iD = I(D); begin("ProveSlow with a shutdown path that does not exist"); expect(ProveSlow(iD, x, 100, "/nonexistent/file").empty(), "cancelled run returns nothing");
      begin("ProveSlow with a shutdown path that exists"); expect(ProveSlow(iD, x, 100, "/dev/null").size() == 200, "run with the file present completes"); }
}
#endif
#ifdef MODE_CAPI
static void run() {
    struct Buf { uint8_t* p; size_t n; Buf(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { memcpy(p, b.data(), n); } ~Buf() { delete[] p; } };   // exact size, so that ASan sees an overrun
    for (int i = 0; R::time_left(); i++) {
        static const size_t SZ[] = {16, 64, 128, 256, 512, 1000, 1024, 0, 1, 9, 1025, 1032, 4096, (1ull << 32) + 512, (1ull << 32), (1ull << 63), ~0ull, 0xfffffe00};
        size_t sz = rnd(4) ? 64 + 8 * rnd(40) : SZ[rnd(18)]; Bytes seed = R::brand(rnd(6) ? 3 + rnd(40) : 0); if (rnd(4) == 0) for (auto& c : seed) c = rnd(2) ? 0 : 0xff;
        bool legal = !seed.empty() && sz > 0 && sz <= 1024 && sz % 8 == 0;
        Z D = legal ? O::discriminant(seed, (int)sz) : Z(0);
        Buf s(seed); size_t db = legal ? sz / 8 : 128; Buf r(Bytes(db, 0xA5));
        begin("create_discriminant_wrapper seed=" + O::hex(seed) + " size=" + std::to_string(sz));
        bool ok = create_discriminant_wrapper(s.p, s.n, sz, r.p);
        expect(ok == legal, "answers whether the size and seed are legal");
        if (legal) { Z m = -D; expect(O::be(r.p, db) == m, "the derived discriminant, big endian, left-filled to the requested size"); }
        expect(Bytes(s.p, s.p + s.n) == seed, "seed unchanged");
        
        uint64_t T = rnd(300); F x = legal ? (rnd(3) ? O::gen(D) : R::any_form(D)) : F{1, 1, 1};
        Bytes xs = legal ? O::ser(x, O::bits(D)) : Bytes(100, 0); if (legal && rnd(5) == 0) xs.resize(rnd(101)); else if (rnd(8) == 0) xs[rnd(100)] ^= 1 << rnd(8);
        auto dx = legal && xs.size() == 100 ? O::deser(D, xs.data()) : std::nullopt;
        Buf X(xs);
        begin("prove_wrapper seed=" + O::hex(seed) + " size=" + std::to_string(sz) + " x=" + O::hex(xs) + " T=" + std::to_string(T));
        ByteArray a = prove_wrapper(s.p, s.n, X.p, X.n, sz, T);
        Bytes proof;
        if (!dx) expect(a.data == nullptr && a.length == 0, "failure is the null array");
        else {
            F y = O::square_times(*dx, T), pf = O::wesolowski(D, *dx, y, T); Bytes w = O::ser(y, O::bits(D)); O::append(w, O::ser(pf, O::bits(D)));
            expect(a.data && a.length == w.size() && Bytes(a.data, a.data + a.length) == w, "the proof of the library"); proof = w;
        }
        begin("delete_byte_array length=" + std::to_string(a.length)); delete_byte_array(a);
        if (proof.empty()) proof = R::brand(200);
        Bytes dbs; for (size_t k = db; k-- > 0;) { Z m = abs(D), t = (m >> (8 * k)) % 256; dbs.push_back((uint8_t)t.get_ui()); }
        if (rnd(6) == 0) dbs.insert(dbs.begin(), rnd(4), 0);
        Z Dv = -O::be(dbs.data(), dbs.size());
        for (int v = 0; v < 5; v++) {
            Bytes p = proof, xx = xs; xx.resize(100); uint64_t t = T, dep = 0;
            switch (v) { case 1: t += 1; break; case 2: if (rnd(2)) p.resize(rnd(p.size())); else p[rnd(p.size())] ^= 1 << rnd(8); break; case 3: xx = R::brand(100); break; case 4: dep = rnd(3) ? 1 : ~0ull; break; }
            Buf P(p), XX(xx), DB(dbs);
            begin("verify_n_wesolowski_wrapper D=" + O::hex(dbs) + " x=" + O::hex(xx) + " T=" + std::to_string(t) + " depth=" + std::to_string(dep) + " proof=" + O::hex(p));
            bool g = verify_n_wesolowski_wrapper(DB.p, DB.n, XX.p, P.p, P.n, t, dep);
            bool e = O::verify(Dv, xx.data(), p, t, dbs.size() * 8, dep);
            expect(g == e, "verification answer");
            expect(Bytes(P.p, P.p + P.n) == p && Bytes(XX.p, XX.p + XX.n) == xx && Bytes(DB.p, DB.p + DB.n) == dbs, "inputs unchanged");
        }
    }
}
#endif
#ifdef MODE_BYTES
template <class To, class From> static void cc(From v) {
    begin(std::string("checked_cast ") + std::to_string(v) + " from " + std::to_string(sizeof(From)) + (std::is_signed_v<From> ? "s" : "u") + " to " + std::to_string(sizeof(To)) + (std::is_signed_v<To> ? "s" : "u"));
    __int128 w = v; bool fit = w >= (__int128)std::numeric_limits<To>::min() && w <= (__int128)std::numeric_limits<To>::max(), t = false; To r = 0;
    try { r = checked_cast<To>(v); } catch (std::overflow_error&) { t = true; }
    expect(t == !fit, "representable values pass, others raise overflow_error"); if (fit) expect((__int128)r == w, "value preserved");
}
template <class From> static void cf(uint64_t x) { From v = (From)x; cc<int8_t>(v); cc<uint8_t>(v); cc<int16_t>(v); cc<uint16_t>(v); cc<int32_t>(v); cc<uint32_t>(v); cc<int64_t>(v); cc<uint64_t>(v); }
static void run() {
    std::vector<uint64_t> vs; for (int s = 0; s < 64; s++) for (int d = -2; d < 3; d++) { vs.push_back((1ull << s) + d); vs.push_back(0 - (1ull << s) + d); }
    for (int i = 0; i < 3000; i++) vs.push_back(R::g() >> rnd(64));
    for (auto v : vs) {
        begin("bytes of " + std::to_string(v));
        uint8_t b[10] = {1, 1, 1, 1, 1, 1, 1, 1, 0xAA, 0xBB}; Int64ToBytes(b, v);
        for (int i = 0; i < 8; i++) expect(b[i] == (uint8_t)(v >> (56 - 8 * i)), "8-byte big-endian encoding"); expect(b[8] == 0xAA && b[9] == 0xBB, "nothing else written");
        expect(BytesToInt64(b) == v, "decoding gives the value back");
        uint8_t c[6] = {1, 1, 1, 1, 0xAA, 0xBB}; Int32ToBytes(c, (uint32_t)v); for (int i = 0; i < 4; i++) expect(c[i] == (uint8_t)((uint32_t)v >> (24 - 8 * i)), "4-byte big-endian encoding"); expect(c[4] == 0xAA, "nothing else written");
        cf<int8_t>(v); cf<uint8_t>(v); cf<int16_t>(v); cf<uint16_t>(v); cf<int32_t>(v); cf<uint32_t>(v); cf<int64_t>(v); cf<uint64_t>(v);
    }
    for (int i = 0; i < 500; i++) {
        Bytes v = R::brand(rnd(60)), w = R::brand(rnd(60)); begin("bytes " + O::hex(v) + " " + O::hex(w));
        expect(BytesToStr(v) == O::hex(v), "hexadecimal text"); Bytes a = v; VectorAppend(a, w); Bytes e = v; O::append(e, w); expect(a == e, "append"); a = v; VectorAppendArray(a, w.data(), w.size()); expect(a == e, "append array");
        Proof p(v, w); expect(p.hex() == O::hex(e), "proof text");
        integer z(v.empty() ? Bytes{0} : v); expect(G(z) == O::be(v.data(), v.size()), "integer from bytes"); integer z2(v.data(), v.size()); expect(G(z2) == G(z), "integer from buffer");
        Bytes tb = z.to_bytes(); Z zz = G(z); expect(O::be(tb.data(), tb.size()) == zz, "bytes of an integer"); auto lv = z.to_vector(); Z acc = 0; for (size_t k = lv.size(); k-- > 0;) acc = (acc << 64) + Z((unsigned long)lv[k]); expect(acc == zz, "limbs of an integer");
    }
    for (int i = 0; i < 400; i++) {
        Z v = R::zrand(1 + rnd(2200)); if (rnd(2)) v = -v; if (i < 40) v = i - 20; begin("text of integer " + v.get_str());
        integer z = I(v); std::string t = z.to_string(); Z m = abs(v); expect(t == (v < 0 ? "-0x" : "0x") + m.get_str(16), "hexadecimal text of an integer"); expect(G(integer(t)) == v, "reading the text gives the integer back"); expect(G(integer(v.get_str())) == v, "reading decimal text"); expect(G(z) == v, "integer unchanged");
    }
    // segments: order and bucket
    for (int i = 0; i < 20000; i++) {
        auto ns = [&](bool e) { Segment s; if (!e) { form f; s = Segment(rnd(4) * 65536, (1ull << 16) << (2 * rnd(4)), f, f); } return s; };
        Segment a = ns(rnd(5) == 0), b = ns(rnd(5) == 0);
        begin("segments " + std::to_string(a.is_empty) + "/" + std::to_string(a.is_empty ? 0 : a.start) + "/" + std::to_string(a.is_empty ? 0 : a.length) + " " + std::to_string(b.is_empty) + "/" + std::to_string(b.is_empty ? 0 : b.start) + "/" + std::to_string(b.is_empty ? 0 : b.length));
        bool w = a.is_empty ? !b.is_empty : b.is_empty ? a.IsWorseThan(b) : std::make_pair(a.length, a.start) > std::make_pair(b.length, b.start);
        if (!(b.is_empty && !a.is_empty)) expect(a.IsWorseThan(b) == w, "order of segments");
    }
    for (int k = 0; k < 24; k++) { form f; Segment s(0, 1ull << (16 + 2 * k), f, f); begin("bucket of length 2^" + std::to_string(16 + 2 * k)); if (k < 24) expect(s.GetSegmentBucket() == k, "bucket index"); expect(s.length == 1ull << (16 + 2 * k), "length unchanged"); }
}
#endif
int main(int argc, char** argv) { R::start(argc, argv); run(); R::done(); return 0; }

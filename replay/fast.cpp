// Replays the fast provers of /repo (portable squaring path) against the independent reference. One MODE_* per compilation.
#ifdef MODE_MANAGER      // the manager's bookkeeping is filled in by hand in some cases
#include <bits/stdc++.h>
#include <boost/asio.hpp>
#include <gmpxx.h>
#define private public
#endif
#include "vdf.h"
#undef private
#include "create_discriminant.h"
#include "verifier.h"
#include "rt.h"
int gcd_base_bits = 50; int gcd_128_max_iter = 3;
typedef O::Z Z; typedef O::F F; typedef O::Bytes Bytes;
static integer I(const Z& z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }
static Z G(const integer& z) { return Z(z.impl); }
static form fo(const F& f) { form r; r.a = I(f.a); r.b = I(f.b); r.c = I(f.c); return r; }
static F of(const form& f) { return F{G(f.a), G(f.b), G(f.c)}; }
static bool same(const form& f, const F& g) { return of(f) == g; }
// a form per iteration number, cheap to make and already reduced
struct Tag { vdf_original::form v; Tag() { mpz_inits(v.a, v.b, v.c, NULL); mpz_set_ui(v.a, 1); mpz_set_ui(v.b, 1); } ~Tag() { mpz_clears(v.a, v.b, v.c, NULL); } void* at(uint64_t i) { mpz_set_ui(v.c, 1000000 + i); return &v; } };
static bool tagged(const form& f, uint64_t i) { return mpz_cmp_ui(f.a.impl, 1) == 0 && mpz_cmp_ui(f.b.impl, 1) == 0 && mpz_cmp_ui(f.c.impl, 1000000 + i) == 0; }
static std::string S(uint64_t v) { return std::to_string(v); }

#ifdef MODE_STORE
static Tag tag;
static void one(const Z& Dz) {
    integer D = I(Dz); F xf = R::any_form(Dz); form x = fo(xf);
    static const uint64_t E[] = {0, 1, 2, 9, 10, 11, 99, 100, 65535, 65536, 65537, 131072, 1000000};
    uint64_t W = rnd(2) ? E[rnd(13)] : R::g() >> (44 + rnd(18));
    begin("checkpoints of a single proof, wanted=" + S(W));
    OneWesolowskiCallback cb(D, x, W);
    integer Lr = root(-D, 4); expect(G(cb.D) == Dz && cb.L == Lr, "discriminant and reduction bound");
    uint32_t k = 10, l = 1; if (W >= 1 << 16) ApproximateParameters(W, l, k);
    expect(cb.kl == k * l, "spacing is the product of the proof's parameters"); expect(same(cb.forms[0], xf), "slot 0 is the input");
    expect(cb.forms_capacity >= W / cb.kl + 1, "every checkpoint up to the wanted count has a slot");
    for (uint64_t i = 0; i < W + 3; i++) if ((i + 1) % cb.kl < 2 || i + 3 > W || rnd(8) == 0) cb.OnIteration(NL_FORM, tag.at(i + 1), i);
    for (int j = 0; j < 20; j++) cb.OnIteration(NL_FORM, tag.at(7), W + rnd(1000000));
    for (uint64_t i = 1; i <= W / cb.kl; i++) expect(tagged(cb.forms[i], i * cb.kl), "entry " + S(i) + " is the form after that many steps");
    if (W) expect(tagged(cb.result, W), "the result is the form after the wanted number of squarings");
}
static void two(const Z& Dz) {
    integer D = I(Dz); F xf = R::any_form(Dz); form x = fo(xf);
    R::active = false;
    auto cb = std::make_unique<TwoWesolowskiCallback>(D, x);
    begin("two-segment checkpoints");
    expect(same(cb->GetFormCopy(0), xf), "slot 0 is the input"); expect(!cb->LargeConstants(), "no change of spacing yet");
    uint64_t s = 91000000 + 100 * rnd(330); if (rnd(3) == 0) s = 100 * (1 + rnd(2000)) ;
    std::set<uint64_t> P; auto put = [&](uint64_t p) { cb->OnIteration(NL_FORM, tag.at(p), p - 1); };
    std::vector<std::pair<uint64_t, uint64_t>> W = {{1, 3000}, {s > 5000 ? s - 5000 : 1, s}};
    for (int i = 0; i < 6; i++) { uint64_t a = rnd(s); W.push_back({a + 1, std::min(s, a + 500)}); }
    for (auto& w : W) for (uint64_t p = w.first; p <= w.second; p++) { begin("iteration " + S(p) + " before the change of spacing at " + S(s)); put(p); if (p % 10 == 0) P.insert(p); }
    for (auto p : P) { begin("checkpoint " + S(p) + " (change of spacing at " + S(s) + " not made yet)"); expect(tagged(cb->GetFormCopy(p), p), "the copy is the form of that iteration"); expect(cb->GetPosition(p) == p / 10, "slot"); }
    for (uint64_t n : {(uint64_t)0xffffffffull, (uint64_t)1 << 32, ~(uint64_t)0, (uint64_t)1 << 62}) {
        begin("change of spacing at " + S(n)); bool t = false; try { cb->IncreaseConstants(n); } catch (std::overflow_error&) { t = true; }
        expect(t && !cb->LargeConstants(), "refused, and the store keeps its spacing");
    }
    begin("change of spacing at " + S(s)); cb->IncreaseConstants(s); expect(cb->LargeConstants(), "the change is recorded");
    std::vector<std::pair<uint64_t, uint64_t>> V = {{s + 1, s + 3000}}; uint64_t last = 799532968; last = std::min(last, s + 100 * (cb->forms_capacity - s / 10) - 1);
    V.push_back({last - 2000, last}); for (int i = 0; i < 6; i++) { uint64_t a = s + rnd(last - s - 600); V.push_back({a + 1, a + 500}); }
    std::set<uint64_t> Q; for (auto& w : V) for (uint64_t p = w.first; p <= w.second; p++) { begin("iteration " + S(p) + " after the change of spacing at " + S(s)); put(p); if (p % 100 == 0) Q.insert(p); }
    for (auto p : P) { begin("checkpoint " + S(p) + " (spacing changed at " + S(s) + ")"); expect(tagged(cb->GetFormCopy(p), p), "checkpoints before the change stay where they are"); }
    for (auto p : Q) { begin("checkpoint " + S(p) + " (spacing changed at " + S(s) + ")"); expect(tagged(cb->GetFormCopy(p), p), "the copy is the form of that iteration"); expect(cb->GetPosition(p) == s / 10 + (p - s) / 100, "slot"); }
    uint64_t end = s + 100 * (cb->forms_capacity - s / 10);
    for (uint64_t p : {end, end + 100, (uint64_t)4000000000ull, (uint64_t)1 << 40, ((uint64_t)1 << 63) + 100 - ((uint64_t)1 << 63) % 100}) {
        begin("iteration " + S(p) + " beyond the store (spacing changed at " + S(s) + ")"); bool t = false;
        try { cb->GetFormCopy(p); } catch (std::runtime_error&) { t = true; } expect(t, "reading it is refused");
        if (p % 100 == 0) { t = false; try { put(p); } catch (std::runtime_error&) { t = true; } expect(t, "storing it is refused"); }
    }
    R::active = false;
}
static uint64_t len(int i) { return 1ull << (16 + 2 * i); }
static uint64_t step(int i) { return i == 0 ? 10 : 12ull << (2 * (i - 1)); }
static void many(const Z& Dz) {
    integer D = I(Dz); F xf = R::any_form(Dz); form x = fo(xf); int n = 1 + rnd(8); bool multi = rnd(3) == 0;
    begin("n-segment checkpoints, lengths=" + S(n) + " helpers=" + S(multi));
    FastAlgorithmCallback cb(n, D, x, multi);
    for (int i = 0; i < n; i++) expect(same(*cb.GetForm(0, i), xf), "slot 0 of every length is the input"); expect(same(cb.checkpoints[0], xf) && same(cb.y_ret, xf), "segment end 0 and the resumption point start as the input");
    uint64_t base = rnd(3) == 0 ? 0 : (R::g() >> (64 - 20 - rnd(14))); if (base > (1ull << 34) - (1 << 18)) base = (1ull << 34) - (1 << 18);
    std::map<form*, uint64_t> M; std::map<uint64_t, uint64_t> C; uint64_t y = 0; bool ys = false;
    auto put = [&](uint64_t p) {
        begin("iteration " + S(p) + ", lengths=" + S(n) + " helpers=" + S(multi)); cb.OnIteration(NL_FORM, tag.at(p), p - 1);
        if (!multi) for (int i = 0; i < n; i++) if (p % len(i) % step(i) == 0) { form* q = cb.GetForm(p, i); expect(q >= cb.forms.get() && q < cb.forms.get() + cb.forms_capacity, "the slot is in the store"); M[q] = p; }
        if (p % 65536 == 0) C[p / 65536] = p;
        if (p % 32768 == 0) { y = p; ys = true; }
    };
    for (uint64_t p = base + 1; p <= base + 70000 && R::time_left(); p++) put(p);
    for (int j = 0; j < 3000; j++) { int i = rnd(n); uint64_t p = base + 70000 + rnd(20) * len(i) + step(i) * rnd(len(i) / step(i)); p -= (p % len(i)) % step(i); if (p >> 34) continue; if (rnd(10) == 0) p -= p % 65536; put(p); }
    // what the store holds now, slot by slot
    for (auto& m : M) expect(tagged(*m.first, m.second), "a slot holds the form of the last iteration stored there (" + S(m.second) + ")");
    for (auto& c : C) expect(tagged(cb.checkpoints[c.first], c.second), "segment end " + S(c.first));
    if (multi && ys) expect(tagged(cb.y_ret, y), "the resumption point is the form at the last multiple of 2^15");
    // one full window of the shortest length: all slots survive
    if (!multi) {
        std::map<uint64_t, uint64_t> K; uint64_t b = 65536 * (rnd(2) ? rnd(1000) : (1ull << (15 + rnd(3))) - 1 - rnd(18));      // also across 2^31, 2^32, 2^33
        for (uint64_t w = 0; w < 20; w++) for (uint64_t o = 0; o < 65536; o += 10 * (1 + rnd(40))) { put(b + w * 65536 + o + (b + w * 65536 + o ? 0 : 65536 * 20)); }
        for (uint64_t w = 0; w < 20; w++) if (b) { begin("iteration " + S(b + w * 65536) + " after the ones up to " + S(b + 20 * 65536 - 1)); form* q = cb.GetForm(b + w * 65536, 0); expect(tagged(*q, b + w * 65536), "no slot is overwritten within 20 segments"); }
    }
    for (uint64_t p : {(uint64_t)1 << 34, ((uint64_t)1 << 34) + 65536, (uint64_t)1 << 50}) { begin("iteration " + S(p) + " beyond the segment ends"); bool t = false; try { cb.OnIteration(NL_FORM, tag.at(p), p - 1); } catch (std::runtime_error&) { t = true; } expect(t, "storing it is refused"); }
    for (int b : {0, -1}) { begin("store with " + std::to_string(b) + " lengths"); bool t = false; try { FastAlgorithmCallback c2(b, D, x, multi); } catch (std::invalid_argument&) { t = true; } expect(t, "refused"); }
}
static void fill(const Z& Dz) {
    integer D = I(Dz); F xf = R::any_form(Dz); form x = fo(xf); int n = 1 + rnd(4);
    begin("filling in intermediates, lengths=" + S(n));
    FastAlgorithmCallback cb(n, D, x, true);
    std::vector<F> at; F y = xf; std::map<uint64_t, F> val; uint64_t first = 0, cnt = 4;
    std::vector<F> starts; for (uint64_t i = 0; i < cnt * 32768; i++) { if (i % 32768 == 0) starts.push_back(y); bool hit = false; for (int b = 0; b < n; b++) hit |= i % len(b) % step(b) == 0; if (hit) val[i] = y; y = O::mul(y, y); }
    {
        FastStorage fs(&cb); std::vector<int> ord = {0, 1, 2, 3}; if (rnd(2)) std::swap(ord[0], ord[1]); if (rnd(2)) std::swap(ord[1], ord[3]);
        R::case_alarm = 300; begin("filling in intermediates, lengths=" + S(n) + " order=" + S(ord[0]) + S(ord[1]) + S(ord[2]) + S(ord[3]) + " D=" + Dz.get_str());
        for (int k = 0; k < 3; k++) fs.SubmitCheckpoint(fo(starts[ord[k]]), 32768ull * ord[k]);
        uint64_t done = 0; double t0 = R::now(); std::set<int> have(ord.begin(), ord.begin() + 3); uint64_t want3 = have.count(0) && have.count(1) ? 65536 : 0;
        while ((done = fs.GetFinishedSegment()) < want3 && R::now() - t0 < 200) usleep(2000);
        usleep(20000); expect(fs.GetFinishedSegment() == want3, "only segments whose both halves are filled count as finished");
        fs.SubmitCheckpoint(fo(starts[ord[3]]), 32768ull * ord[3]);
        while ((done = fs.GetFinishedSegment()) < 131072 && R::now() - t0 < 200) usleep(2000);
        expect(done == 131072, "all segments are finished once every half is filled");
        for (auto& v : val) for (int b = 0; b < n; b++) if (v.first % len(b) % step(b) == 0) expect(same(*cb.GetForm(v.first, b), v.second), "intermediate " + S(v.first) + " of length index " + S(b));
    }
    R::case_alarm = 120;
}
static void run() {
    std::cout.rdbuf(nullptr); Z D = R::prime_disc(60);
    one(D); many(D); two(D); fill(D);
    for (int i = 0; R::time_left(); i++) { D = R::prime_disc(20 + rnd(60)); switch (rnd(8)) { case 0: case 1: case 2: case 3: one(D); break; case 4: case 5: many(D); break; case 6: two(D); break; default: fill(D); } }
}
#endif
#if defined(MODE_PROVERS) || defined(MODE_MANAGER)
static void vset(vdf_original::form& v, const F& f) { mpz_set(v.a, f.a.get_mpz_t()); mpz_set(v.b, f.b.get_mpz_t()); mpz_set(v.c, f.c.get_mpz_t()); }
static Bytes cat(const Proof& p) { Bytes r = p.y; r.insert(r.end(), p.proof.begin(), p.proof.end()); return r; }
static bool none(const Proof& p) { return p.y.empty() && p.proof.empty(); }
struct Chain { std::vector<F> v; Chain(const F& x) { v.push_back(x); } const F& at(uint64_t i) { while (v.size() <= i) v.push_back(O::mul(v.back(), v.back())); return v[i]; } };
template <class C> static void feed(C& cb, Chain& y, uint64_t from, uint64_t to) { Tag t; for (uint64_t i = from; i < to; i++) { vset(t.v, y.at(i + 1)); cb.OnIteration(NL_FORM, &t.v, i); } cb.iterations = to; }
[[maybe_unused]] static std::string W(const Z& D, const F& x) { return " D=" + D.get_str() + " x=" + O::str(x); }
#endif
#ifdef MODE_PROVERS
// asks for the proof in a thread of its own and raises the stop flag after us microseconds (never, if negative)
template <class Fn> static Proof call(std::atomic<bool>& stop, long us, Fn f) {
    Proof r; if (us < 0) return f();
    std::thread t([&] { r = f(); }); usleep(us); stop = true; double t0 = R::now(); t.join(); expect(R::now() - t0 < 60, "a raised stop flag ends the request"); return r;
}
static void one(const Z& Dz, uint64_t T, long us) {
    F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf);
    OneWesolowskiCallback cb(D, x, T); feed(cb, y, 0, T);
    Bytes want = O::prove_chain(Dz, xf, {T}); std::atomic<bool> stop(us == 0);
    begin("single proof, iterations=" + S(T) + (us >= 0 ? " stop flag raised after us=" + S(us) : "") + W(Dz, xf));
    Proof p = call(stop, us, [&] { return ProveOneWesolowski(T, D, x, &cb, stop); });
    if (us >= 0 && none(p)) return; expect(us != 0, "nothing is proved once stopped");
    expect(cat(p) == want, "the result and its Wesolowski proof, encoded"); expect(p.witness_type == 0, "witness type");
    bool ok = false; VerifyWesolowskiProof(D, x, fo(y.at(T)), fo(O::wesolowski(Dz, xf, y.at(T), T)), T, ok); expect(ok, "accepted");
}
static void two(const Z& Dz, int n) {
    F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf); R::active = false;
    auto cb = std::make_unique<TwoWesolowskiCallback>(D, x); uint64_t have = 3000 + rnd(20000); feed(*cb, y, 0, have);
    for (int j = 0; j < n && R::time_left(); j++) {
        uint64_t T = j == 0 ? have : j == 1 ? 151 : rnd(3) ? 150 + rnd(have - 150) : 150 + rnd(600); if (T > have) T = have;
        long us = rnd(3) == 0 ? (long)rnd(3000) : -1; bool late = us < 0 && rnd(6) == 0 && have < 30000;
        uint64_t a = T * 2 / 3, m = T - (a -= a % 100), b = m * 2 / 3; b -= b % 100; std::vector<uint64_t> seg = {a, b, m - b};
        Bytes want = O::prove_chain(Dz, xf, seg); std::atomic<bool> stop(us == 0);
        begin("two-level proof, iterations=" + S(T) + (us >= 0 ? " stop flag raised after us=" + S(us) : "") + W(Dz, xf));
        Proof p;
        if (late) { uint64_t back = rnd(T); cb->iterations = back; std::thread t([&] { usleep(rnd(300000)); cb->iterations = back + (T - back) / 2; usleep(rnd(300000)); cb->iterations = have; }); p = ProveTwoWeso(D, x, T, 0, cb.get(), 0, stop); t.join(); }
        else p = call(stop, us, [&] { return ProveTwoWeso(D, x, T, 0, cb.get(), 0, stop); });
        if (us >= 0 && none(p)) continue; expect(us != 0, "nothing is proved once stopped");
        expect(cat(p) == want, "the three segments and their Wesolowski proofs, encoded"); expect(p.witness_type == 2, "witness type");
        Bytes xs = O::ser(xf, O::bits(Dz)), full = cat(p); expect(CheckProofOfTimeNWesolowski(D, xs.data(), full.data(), full.size(), T, 1024, 2), "accepted");
    }
}
struct Par : public ParallelProver {
    std::vector<F>* y; std::atomic<uint64_t> steps{0}; uint64_t limit = ~0ull; bool done = false;
    Par(Segment s, integer D, std::vector<F>* y, uint32_t k_, uint32_t l_) : ParallelProver(s, D), y(y) { k = k_; l = l_; }
    form GetForm(uint64_t i) { return fo((*y)[i * k * l]); } void start() { GenerateProof(); } void stop() {} bool PerformExtraStep() { return steps++ < limit; } void OnFinish() { done = true; is_finished = true; }
};
static void par(const Z& Dz) {
    F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf); uint32_t k = 1 + rnd(8), l = 1 + rnd(6); uint64_t T = rnd(4) == 0 ? rnd(30) + 1 : 1 + rnd(4000);
    y.at(T + k * l + 1); F r = y.at(T); form yf = fo(r); F want = O::wesolowski(Dz, xf, r, T); Segment sg(0, T, x, yf); bool cut = rnd(4) == 0;
    begin("proof in two halves, iterations=" + S(T) + " k=" + S(k) + " l=" + S(l) + W(Dz, xf));
    Par p(sg, D, &y.v, k, l); if (cut) p.limit = rnd(2000); p.start(); expect(cut || p.done, "finishes unless told to stop"); expect(p.done == p.IsFinished(), "finished");
    if (p.done) expect(same(p.GetProof(), want), "the proof is x^floor(2^T/B)");
    Z B = O::challenge(Dz, xf, r); integer Bi = I(B);
    for (int j = 0; j < 20; j++) { uint64_t i = rnd(T / k + 1); if (k * (i + 1) > T) continue; uint64_t b = p.GetBlock(i, k, T, Bi); Z e = ((Z(1) << k) * O::pow2mod(T - k * (i + 1), B)) / B; expect(Z((unsigned long)b) == e, "block " + S(i) + " of the quotient's digits"); }
}
static void inter(const Z& Dz) {
    F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf); int n = 1 + rnd(2), b = rnd(n); uint64_t len = 1ull << (16 + 2 * b), at = b ? 0 : 65536 * rnd(3);
    R::active = false; FastAlgorithmCallback cb(n, D, x, false); feed(cb, y, 0, at + len); F s = y.at(at), r = y.at(at + len); form sf = fo(s), rf = fo(r); Segment sg(at, len, sf, rf); bool cut = rnd(3) == 0;
    F want = O::wesolowski(Dz, s, r, len);
    begin("segment proof, start=" + S(at) + " length=" + S(len) + W(Dz, xf)); new_event = false;
    InterruptableProver p(sg, D, &cb); p.start();
    for (int j = rnd(4); j > 0; j--) { usleep(rnd(20000)); p.pause(); expect(!p.IsRunning(), "paused"); usleep(rnd(5000)); p.resume(); expect(p.IsRunning(), "running again"); }
    if (cut) { usleep(rnd(100000)); if (rnd(2)) p.pause(); p.stop(); return; }
    while (!p.IsFullyFinished()) usleep(1000);
    expect(p.IsFinished() && new_event, "finishing is announced"); expect(same(p.GetProof(), want), "the proof of this segment from this segment's checkpoints");
}
static void run() {
    std::cout.rdbuf(nullptr);
    Z D = R::prime_disc(50); one(D, 1 + rnd(300), -1); two(D, 25); par(D); one(D, 65536 + rnd(3000), -1); inter(D); one(D, 65535, 200000);
    for (int i = 0; R::time_left(); i++) {
        D = R::prime_disc(i % 5 == 4 ? 300 : 20 + rnd(60));
        switch (rnd(12)) { case 0: one(D, 65000 + rnd(2000), rnd(2) ? -1 : (long)rnd(400000)); break; case 1: case 2: case 3: one(D, 1 + rnd(i % 5 == 4 ? 500 : 5000), rnd(4) ? -1 : (long)rnd(4000)); break; case 4: two(D, 30); break; case 5: if (i % 5 < 4) inter(D); break; default: par(D); }
    }
}
#endif
#ifdef MODE_MANAGER
extern "C" int nanosleep(const timespec* t, timespec*) { usleep(t->tv_sec > 1 ? 30000 : t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }    // the wait for missing segments, shortened
// y[at]^floor(2^len / B) from the powers already there, by buckets of 8 bits
static std::map<std::pair<uint64_t, uint64_t>, F> memo;
static F wes(const Z& Dz, Chain& y, uint64_t at, uint64_t len) {
    auto it = memo.find({at, len}); if (it != memo.end()) return it->second;
    Z q = (Z(1) << len) / O::challenge(Dz, y.at(at), y.at(at + len)); F e = O::one(Dz); std::vector<F> k(256, e); std::vector<uint8_t> d(len / 8 + 2); size_t cnt = 0; mpz_export(d.data(), &cnt, -1, 1, 0, 0, q.get_mpz_t());
    for (size_t i = 0; i < cnt; i++) if (d[i]) k[d[i]] = O::mul(k[d[i]], y.at(at + 8 * i));
    F run = e, sum = e; for (int v = 255; v > 0; v--) { run = O::mul(run, k[v]); sum = O::mul(sum, run); }
    return memo[{at, len}] = sum;
}
// splits a chain proof into its segments (first segment first) and checks every one of them
static void accept(const Z& Dz, Chain& y, const Proof& p, uint64_t T, const std::string& what) {
    Bytes b = cat(p); expect(b.size() >= 200 && (b.size() - 200) % 141 == 0, what + ": whole segments, got bytes=" + S(b.size())); size_t n = (b.size() - 200) / 141;
    expect(n <= 63, what + ": at most 64 segments"); expect(p.witness_type == n, what + ": witness type is the number of inner segments");
    uint64_t at = 0; std::vector<uint64_t> L;
    for (size_t j = 0; j < n; j++) {
        const uint8_t* s = b.data() + b.size() - 141 * (j + 1); Z len = O::be(s, 8); expect(len > 0 && len <= Z((unsigned long)(T - at)), what + ": inner segment lengths add up to at most the request"); uint64_t l = len.get_ui();
        auto pf = O::deser(Dz, s + 41); expect(!!pf, what + ": segment proof is a form"); expect(O::be(s + 8, 33) == O::challenge(Dz, y.at(at), y.at(at + l)), what + ": challenge of segment " + S(j));
        expect(*pf == wes(Dz, y, at, l), what + ": proof of segment " + S(j)); at += l;
    }
    Bytes ys(b.begin(), b.begin() + 100); expect(ys == O::ser(y.at(T), O::bits(Dz)), what + ": the output"); auto pf = O::deser(Dz, b.data() + 100); expect(!!pf && T > at && *pf == wes(Dz, y, at, T - at), what + ": proof of the last segment");
}
static const uint64_t Q = 65536;
// a request that has to wait for a missing segment while the manager is stopped
static void cutshort(const Z& Dz) {
    memo.clear(); F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf); uint64_t T = 2 * Q + (rnd(2) ? rnd(500) : 0); y.at(3 * Q);
    R::active = false; FastAlgorithmCallback cb(2, D, x, false); for (uint64_t i = 0; i <= 3; i++) cb.checkpoints[i] = fo(y.at(i * Q));
    ProverManager m(D, &cb, NULL, 2, 1); for (uint64_t j = 1; j < 2; j++) { Segment sg(j * Q, Q, cb.checkpoints[j], cb.checkpoints[j + 1]); sg.proof = fo(wes(Dz, y, j * Q, Q)); m.done_segments[0].emplace_back(Segment()); m.done_segments[0].emplace_back(sg); }
    m.vdf_iteration = 3 * Q; m.max_proving_iteration = 2 * Q; cb.iterations = 3 * Q; uint64_t us = rnd(40000);
    begin("n-segment proof, iterations=" + S(T) + ", segment 0 not proved yet, manager stopped after us=" + S(us) + W(Dz, xf));
    Proof p; std::thread t([&] { p = m.Prove(T); }); usleep(us); m.stopped = true; for (int j = 0; j < 100; j++) { usleep(10000); m.proof_cv.notify_all(); m.last_segment_cv.notify_all(); } t.join();
    expect(none(p), "a stopped request leaves no proof");
}
// finished segments in any pattern the event loop can leave: all short ones up to some point, longer ones here and there
static void byhand(const Z& Dz) {
    memo.clear(); F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf); int n = 1 + rnd(3); uint64_t blocks = 1 + rnd(n == 1 ? 4 : n == 2 ? 13 : 20);
    y.at(blocks * Q + Q); R::active = false; FastAlgorithmCallback cb(n, D, x, false); for (uint64_t i = 0; i <= blocks; i++) cb.checkpoints[i] = fo(y.at(i * Q));
    ProverManager m(D, &cb, NULL, n, 1); std::string have;
    for (int i = 0; i < n; i++) { uint64_t s = Q << (2 * i), c = blocks * Q / s; for (uint64_t j = 0; j < c; j++) if (i == 0 || rnd(3)) {
        Segment sg(j * s, s, cb.checkpoints[j * s / Q], cb.checkpoints[(j + 1) * s / Q]); sg.proof = fo(wes(Dz, y, j * s, s)); while (m.done_segments[i].size() <= j) m.done_segments[i].emplace_back(Segment()); m.done_segments[i][j] = sg; have += " " + S(i) + ":" + S(j); } }
    for (int j = 0; j < 3; j++) {
        uint64_t T = j == 2 ? 1 + rnd(blocks * Q + Q - 1) : Q * (1 + rnd(blocks)) + (j ? rnd(2) : -1); if (T > blocks * Q + Q - 1) T = blocks * Q;
        m.vdf_iteration = blocks * Q; m.max_proving_iteration = blocks * Q; cb.iterations = blocks * Q + Q;
        begin("n-segment proof, iterations=" + S(T) + " lengths=" + S(n) + " finished segments (length index:position)" + have + W(Dz, xf));
        Proof p = m.Prove(T); accept(Dz, y, p, T, "the proof"); expect(m.pending_iters.empty() && m.pending_iters_last_sg.empty(), "the request is no longer pending");
    }
}
// the whole machine: squarings reported by a loop, requests at any time
static void live(const Z& Dz) {
    memo.clear(); F xf = R::any_form(Dz); Chain y(xf); integer D = I(Dz); form x = fo(xf); int n = 1 + rnd(3); uint64_t total = Q * (3 + rnd(6)); y.at(total);
    begin("n-segment proofs while squaring, iterations=" + S(total) + " lengths=" + S(n) + W(Dz, xf));
    auto* cb = new FastAlgorithmCallback(n, D, x, false); cb->iterations = 0; new_event = false;
    ProverManager m(D, cb, NULL, n, 1 + rnd(4)); m.start(); std::vector<std::thread> ts; int K = 1 + rnd(3); std::vector<uint64_t> want; std::vector<Proof> got(K);
    bool cut = rnd(4) == 0; for (int j = 0; j < K; j++) want.push_back(1 + rnd(total - 1));
    std::atomic<int> open{K}; for (int j = 0; j < K; j++) ts.emplace_back([&, j] { usleep(want[j] % 300000); got[j] = m.Prove(want[j]); open--; });
    auto tell = [] { { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } new_event_cv.notify_one(); };
    bool stopped = false; Tag t;
    // segments keep arriving until every request is answered, never far ahead of the segments already proved
    for (uint64_t i = 0; open > 0 && !stopped; i++) {
        vset(t.v, y.at(i + 1)); cb->OnIteration(NL_FORM, &t.v, i); if ((i + 1) % 8192 == 0) cb->iterations = i + 1;
        if ((i + 1) % Q) continue;
        tell(); if (rnd(2)) usleep(rnd(100000));
        if (i + 1 >= total && cut) { usleep(rnd(500000)); m.stop(); stopped = true; }
        for (;;) { { std::lock_guard<std::mutex> lk(m.proof_mutex); if (stopped || m.done_segments[0].size() + 6 >= (i + 1) / Q || open == 0) break; } usleep(2000); }
    }
    for (auto& t : ts) t.join();
    if (!stopped) m.stop();
    for (int j = 0; j < K; j++) { if (stopped && none(got[j])) continue; accept(Dz, y, got[j], want[j], "the proof of iterations=" + S(want[j])); }
    delete cb;
}
static void run() {
    std::cout.rdbuf(nullptr); R::case_alarm = 200; Z D = R::prime_disc(40); byhand(D); live(D); cutshort(D);
    while (R::time_left()) { D = R::prime_disc(20 + rnd(40)); if (rnd(5) == 0) cutshort(D); else if (rnd(3)) byhand(D); else live(D); }
}
#endif
#ifdef MODE_LOOP
// ---- the squaring loop: every squaring is reported once, in order, with the right form
template<class B> struct Rec : B {
    template<class... A> Rec(A&&... a) : B(std::forward<A>(a)...) {}
    std::function<void(int, void*, uint64_t)> on;
    void OnIteration(int type, void* data, uint64_t i) override { on(type, data, i); B::OnIteration(type, data, i); }
};
template<class CB> static void go(const Z& D, const F& xf, CB& cb, uint64_t T, uint64_t stop_at, const std::string& what) {
    integer Di = I(D); std::atomic<bool> stopped(false); uint64_t next = 0, published = 0; F y = xf; form tmp; std::string bad;
    bool stray = fast_algorithm && !what.empty() && what.find("with notes") != std::string::npos; new_event = false;
    cb.on = [&](int type, void* data, uint64_t i) {
        if (!bad.empty()) return;
        if (i != next) { bad = "report of count " + S(i) + " where " + S(next) + " is due"; stopped = true; return; }
        cb.SetForm(type, data, &tmp); y = O::mul(y, y); next++;
        if (!same(tmp, y)) { bad = "the form reported for count " + S(i); stopped = true; return; }
        uint64_t p = cb.iterations; if (p < published || p > next) { bad = "published count " + S(p) + " when " + S(next) + " are reported"; stopped = true; return; }
        published = p; if (next >= 65536 + 32768 && p + 65536 < next) { bad = "published count stays at " + S(p) + " when " + S(next) + " are reported"; stopped = true; return; }
        if (stray && p >= 65536 && p % 65536 < 10000 && next > p + 100) { if (!new_event) { bad = "no event for the segments ending at " + S(p); stopped = true; return; } }
        if (stop_at && next >= stop_at) stopped = true;
    };
    begin(what + " iterations=" + S(T) + (stop_at ? " stopped at " + S(stop_at) : "") + " D=" + D.get_str() + " a=" + xf.a.get_str() + " b=" + xf.b.get_str());
    form f = fo(xf); repeated_square(T, f, Di, cb.L, &cb, nullptr, stopped);
    expect(bad.empty(), bad);
    expect(stopped || next > T, "the loop ends before the wanted count: " + S(next)); expect(!stopped || next <= stop_at + 70000, "the stop flag is not seen");
    if (!stopped) { expect(cb.iterations > T && cb.iterations <= (int64_t)next, "the final count is published: " + S(cb.iterations)); expect(next <= T + 40000, "the loop goes on after the wanted count: " + S(next)); }
}
static void one(const Z& D) {
    F xf = R::any_form(D); integer Di = I(D); form x = fo(xf); int k = rnd(4); fast_algorithm = two_weso = false;
    uint64_t T = 1 + rnd(rnd(3) ? 12000 : 40000), at = rnd(3) ? 0 : 1 + rnd(30000);
    R::active = false;
    if (k == 0) { fast_algorithm = true; auto cb = std::make_unique<Rec<FastAlgorithmCallback>>(3, Di, x, false); cb->iterations = 0; go(D, xf, *cb, 0, 1 + rnd(rnd(4) ? 30000 : 150000), "n-segment loop, with notes"); }
    else if (k == 1) { two_weso = true; auto cb = std::make_unique<Rec<TwoWesolowskiCallback>>(Di, x); cb->iterations = 0; go(D, xf, *cb, 0, 1 + rnd(50000), "two-level loop"); }
    else { auto cb = std::make_unique<Rec<OneWesolowskiCallback>>(Di, x, T); cb->iterations = 0; go(D, xf, *cb, T, at, "one-proof loop"); }
    fast_algorithm = two_weso = false;
}
// the reference squaring on every form of some small discriminants
static void reference() {
    vdf_original v;
    for (int t = 0; t < 40; t++) { long d = 3 + 4 * (long)rnd(rnd(2) ? 400 : 4000); Z D = -d; integer Di = I(D), L = root(-Di, 4);
        for (long a = 1; 3 * a * a <= d; a++) for (long b = -a + 1; b <= a; b++) {
            if ((b * b + d) % (4 * a)) continue; long c = (b * b + d) / (4 * a); if (c < a || (a == c && b < 0) || std::__gcd(a, std::labs(b)) != 1) continue;
            F x{Z(a), Z(b), Z(c)}; begin("reference squaring of " + S(a) + "," + std::to_string(b) + "," + S(c)); form f = fo(x); uint64_t n = 0, base = rnd(1000); F y = O::mul(x, x);
            struct N : INUDUPLListener { std::function<void(void*, uint64_t)> on; void OnIteration(int, void* p, uint64_t i) override { on(p, i); } } l;
            l.on = [&](void* p, uint64_t i) { vdf_original::form* r = (vdf_original::form*)p; expect(i == base, "the count of the report"); expect((F{Z(r->a), Z(r->b), Z(r->c)} == y), "the form reported is the reduced square"); n++; };
            repeated_square_original(v, f, Di, L, base, 1, &l); expect(n == 1, "one report"); expect(same(f, y), "the reduced square");
        } }
}
static void run() {
    init_gmp(); std::cout.rdbuf(nullptr); set_rounding_mode(); R::case_alarm = 300; R::active = false; reference();
#ifndef CHIA_DISABLE_ASM
    static const char* V[] = {"CHIA_DISABLE_AVX2", "CHIA_FORCE_NOTHING", "CHIA_ENABLE_AVX512_IFMA"}; setenv(V[rnd(3)], "1", 1);
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
#endif
    static const int B[] = {512, 1024, 300, 64, 40, 128, 700, 1000, 256, 200};
    int i = rnd(10); do { Z D = R::prime_disc(i % 3 == 2 ? 30 + rnd(1000) : B[i % 10]); i++; one(D); } while (R::time_left());
}
#endif
int main(int argc, char** argv) { R::start(argc, argv); run(); R::done(); return 0; }

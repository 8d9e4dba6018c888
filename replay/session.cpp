// Replays client sessions of /repo over a loopback connection against the protocol as documented. One MODE_* per compilation.
#define main vdf_client_main
#include "vdf_client.cpp"
#undef main
#include "create_discriminant.h"
#include "rt.h"
typedef O::Z Z; typedef O::F F; typedef O::Bytes Bytes;
static std::string S(uint64_t v) { return std::to_string(v); }
using boost::asio::ip::tcp;
static boost::asio::io_context io;
struct Pair {          // a connected pair of sockets; ours is the timelord's end
    tcp::socket ours{io}, theirs{io};
    Pair() { tcp::acceptor a(io, tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)); ours.connect(a.local_endpoint()); a.accept(theirs); ours.set_option(tcp::no_delay(true)); }
    void send(const std::string& s) { boost::asio::write(ours, boost::asio::buffer(s)); }
    std::string get(size_t n) { std::string s(n, 0); boost::asio::read(ours, boost::asio::buffer(&s[0], n)); return s; }
    void close() { boost::system::error_code e; ours.shutdown(tcp::socket::shutdown_send, e); }
};
static std::string two(size_t n) { return std::string(1, '0' + n / 10) + char('0' + n % 10); }
static std::string req(const std::string& d) { return two(d.size()) + d; }
static std::string hexs(const std::string& s) { return O::hex((const uint8_t*)s.data(), s.size()); }

#ifdef MODE_WIRE
static std::string digits(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += '0' + rnd(10); return s; }
static void iteration() {
    std::string m; int k = rnd(8);
    if (k == 0) { size_t n = rnd(21); m = two(n) + digits(n); }
    else if (k == 1) { m = two(20) + (rnd(2) ? "1844674407370955161" : "18446744073709551") ; while (m.size() < 22) m += '0' + rnd(10); }
    else if (k == 2) { Z v = Z("18446744073709551600") + (unsigned long)rnd(40); m = req(v.get_str()); }
    else if (k == 3) { m = two(1 + rnd(40)) + digits(rnd(45)); }
    else if (k == 4) { size_t n = 1 + rnd(20); m = two(n) + digits(n); m[rnd(m.size())] = (char)rnd(256); }
    else if (k == 5) { m = req(S(R::g() >> rnd(64))); m.resize(rnd(m.size() + 1)); }
    else m = req(S(R::g() >> rnd(64)));
    bool ok = m.size() >= 2 && isdigit((unsigned char)m[0]) && isdigit((unsigned char)m[1]); Z v = 0;
    if (ok) { size_t n = (m[0] - '0') * 10 + (m[1] - '0'); ok = n <= 20 && m.size() >= 2 + n; for (size_t i = 0; ok && i < n; i++) { ok = m[2 + i] >= '0' && m[2 + i] <= '9'; if (ok) v = v * 10 + (m[2 + i] - '0'); } if (v > Z("18446744073709551615")) ok = false; }
    Pair p; begin("iteration request, bytes=" + hexs(m)); p.send(m); p.close(); bool got = true; uint64_t r = 0;
    try { r = ReadIteration(p.theirs); } catch (std::exception&) { got = false; }
    expect(got == ok, ok ? "a well-formed request is read" : "a malformed request is refused"); if (ok) expect(Z((unsigned long)r) == v, "the number requested, got " + S(r));
}
static void hello() {
    size_t n = rnd(4) ? 1 + rnd(349) : rnd(420); std::string d; for (size_t i = 0; i < n; i++) d += '0' + rnd(10); size_t fs = rnd(3) == 0 ? rnd(256) : 1 + rnd(100); std::string f; for (size_t i = 0; i < fs; i++) f += (char)rnd(256);
    char l[8]; snprintf(l, 8, "%03zu", n % 1000); std::string m = std::string(l, 3) + d + (char)fs + f; if (rnd(5) == 0) m.resize(rnd(m.size() + 1)); bool cut = m.size() < 3 + n + 1 + fs;
    bool ok = n >= 1 && n <= 349 && fs >= 1 && fs <= 100 && !cut;
    memset(disc, 'x', sizeof disc); memset(initial_form_s, 0x55, sizeof initial_form_s);
    Pair p; begin("session start, bytes=" + hexs(m)); p.send(m); p.close(); bool got = true; try { InitSession(p.theirs); } catch (std::exception&) { got = false; }
    expect(got == ok, ok ? "a well-formed start is read" : "a malformed start is refused");
    if (ok) { expect(std::string(disc) == d, "the discriminant text, terminated"); expect(memcmp(initial_form_s, f.data(), fs) == 0, "the starting form"); for (size_t i = fs; i < 100; i++) expect(initial_form_s[i] == 0x55, "nothing beyond the form is written"); }
}
static void proof() {
    Proof q; q.y = R::brand(rnd(2) ? 100 : rnd(300)); q.proof = R::brand(rnd(2) ? 100 + 141 * rnd(64) : rnd(3000)); q.witness_type = rnd(256); uint64_t T = R::g() >> rnd(64);
    Pair p; begin("sending a proof, iterations=" + S(T) + " y bytes=" + S(q.y.size()) + " proof bytes=" + S(q.proof.size()) + " type=" + S(q.witness_type)); WriteProof(T, q, p.theirs); p.theirs.shutdown(tcp::socket::shutdown_send);
    Bytes b; for (uint64_t v : {T, (uint64_t)q.y.size()}) for (int j = 7; j >= 0; j--) b.push_back((uint8_t)(v >> (8 * j))); if (true) { b.insert(b.end(), q.y.begin(), q.y.end()); b.push_back(q.witness_type); b.insert(b.end(), q.proof.begin(), q.proof.end()); }
    std::string h = O::hex(b), l = p.get(4); uint64_t n = O::be((const uint8_t*)l.data(), 4).get_ui(); expect(n == h.size(), "the length comes first, got " + S(n)); expect(p.get(n) == h, "iterations, size of y, y, witness type, proof, in lowercase hexadecimal"); char c; boost::system::error_code e; expect(boost::asio::read(p.ours, boost::asio::buffer(&c, 1), e) == 0, "nothing follows");
}
static void run() { std::cout.rdbuf(nullptr); for (int i = 0; R::time_left() || i < 500; i++) { iteration(); if (i % 2) hello(); if (i % 3 == 0) proof(); } }
#endif

#ifdef MODE_SESSION
static std::string start(const Z& D, const F& x) { std::string d = D.get_str(); char l[8]; snprintf(l, 8, "%03zu", d.size()); Bytes f = O::ser(x, O::bits(D)); return std::string(l) + d + (char)f.size() + std::string(f.begin(), f.end()); }
struct Answer { uint64_t it; Bytes y; int wt; Bytes proof; };
static Answer answer(Pair& p) {
    std::string l = p.get(4); expect(l != "STOP", "an answer comes before the end"); uint64_t n = O::be((const uint8_t*)l.data(), 4).get_ui(); expect(n % 2 == 0 && n < 1000000, "length of the answer"); std::string h = p.get(n); Bytes b; for (size_t i = 0; i < n; i += 2) b.push_back((uint8_t)strtol(h.substr(i, 2).c_str(), 0, 16));
    Answer a; a.it = O::be(b.data(), 8).get_ui(); uint64_t ys = O::be(b.data() + 8, 8).get_ui(); expect(ys == 100 && b.size() > 17 + ys, "size of y"); a.y = Bytes(b.begin() + 16, b.begin() + 16 + ys); a.wt = b[16 + ys]; a.proof = Bytes(b.begin() + 17 + ys, b.end()); return a;
}
static void check(const Z& D, const F& x, const Answer& a, std::multiset<uint64_t>& want, std::map<uint64_t, F>& val) {
    auto it = want.find(a.it); expect(it != want.end(), "an answer to a request that is open, got iterations=" + S(a.it)); want.erase(it);
    if (!val.count(a.it)) { uint64_t at = 0; F y = x; for (auto& v : val) if (v.first < a.it) { at = v.first; y = v.second; } val[a.it] = O::square_times(y, a.it - at); }
    expect(a.y == O::ser(val[a.it], O::bits(D)), "the output for iterations=" + S(a.it)); Bytes full = a.y; full.insert(full.end(), a.proof.begin(), a.proof.end()); expect(full.size() == 200 + 141u * a.wt, "size of the proof"); Bytes xs = O::ser(x, O::bits(D));
    expect(O::verify(D, xs.data(), full, a.it, 1024, a.wt), "the proof for iterations=" + S(a.it) + " is accepted");
}
static void finish(Pair& p, std::thread& t, const std::string& s) { p.send(s); std::string e = p.get(4); for (int j = 0; j < 400 && e != "STOP"; j++) { p.get(O::be((const uint8_t*)e.data(), 4).get_ui()); e = p.get(4); } expect(e == "STOP", "the session ends with STOP"); p.send("ACK"); t.join(); }
static void simple(const Z& D) {
    F x = R::any_form(D); uint64_t T = 1 + rnd(40000); bool cut = rnd(4) == 0; Pair p; fast_algorithm = false; two_weso = false;
    begin("single-proof session, iterations=" + S(T) + (cut ? " stopped early" : "") + " D=" + D.get_str() + " x=" + O::str(x));
    std::thread t([&] { SessionOneWeso(p.theirs); }); p.send(start(D, x)); expect(p.get(2) == "OK", "ready"); p.send(req(S(T)));
    if (!cut) { std::multiset<uint64_t> want{T}; std::map<uint64_t, F> val; check(D, x, answer(p), want, val); } else usleep(rnd(200000));
    finish(p, t, "00");
}
static void multi(const Z& D, int kind) {
    F x = R::any_form(D); std::vector<uint64_t> q; std::multiset<uint64_t> want; std::string what;
    if (kind == 0) { int n = 1 + rnd(6); for (int i = 0; i < n; i++) q.push_back(200 + rnd(30000)); if (rnd(2)) q.push_back(q[0]); what = "a few requests"; want.insert(q.begin(), q.end()); for (auto v : std::set<uint64_t>(q.begin(), q.end())) while (want.count(v) > 1) want.erase(want.find(v)); }
    else if (kind == 1) { for (int i = 0; i < 100; i++) q.push_back(799500000 + rnd(3) * 1000000000ull + i); uint64_t a = 300 + rnd(1000); q.push_back(a); q.push_back(a + 1 + rnd(1000)); want = {q[100], q[101]}; what = "100 requests beyond the limit and two within it"; }
    else { int n = 100 + 1 + rnd(20); uint64_t far = 300000000; for (int i = 0; i < n; i++) q.push_back(far - 1000 * i); q.push_back(500); want = {500}; what = S(n) + " far requests, each below the ones before, and a near one"; }
    Pair p; fast_algorithm = false; two_weso = true; begin("two-level session, " + what + " D=" + D.get_str() + " x=" + O::str(x) + " first=" + S(q[0]) + " last=" + S(q.back()));
    std::thread t([&] { SessionTwoWeso(p.theirs); }); p.send(start(D, x)); expect(p.get(2) == "OK", "ready"); for (auto v : q) p.send(req(S(v)));
    std::map<uint64_t, F> val; while (!want.empty()) check(D, x, answer(p), want, val);
    finish(p, t, "00");
}
static void run() {
    std::cout.rdbuf(nullptr); R::case_alarm = 120; Z D = R::prime_disc(60); std::vector<std::function<void()>> f = {[&] { multi(D, 1); }, [&] { multi(D, 2); }, [&] { multi(D, 0); simple(D); }};
    int i = rnd(3); f[i](); for (int j = 1; R::time_left(); j++) { D = R::prime_disc(40 + rnd(200)); if (rnd(2)) simple(D); else f[(i + j) % 3](); }
}
#endif
int main(int argc, char** argv) { R::start(argc, argv); init_gmp(); set_rounding_mode(); run(); R::done(); return 0; }

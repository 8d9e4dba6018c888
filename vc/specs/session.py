"""Client sessions (vdf_client.cpp, vdf_client_session.h): what is read from the timelord and what is sent back."""
import z3
from vf import *
import ir
from specs import group
from specs.bindings import samebytes
from specs.store import i64, atomics, mutexes, held
from lib_std import getvec, Str
import eng as E
SYSERR = 'N5boost6system12system_errorE'

class Wire:
    """the connection: bytes IN[0..n) arrive and then it is closed or fails; `out` is what has been sent (ghost)"""
    def __init__(self, e, st, name='received'):
        self.e, self.IN, self.n = e, z3.Array(name, I_, I_), u(st, name + '_n'); st.assume(self.n < 1 << 40)
        self.src = e.newbuf(st, name + '_bytes', 1, self.n, arr=self.IN); self.sock = Obj('socket', 88, 'arg'); st.mem[self.sock] = OS()
        st.g['pos'] = z3.IntVal(0); st.g['out'] = z3.Array('sent_before', I_, I_); st.g['outlen'] = z3.IntVal(0); st.g['refused'] = z3.BoolVal(False)
        use(e, r'^boost::system::error_code::error_code\(\)$', self.ec_new)
        use(e, r'^boost::system::error_code::(operator bool|failed)\(\) const$', lambda en, s, a, c: [Out('ret', s, boolv(simp(zi(self.ec(s, a[0])) != 0)))])
        use(e, r'^boost::system::operator==\(boost::system::error_code const&, boost::system::error_code const&\)$', lambda en, s, a, c: [Out('ret', s, boolv(simp(zi(self.ec(s, a[0])) == zi(self.ec(s, a[1])))))])
        def misc(en, s, a, c): v = zi(en.S(s, a[1])); en.put(s, a[0], Opaque(24, 'error', (simp(z3.If(v == 2, 1, v + 10)),))); return [Out('ret', s, None)]
        use(e, r'^boost::system::error_code::error_code<boost::asio::error::misc_errors>\(', misc)
        use(e, r'^unsigned long boost::asio::read<.*, boost::system::error_code&, ', self.read)
        use(e, r'^unsigned long boost::asio::write<.*$', self.write)
        use(e, r'^boost::system::system_error::system_error\(', lambda en, s, a, c: [Out('ret', s, None)])
        use(e, r'^PrintInfo\(', lambda en, s, a, c: [Out('ret', s, None)])
    @property
    def p(self): return PVal(self.sock, 0)
    def ec_new(self, en, s, a, c): en.put(s, a[0], Opaque(24, 'error', (z3.IntVal(0),))); return [Out('ret', s, None)]
    def ec(self, s, p):
        v = s.mem[p.o].cells.get(p.off)
        if not isinstance(v, Opaque) or v.what != 'error': raise Unsupported('error code')
        return v.data[0]
    def bufs(self, en, s, p):
        q, n = en.load(s, p, ir.PTR), en.U(s, en.load(s, PVal(p.o, p.off + 8), ir.INT(64))); return q, n
    def chk(self, en, s, p, c): en.check(s, p.o is self.sock, 'the connection of this session', c.ins)
    def read(self, en, s, a, c):
        self.chk(en, s, a[0], c); q, n = self.bufs(en, s, a[1]); out = []
        en.bounds(s, q, n, c.ins, 'write'); pos = s.g['pos']; en.check(s, zi(self.ec(s, a[2])) == 0, 'nothing is read after a failure', c.ins)
        ok = zi(pos) + zi(n) <= self.n
        s2 = s.copy(); s2.assume(z3.Not(ok)); k = fresh('failure'); s2.assume(z3.And(k >= 1, k <= 2))      # 1: closed by the other side, 2: anything else
        w = Obj('partial', None); s2.mem[w] = OS(arr=fresh('partial', ARR), es=1)
        if not (isc(n) and n == 0): en.memcpy(s2, q, PVal(w, 0), n, c.ins)
        en.put(s2, a[2], Opaque(24, 'error', (k,))); s2.g['refused'] = z3.BoolVal(True); out.append(Out('ret', s2, en.fint(s2, 'got', 64, False)))
        s.assume(ok); en.memcpy(s, q, PVal(self.src, pos), n, c.ins); s.g['pos'] = simp(zi(pos) + zi(n)); en.put(s, a[2], Opaque(24, 'error', (z3.IntVal(0),)))
        return out + [Out('ret', s, IVal(64, n))]
    def write(self, en, s, a, c):
        self.chk(en, s, a[0], c); q, n = self.bufs(en, s, a[1]); en.bounds(s, q, n, c.ins, 'read')
        if 'write' in s.g.get('need_lock', ()): en.check(s, held(s), 'the connection is written with its mutex held', c.ins)
        j = z3.Int('j!out'); o, L = s.g['out'], zi(s.g['outlen'])
        v = en.arr_state(s, q)
        if v: g, off = v[1].arr, en.elemidx(s, q, 1)[0]
        else:
            if not isc(n): raise Unsupported('writing cells of unknown number')
            g, off = z3.K(I_, z3.IntVal(0)), 0
            for i in range(n): g = z3.Store(g, i, zi(en.U(s, en.load(s, PVal(q.o, q.off + i), ir.INT(8)))))
        s.g['out'] = z3.Lambda([j], z3.If(z3.And(j >= L, j < L + zi(n)), z3.Select(g, j - L + zi(off)), z3.Select(o, j))); s.g['outlen'] = simp(L + zi(n))
        s2 = s.copy(); s2.g['refused'] = z3.BoolVal(True)
        return [en.throw(s2, SYSERR), Out('ret', s, IVal(64, n))]
    def byte(self, i): return z3.Select(self.IN, zi(i))

def start(name, extra=()):
    mod = lower('session.cpp', extra=['-DCHIA_DISABLE_ASM']); e = engine(mod, True, name); st = State(); return mod, e, st

NUM = z3.Function('decimal_value', I_, I_, I_)                 # (first position, digits)
DIG = z3.Function('all_digits', I_, I_, z3.BoolSort())
def num_ax(w, p0, k):
    d = w.byte(zi(p0) + zi(k))
    return [NUM(p0, 0) == 0, DIG(p0, 0), z3.Implies(DIG(p0, zi(k)), NUM(p0, zi(k) + 1) == 10 * NUM(p0, zi(k)) + d - 48), DIG(p0, zi(k) + 1) == z3.And(DIG(p0, zi(k)), d >= 48, d <= 57), z3.Implies(DIG(p0, zi(k)), NUM(p0, zi(k)) >= 0)]
def t_iteration():
    """ReadIteration: two digits saying how many digits follow (at most 20), then the number; anything else, or a number of more than 64 bits, is refused"""
    mod, e, st = start('ReadIteration'); f = find(mod, r'^ReadIteration\('); w = Wire(e, st); L64 = 1 << 64; p0 = z3.IntVal(2)
    i = z3.Int('i!any'); st.assume(z3.ForAll([i], z3.And(w.byte(i) >= 0, w.byte(i) < 256)))
    h0, h1 = w.byte(0), w.byte(1); hd = z3.And(h0 >= 48, h0 <= 57, h1 >= 48, h1 <= 57); n = 10 * (h0 - 48) + h1 - 48
    def H(ctx):
        C = []
        for o in ctx.entry.mem:
            if o.name == '%iters': C.append(('the value of the digits so far', ((o, 0), 0), lambda k: NUM(p0, zi(k))))
        C.append(('only digits so far', lambda v, k: DIG(p0, zi(k)))); return C
    def ax(s, k): return num_ax(w, p0, k) + [x for j in range(21) for x in num_ax(w, p0, z3.IntVal(j))]
    H.axioms = ax; e.loop_hints[''] = H
    outs = e.exec_fn(f, [w.p], st)
    ok = z3.And(w.n >= 2, hd, n <= 20, w.n >= 2 + n, DIG(p0, n), NUM(p0, n) < L64); A = z3.And(*ax(st, z3.IntVal(0)))
    cover(e, outs, [('a number', lambda t: t.kind == 'ret' and zi(e.U(t.st, t.val)) > 5), ('the end', lambda t: t.kind == 'ret' and zi(e.U(t.st, t.val)) == 0), ('refusal', lambda t: t.kind == 'throw')], 'iteration')
    for t in outs:
        s = t.st; s.assume(A)
        if t.kind == 'throw':
            e.check(s, s.exc[0] == 'St13runtime_error', 'refusal by an exception the session handles'); e.check(s, z3.Not(ok), 'a well-formed request is not refused'); continue
        if t.kind != 'ret': continue
        e.check(s, ok, 'a malformed request is refused'); e.check(s, zeq(e.U(s, t.val), NUM(p0, n)), 'the number requested'); e.check(s, zeq(s.g['pos'], simp(2 + n)), 'exactly the request is consumed')
    return e

ATOI = z3.Function('atoi', I_, I_, I_, I_)
def t_init():
    """InitSession: size of the discriminant text (three characters, 1 to 349), the text, size of the starting form (1 to 100), the form"""
    mod, e, st = start('InitSession'); f = find(mod, r'^InitSession\(.*\)$'); w = Wire(e, st)
    i = z3.Int('i!any'); st.assume(z3.ForAll([i], z3.And(w.byte(i) >= 0, w.byte(i) < 256)))
    b = [w.byte(k) for k in range(3)]; isd = z3.And(*[z3.And(x >= 48, x <= 57) for x in b]); val = 100 * (b[0] - 48) + 10 * (b[1] - 48) + b[2] - 48
    def atoi(en, s, a, c):
        cs = [zi(en.U(s, en.load(s, PVal(a[0].o, a[0].off + k), ir.INT(8)))) for k in range(4)]
        en.check(s, cs[3] == 0, 'the text given to atoi is terminated', c.ins); v = ATOI(*cs[:3])
        s.assume(z3.And(v >= -99, v <= 999)); d = [z3.And(x >= 48, x <= 57) for x in cs[:3]]
        s.assume(z3.Implies(z3.And(*d), v == 100 * (cs[0] - 48) + 10 * (cs[1] - 48) + cs[2] - 48)); s.g['size'] = v
        return [Out('ret', s, IVal(32, v, -99, 999))]
    use(e, r'^atoi$', atoi)
    disc, form = e.gptr(st, 'disc'), e.gptr(st, 'initial_form_s')
    # the globals still hold what an earlier session left
    for p, n in ((disc, 350), (form, 100)): e.arr_state(st, p) or e.to_array(st, p.o, 1, None)
    d0, f0 = z3.Array('disc_before', I_, I_), z3.Array('form_before', I_, I_)
    for p, a in ((disc, d0), (form, f0)): e.setarr(st, p, e.arr_state(st, p), a)
    outs = e.exec_fn(f, [w.p], st); sz = ATOI(*b); fs = w.byte(3 + sz)
    ok = z3.And(w.n >= 3, sz >= 1, sz <= 349, w.n >= 4 + sz, fs >= 1, fs <= 100, w.n >= 4 + sz + fs)
    cover(e, outs, [('a start', lambda t: t.kind == 'ret'), ('refusal', lambda t: t.kind == 'throw')], 'init')
    for t in outs:
        s = t.st; j = fresh('any_j')
        if t.kind == 'throw':
            e.check(s, s.exc[0] in ('St13runtime_error', SYSERR), 'refusal by an exception main handles'); e.check(s, z3.Not(ok), 'a well-formed start is not refused'); continue
        if t.kind != 'ret': continue
        e.check(s, ok, 'a malformed start is refused'); e.check(s, z3.Implies(isd, sz == val), 'the size is the number the three digits write')
        D, F = e.arr_state(s, disc)[1].arr, e.arr_state(s, form)[1].arr; dn = lambda x: x % 256
        e.check(s, z3.Implies(z3.And(j >= 0, j < sz), z3.Select(D, j) == w.byte(3 + j)), 'the discriminant text is the one received')
        e.check(s, z3.Implies(z3.And(j >= sz, j < 350), z3.Select(D, j) == 0), 'the discriminant text is terminated')
        e.check(s, z3.Implies(z3.And(j >= 0, j < fs), z3.Select(F, j) == w.byte(4 + sz + j)), 'the starting form is the one received')
        e.check(s, z3.Implies(z3.And(j >= fs, j < 100), z3.Select(F, j) == z3.Select(f0, j)), 'nothing beyond the form is written')
        e.check(s, zeq(s.g['pos'], simp(4 + sz + fs)), 'exactly the start is consumed'); e.check(s, zeq(s.g['outlen'], 0), 'nothing is sent yet')
    return e

TXT = z3.Function('hex_text', ARR, I_, ARR)
def c_hex(en, s, a, c):
    """BytesToStr (P17): two lowercase hexadecimal digits per byte"""
    v = getvec(en, s, a[1], c); s.g['hexed'] = (v.arr, v.len); en.put(s, a[0], Str(1, mulx(v.len, 2), TXT(v.arr, zi(v.len)))); return [Out('ret', s, None)]
def mulx(a, b): return a * b if isc(a) else simp(zi(a) * b)
def locks(e, st, mod):
    """a guard takes the mutex it is given and releases it when it goes"""
    def take(en, s, a, c): m = a[1].o.name; en.check(s, not s.g.get(('lock', m)), 'the mutex is not taken twice', c.ins); s.g[('lock', m)] = True; s.g[('guard', a[0].o.id)] = m; return [Out('ret', s, None)]
    def drop(en, s, a, c): m = s.g.get(('guard', a[0].o.id)); en.check(s, bool(s.g.get(('lock', m))), 'the mutex released is held', c.ins); s.g[('lock', m)] = False; return [Out('ret', s, None)]
    use(e, r'^std::lock_guard<std::mutex>::lock_guard\(std::mutex&\)$', take); use(e, r'^std::lock_guard<std::mutex>::~lock_guard\(\)$', drop); st.g['need_lock'] = ('write',)
def proof_arg(e, mod, st, name='proof'):
    lay = mod.members('Proof'); o = Obj(name, lay[''], 'arg'); st.mem[o] = OS(); yl, pl, wt = u(st, name + '_y_len', 30), u(st, name + '_len', 30), u(st, name + '_type', 8)
    Y, P = z3.Array(name + '_y', I_, I_), z3.Array(name + '_bytes', I_, I_)
    e.put(st, PVal(o, lay['y']), Vec(1, yl, Y)); e.put(st, PVal(o, lay['proof']), Vec(1, pl, P)); e.store(st, PVal(o, lay['witness_type']), ival(8, wt), None)
    return PVal(o, 0), (Y, yl, P, pl, wt)
def be(v, n, j): r = z3.IntVal(0); return [(v / 256 ** (n - 1 - i)) % 256 for i in range(n)]
def t_writeproof():
    """WriteProof: four bytes with the length of the text, then the hexadecimal text of iterations, size of y, y, witness type, proof; one at a time"""
    mod, e, st = start('WriteProof'); f = find(mod, r'^WriteProof\('); w = Wire(e, st); use(e, r'^BytesToStr', c_hex); locks(e, st, mod)
    T = u(st, 'iterations'); pp, (Y, yl, P, pl, wt) = proof_arg(e, mod, st)
    outs = e.exec_fn(f, [i64(T), pp, w.p], st)
    cover(e, outs, [('sent', lambda t: t.kind == 'ret'), ('a failing connection', lambda t: t.kind == 'throw')], 'writeproof')
    for t in outs:
        s = t.st; e.check(s, not held(s), 'no lock is left held')
        if t.kind == 'throw': e.check(s, s.g['refused'], 'it fails only when the connection does'); continue
        if t.kind != 'ret': continue
        b, n = s.g['hexed']; N = 17 + yl + pl; j = fresh('any_j')
        e.check(s, zeq(n, N), 'iterations, size, y, type and proof are written'); e.check(s, zeq(s.g['outlen'], simp(4 + 2 * N)), 'the length and the text are sent')
        want = be(T, 8, 0) + be(yl, 8, 0)
        for i, v in enumerate(want): e.check(s, z3.Select(b, i) == v, 'byte %d of the message' % i)
        e.check(s, z3.Implies(z3.And(j >= 0, j < yl), z3.Select(b, 16 + j) == z3.Select(Y, j)), 'then y'); e.check(s, z3.Select(b, 16 + yl) == wt, 'then the witness type')
        e.check(s, z3.Implies(z3.And(j >= 0, j < pl), z3.Select(b, 17 + yl + j) == z3.Select(P, j)), 'then the proof')
        o = s.g['out']
        for i, v in enumerate(be(2 * N, 4, 0)): e.check(s, z3.Select(o, i) % 256 == v, 'byte %d of the length of the text' % i)
        e.check(s, z3.Implies(z3.And(j >= 0, j < 2 * N), z3.Select(o, 4 + j) == z3.Select(TXT(b, zi(n)), j)), 'then the text')
        # the proof itself is not changed
    return e

def t_send(kind):
    """the proving threads: the proof of exactly the requested count over this session's store is sent, nothing when the request was stopped"""
    fn = {'n': 'CreateAndWriteProof', 'one': 'CreateAndWriteProofOneWeso', 'two': 'CreateAndWriteProofTwoWeso'}[kind]
    mod, e, st = start(fn); f = find(mod, r'^%s\(' % fn); w = Wire(e, st); T = u(st, 'iterations'); D = z3.Int('D'); st.assume(D < 0); e.formD = D; e.formclasses = True
    sig = Obj('stop', 1, 'arg'); st.mem[sig] = OS(); st.g['stop'] = z3.BoolVal(False); wo = Obj('store', 8, 'arg'); st.mem[wo] = OS(); pm = Obj('manager', None, 'arg'); st.mem[pm] = OS()
    def load(en, s, a, c): en.check(s, a[0].o is sig, 'the stop flag of this request', c.ins); v = fresh('stop', z3.BoolSort()); s.assume(z3.Implies(s.g['stop'], v)); s.g['stop'] = v; return [Out('ret', s, boolv(v))]
    use(e, r'^std::atomic<bool>::operator bool\(\) const$|^std::(__atomic_base|atomic)<bool>::load\(.*\) const$', load)
    from forms import FormV, putf, getf
    X = z3.Int('x'); pD = arg_mpz(e, st, 'D', D); pf = arg_form(e, st, 'f', FormV(X, True, D)); lay = mod.members('Proof')
    def prove(en, s, a, c):
        if kind == 'n': en.check(s, a[1].o is pm and zeq(en.U(s, a[2]), T), 'the manager is asked for the requested count', c.ins)
        else:
            q = {'one': (1, 2, 3, 4, 5), 'two': (3, 1, 2, 5, 7)}[kind] if kind == 'one' else (3, 1, 2, 5, 7)
            en.check(s, zeq(en.U(s, a[q[0] if kind == 'one' else 3]), T), 'the proof is for the requested count', c.ins)
            dd, ff, ww, ss = (a[2], a[3], a[4], a[5]) if kind == 'one' else (a[1], a[2], a[5], a[7])
            en.check(s, zeq(en.mpz_get(s, dd, c.ins), D), 'the proof is over the discriminant of the session', c.ins); en.check(s, zeq(getf(en, s, ff, c.ins).cls, X), 'the proof starts from the form of the session', c.ins)
            en.check(s, ww.o is wo, 'the checkpoint store of the session', c.ins); en.check(s, ss.o is sig, 'the stop flag of this request', c.ins)
            if kind == 'two': en.check(s, zand(zeq(en.U(s, a[4]), 0), zeq(en.U(s, a[6]), 0)), 'the proof starts at iteration 0, with all levels', c.ins)
        s.g['proved'] = True; b = a[0]
        en.put(s, PVal(b.o, b.off + lay['y']), Vec(1, fresh('ylen'), fresh('y', ARR))); en.put(s, PVal(b.o, b.off + lay['proof']), Vec(1, fresh('plen'), fresh('pb', ARR))); en.store(s, PVal(b.o, b.off + lay['witness_type']), en.fint(s, 'wt', 8, False), c.ins)
        s.g['proof'] = (b.o, b.off); return [Out('ret', s, None)]
    use(e, r'^ProverManager::Prove\(|^ProveOneWesolowski\(|^ProveTwoWeso\(', prove)
    def wr(en, s, a, c):
        en.check(s, zeq(en.U(s, a[0]), T), 'the proof is sent with its iteration count', c.ins); en.check(s, s.g.get('proof') is not None and a[1].o is s.g['proof'][0] and a[1].off == s.g['proof'][1], 'the proof sent is the one computed', c.ins)
        w.chk(en, s, a[2], c); en.check(s, not s.g.get('sent'), 'a proof is sent once', c.ins); en.check(s, z3.Not(s.g['stop']), 'nothing is sent after a stop was seen', c.ins); s.g['sent'] = True; return [Out('ret', s, None)]
    use(e, r'^WriteProof\(', wr)
    args = {'n': [PVal(pm, 0), i64(T), PVal(sig, 0), w.p], 'one': [i64(T), pD, pf, PVal(wo, 0), PVal(sig, 0), w.p], 'two': [pD, pf, i64(T), PVal(wo, 0), PVal(sig, 0), w.p]}[kind]
    outs = e.exec_fn(f, args, st)
    cover(e, outs, [('sent', lambda t: t.kind == 'ret' and bool(t.st.g.get('sent'))), ('stopped', lambda t: t.kind == 'ret' and not t.st.g.get('sent'))], 'send')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind == 'ret' and not s.g.get('sent'): e.check(s, s.g['stop'], 'nothing is sent only after a stop')
    return e

def whats(e):
    """the only virtual call: what() of a caught exception, some text"""
    def hook(en, s, p, ins): return 'what of an exception' if getattr(ins, 'ty', None) is not None and len(ins.ops[1]) == 1 else None
    e.indirect_hook = hook; use(e, r'^what of an exception$', lambda en, s, a, c: [Out('ret', s, PVal(Obj('what', None, 'opaqueobj'), 0))])
    use(e, r'^std::.*generic::to_string<char const\*>\(', lambda en, s, a, c: (en.put(s, a[0], Str(1, fresh('len'), fresh('text', ARR))), [Out('ret', s, None)])[1])
def t_finish():
    """FinishSession: STOP is sent exactly once, the acknowledgement is read, and a failing or impolite peer is survived"""
    mod, e, st = start('FinishSession'); f = find(mod, r'^FinishSession\('); w = Wire(e, st); locks(e, st, mod); whats(e)
    outs = e.exec_fn(f, [w.p], st)
    cover(e, outs, [('finished', lambda t: t.kind == 'ret')], 'finish')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'no exception leaves'); e.check(s, not held(s), 'no lock is left held')
        o = s.g['out']; n = zi(s.g['outlen'])
        e.check(s, z3.And(n == 4, *[z3.Select(o, i) == ord(ch) for i, ch in enumerate('STOP')]), 'STOP is what is sent')
    return e

from lib_gmp import bitlen
from forms import FormV, putf, getf, needf
DTXT = z3.Function('number_of_text', ARR, I_)
def world1(mod, e, st, w):
    """what the session functions build on: start, runtime, conversions, the squaring loop and prover threads"""
    g = st.g; g['phase'] = 'new'; g['fin'] = 0; g['threads'] = (); g['broken'] = False; D = z3.Int('D'); e.formD = D; group.install(e)
    st.assume(z3.And(bitlen(e, st, D) >= 1, bitlen(e, st, D) <= 1 << 12))
    disc, form = e.gptr(st, 'disc'), e.gptr(st, 'initial_form_s')
    def init(en, s, a, c):
        w.chk(en, s, a[0], c); en.check(s, s.g['phase'] == 'new', 'the start is read first', c.ins); s2 = s.copy(); s.g['phase'] = 'started'
        for p in (disc, form): en.arr_state(s, p) or en.to_array(s, p.o, 1, None)
        en.setarr(s, disc, en.arr_state(s, disc), z3.Array('disc_text', I_, I_)); en.setarr(s, form, en.arr_state(s, form), z3.Array('form_bytes', I_, I_)); return [Out('ret', s, None), en.throw(s2, 'St13runtime_error')]
    use(e, r'^InitSession\([^:]*(::[^:]*)*\)$', init)
    use(e, r'^ConfigureSessionRuntime\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    def text(en, s, a, c):
        if isinstance(a[1], PVal) and a[1].o is disc.o: en.put(s, a[0], Str(1, fresh('disc_len'), z3.Array('disc_text', I_, I_)))
        else: en.put(s, a[0], Str(1, fresh('strlen'), fresh('str', ARR)))
        return [Out('ret', s, None)]
    use(e, r'^std::__cxx11::basic_string<char.*>::basic_string<std::allocator<char> ?>\(char const\*, ', text)
    def parse(en, s, a, c):
        v = getvec(en, s, a[1], c, Str); en.check(s, v.arr.eq(z3.Array('disc_text', I_, I_)), 'the discriminant is the text of the session', c.ins); s2 = s.copy(); en.mpz_new(s, a[0], D, c.ins)
        return [Out('ret', s, None), en.throw(s2, 'St13runtime_error')]
    use(e, r'^integer::integer\(std::__cxx11::basic_string<char.*> const&\)$', parse)
    L = z3.Int('L4')
    def root(en, s, a, c):
        v = en.mpz_get(s, a[1], c.ins); en.check(s, zand(zeq(v, simp(-D)), zeq(en.S(s, a[2]), 4)), 'the bound is the fourth root of the absolute discriminant', c.ins); s.assume(L >= 0); en.mpz_new(s, a[0], L, c.ins); return [Out('ret', s, None)]
    use(e, r'^root\(integer const&, int\)$', root)
    use(e, r'^to_string.*\(__mpz_struct\*\)$', lambda en, s, a, c: (en.put(s, a[0], Str(1, fresh('len'), fresh('text', ARR))), [Out('ret', s, None)])[1])
    whats(e)
    X = z3.Int('x')
    def des(en, s, a, c):
        en.check(s, zeq(en.mpz_get(s, a[1], c.ins), D), 'the form is read over the discriminant', c.ins); en.check(s, a[2].o is form.o and zeq(en.U(s, a[3]), 100), 'the form is the one received', c.ins); en.check(s, s.g['phase'] == 'started', 'after the start', c.ins)
        s2 = s.copy(); putf(en, s, a[0], FormV(X, True, D)); return [Out('ret', s, None), en.throw(s2, 'St13runtime_error')]
    use(e, r'^DeserializeForm\(', des)
    def req(en, s, a, c):
        w.chk(en, s, a[0], c); en.check(s, zeq(s.g['outlen'], 2), 'a request is read once OK is sent', c.ins); s2 = s.copy(); s2.g['broken'] = True
        v = fresh('request'); s.assume(z3.And(v >= 0, v < 1 << 64)); s.g['last'] = v
        if 'first' not in s.g: s.g['first'] = v
        return [Out('ret', s, i64(v)), en.throw(s2, 'St13runtime_error')]
    use(e, r'^ReadIteration\(', req)
    def fin(en, s, a, c): w.chk(en, s, a[0], c); s.g['fin'] += 1; en.check(s, all(t[2] for t in s.g['threads']), 'the session ends when its threads have ended', c.ins); return [Out('ret', s, None)]
    use(e, r'^FinishSession\(', fin)
    use(e, r'^std::reference_wrapper<.*> std::ref<.*>\(', lambda en, s, a, c: [Out('ret', s, a[0])])
    def setstop(en, s, a, c): s.g[('flag', a[0].o.id)] = zb(en.truth(s, a[1])); return [Out('ret', s, a[1])]
    use(e, r'^std::atomic<bool>::operator=\(bool\)$', setstop); use(e, r'^std::atomic<bool>::atomic\(bool\)$', setstop)
    def join(en, s, a, c):
        ts = s.g['threads']; k = [i for i, t in enumerate(ts) if t[0] == a[0].o.id]; en.check(s, len(k) == 1 and not ts[k[0]][2], 'a running thread is joined, once', c.ins)
        if k: en.check(s, s.g.get(('flag', ts[k[0]][3]), z3.BoolVal(False)), 'the thread was told to stop before it is waited for', c.ins); s.g['threads'] = tuple(t if i != k[0] else (t[0], t[1], True, t[3]) for i, t in enumerate(ts))
        return [Out('ret', s, None)]
    use(e, r'^std::thread::join\(\)$', join)
    def gone(en, s, a, c):
        live = [t for t in s.g['threads'] if t[0] == a[0].o.id and not t[2]]
        if live: en.check(s, s.g['broken'], 'a running thread is given up only when the connection broke', c.ins); return [Out('stop', s)]
        return [Out('ret', s, None)]
    use(e, r'^std::thread::~thread\(\)$', gone)
    return D, X, L, disc, form

def t_session_one():
    """SessionOneWeso: OK, one request, one squaring loop and one proof for it, a stop, both threads stopped and joined, STOP"""
    mod, e, st = start('SessionOneWeso'); f = find(mod, r'^SessionOneWeso\('); w = Wire(e, st); D, X, L, disc, form = world1(mod, e, st, w)
    def new(en, s, a, c):
        en.check(s, zeq(en.mpz_get(s, a[1], c.ins), D), 'the store is for the discriminant of the session', c.ins); en.check(s, zeq(getf(en, s, a[2], c.ins).cls, X), 'for the starting form', c.ins); en.check(s, zeq(en.U(s, a[3]), s.g['first']), 'and the requested count', c.ins)
        en.check(s, 'store' not in s.g, 'one store', c.ins); s.g['store'] = a[0].o; v = en.gptr(s, '_ZTV21OneWesolowskiCallback'); en.store(s, a[0], PVal(v.o, 16), c.ins); return [Out('ret', s, None)]
    use(e, r'^OneWesolowskiCallback::OneWesolowskiCallback\(integer&, form&, unsigned long\)$', new)
    def kill(en, s, a, c): en.check(s, all(t[2] for t in s.g['threads']), 'the store goes after the threads that use it', c.ins); s.g['freed'] = s.g.get('freed', 0) + 1; return [Out('ret', s, None)]
    use(e, r'^(One)?WesolowskiCallback::~(One)?WesolowskiCallback\(\)$', kill)
    def spawn(en, s, a, c):
        fn = a[1]; nm = mod.dem.get(fn.name, fn.name); ref = lambda p: en.load(s, p, ir.PTR); v = a[2:]
        en.check(s, zeq(en.U(s, en.load(s, v[0], ir.INT(64))), s.g['first']), 'the thread works on the requested count', c.ins)
        if nm.startswith('repeated_square('):
            en.check(s, zeq(getf(en, s, v[1], c.ins).cls, X), 'squarings start from the form of the session', c.ins); en.check(s, zand(zeq(en.mpz_get(s, ref(v[2]), c.ins), D), zeq(en.mpz_get(s, ref(v[3]), c.ins), L)), 'over its discriminant and root', c.ins)
            en.check(s, ref(v[4]).o is s.g.get('store'), 'into the store of the session', c.ins); en.check(s, ref(v[5]).o is None, 'without segment storage', c.ins); flag = ref(v[6])
        elif nm.startswith('CreateAndWriteProofOneWeso('):
            en.check(s, zeq(en.mpz_get(s, ref(v[1]), c.ins), D), 'the proof is over the discriminant', c.ins); en.check(s, zeq(getf(en, s, v[2], c.ins).cls, X), 'from the form of the session', c.ins); en.check(s, ref(v[3]).o is s.g.get('store'), 'from the store of the session', c.ins); flag = ref(v[4]); w.chk(en, s, ref(v[5]), c)
        else: raise Unsupported('thread of ' + nm)
        en.check(s, all(t[3] == flag.o.id for t in s.g['threads']), 'both threads watch one stop flag', c.ins); en.check(s, z3.Not(s.g[('flag', flag.o.id)]) if ('flag', flag.o.id) in s.g else zeq(en.U(s, en.load(s, flag, ir.INT(8))), 0), 'which is not raised yet', c.ins)
        s.g['threads'] += ((a[0].o.id, nm.split('(')[0], False, flag.o.id),); return [Out('ret', s, None)]
    use(e, r'^std::thread::thread<void \(&\)\(', spawn)
    def H(ctx):
        return [('the count at hand is the last request', lambda v, k, o=o: zeq(v.cell((o, 0)).e, v.cell(('ghost', 'last')))) for o in ctx.entry.mem if o.name == '%iter']
    e.loop_hints[''] = H
    outs = e.exec_fn(f, [w.p], st)
    cover(e, outs, [('a proof session', lambda t: t.kind == 'ret' and len(t.st.g['threads']) == 2), ('nothing requested', lambda t: t.kind == 'ret' and 'first' in t.st.g and not t.st.g['threads'] and not t.st.g['broken'])], 'session')
    for t in outs:
        s = t.st
        if t.kind == 'stop': continue
        if t.kind == 'throw': e.check(s, s.g['phase'] == 'new', 'only a bad start leaves by exception'); continue
        e.check(s, s.g['fin'] == 1, 'STOP is exchanged exactly once')
        if s.g['threads']:
            e.check(s, sorted(x[1] for x in s.g['threads']) == ['CreateAndWriteProofOneWeso', 'repeated_square'], 'one squaring loop and one proof'); e.check(s, s.g.get('freed') == 1, 'the store is released once'); e.check(s, s.g['last'] == 0, 'the session ends on a stop request')
        elif 'first' in s.g and not s.g['broken']: e.check(s, s.g['first'] == 0, 'nothing is started only when nothing is requested')
    return e

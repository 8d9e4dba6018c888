"""Hash-to-prime, challenge and discriminant derivation."""
import z3
from vf import *
import ir
from lib_std import getvec, rangeof, setvec
from lib_gmp import bitlen
def R(e, s, p, c): return e.mpz_get(s, p, c.ins)
def W(e, s, p, v, c): e.mpz_set(s, p, v, c.ins)
def UI(e, s, v): return e.U(s, v)
def SI(e, s, v): return e.S(s, v)
import forms
from forms import FormV, needf
from specs.group import SER, GB, FORM

SHA = z3.Function('sha256', ARR, I_, ARR)              # (message array, length) -> 32 bytes
INC = z3.Function('bytes_plus_one', ARR, I_, ARR)      # big-endian +1 (mod 256^n)
ZT = z3.Function('tail_zeroed', ARR, I_, I_, ARR)      # last k bytes set to zero
TC = z3.Function('trailing_ff', ARR, I_, I_)           # number of trailing 0xff bytes (n if all)
SP = z3.Function('nonce_state', I_, ARR)               # seed bytes before round k
RAW = z3.Function('round_bytes_as_integer', I_, I_)    # big-endian integer of the bytes hashed in round k
CAND = z3.Function('round_candidate', I_, I_)          # ... with the mask bits and bit 0 set
TST = z3.Function('bit_of', I_, I_, z3.BoolSort())
INM = z3.Function('bit_in_mask_prefix', I_, z3.BoolSort())
PRIME = z3.Function('passes_primality', I_, z3.BoolSort())
NONE = z3.Function('no_earlier_prime', I_, z3.BoolSort())

def t_hashprime(m, masklen=None):
    """HashPrime for lengths in (256(m-1), 256m] bits, any seed, any mask within the length"""
    mod = lower('core.cpp')
    f = find(mod, r'^HashPrime\(')
    e = engine(mod, True, 'HashPrime[%d hash blocks]' % m)
    st = State()
    n = u(st, 'seed_len'); st.assume(z3.And(n >= 1, n < (1 << 31)))
    lb = z3.Int('length_bytes'); st.assume(z3.And(lb > 32*(m-1), lb <= 32*m))
    seed = z3.Array('seed', I_, I_)
    mk = z3.Array('mask', I_, I_); ml = u(st, 'mask_len'); st.assume(ml < (1 << 31))
    bit = z3.Int('any_bit')          # an arbitrary bit index
    st.assume(bit >= 0)
    st.assume(SP(0) == seed)
    pseed = arg_vec(e, st, 'seed', 1, n, seed); pmask = arg_vec(e, st, 'bitmask', 4, ml, mk)
    r = sret(st, 'result', 16)
    S = {}
    def digest(k, t):
        a = SP(zi(k))
        for _ in range(t + 1): a = INC(a, n)
        return SHA(a, n)
    def hash256(e, s, a, c):
        arr, i, cnt = rangeof(e, s, a[0], a[1], 1)
        e.bounds(s, a[0], cnt, c.ins, 'read')
        e.check(s, zand(zeq(i, 0), zeq(cnt, n)), 'the whole seed is hashed', c.ins)
        _, _, oc = rangeof(e, s, a[2], a[3], 1)
        e.bounds(s, a[2], 32, c.ins, 'write')
        e.check(s, zeq(oc, 32), 'the digest buffer is 32 bytes', c.ins)
        w = e.arr_state(s, a[2])
        d, _ = e.elemidx(s, a[2], 1)
        e.setarr(s, a[2], w, e.splice(s, w[1].arr, d, SHA(arr, n), 0, 32))
        return [Out('ret', s, None)]
    use(e, r'^void picosha2::hash256<', hash256)
    def imp_(e, s, a, c):
        cnt, order, size, nails = UI(e, s, a[1]), SI(e, s, a[2]), UI(e, s, a[3]), UI(e, s, a[5])
        k = e.loopstack[0] if e.loopstack else 0
        e.check(s, zand(zeq(size, 1), zeq(order, 1), zeq(nails, 0)), 'candidate bytes are read big-endian', c.ins)
        e.check(s, zeq(cnt, lb), 'the candidate has exactly length/8 bytes', c.ins)
        e.bounds(s, a[6], lb, c.ins, 'read')
        x = e.arr_state(s, a[6])
        if x is None: raise Unsupported('import source')
        for t in range(m):
            cntt = 32 if t < m - 1 else simp(lb - 32*(m - 1))
            arr, off = e.window(s, x[1].arr, add(a[6].off, 32*t), cntt)
            want = digest(k, t)
            if arr.eq(want): e.check(s, zeq(off, 0), 'hash block %d of the candidate is the digest of the seed plus its round counter' % t, c.ins)
            else:
                j = fresh('j')
                goal = z3.Implies(z3.And(j >= 0, j < zi(cntt)), z3.Select(arr, j + zi(off)) == z3.Select(want, j))
                e.check(s, goal, 'hash block %d of the candidate is the digest of the seed plus its round counter' % t, c.ins)
        s.assume(RAW(zi(k)) >= 0)
        W(e, s, a[0], RAW(zi(k)), c)
        return [Out('ret', s, None)]
    use(e, r'^__gmpz_import$', imp_)
    def setbit(e, s, a, c):
        v = R(e, s, a[0], c); i = UI(e, s, a[1])
        e.check(s, zi(i) < (1 << 31), 'bit index in range', c.ins)
        w = fresh('bits')
        s.assume(z3.And(TST(w, bit) == z3.Or(zi(i) == bit, TST(zi(v), bit)), z3.Implies(zi(v) >= 0, w >= 0)))
        W(e, s, a[0], w, c)
        return [Out('ret', s, None)]
    use(e, r'^__gmpz_setbit$', setbit)
    def prime(e, s, a, c):
        v = R(e, s, a[0], c); k = e.loopstack[0] if e.loopstack else 0
        e.check(s, z3.And(zi(v) >= 0, TST(zi(v), bit) == TST(CAND(zi(k)), bit)), 'the tested candidate is the round value with exactly the mask bits and bit 0 set', c.ins)
        s.assume(zi(v) == CAND(zi(k)))      # same bits: same number
        b = PRIME(CAND(zi(k)))
        return [Out('ret', s, boolv(b))]
    use(e, r'^integer::prime\(\) const$', prime)
    # the loops are told apart by what they modify and by nesting
    H = Hints(e, S, n, m, seed, mk, ml, bit, lb)
    e.loop_hints[''] = H
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    outs = e.exec_fn(f, [r, pseed, ival(32, simp(8*lb)), pmask], st)
    for o in outs:
        if o.kind == 'throw': e.check(o.st, False, 'no exception'); continue
        v = e.mpz_get(o.st, r); k = S['exit_k']
        e.check(o.st, z3.And(zi(v) == CAND(k), PRIME(CAND(k)), NONE(k)), 'the result is the first candidate that passes the primality test')
    cover(e, outs, [('a result', lambda o: o.kind == 'ret')], 'hashprime')
    return e

class Hints:
    """loop annotations: the search loop (outermost) and, inside a round, the carry loop and the mask loop"""
    def __init__(self, e, S, n, m, seed, mk, ml, bit, lb):
        self.__dict__.update(locals()); self.a0 = []; self.log = {}
    def __call__(self, ctx):
        n, m = self.n, self.m
        C = []
        if len(self.e.loopstack) <= 1:
            for loc in ctx.locs(Vec):
                C.append(('nonce state before the round', (loc, 1), lambda k: SP(zi(k))))
            C.append(('no earlier candidate passed the primality test', lambda v, k: NONE(zi(k))))
            return C
        self.a0 = []
        for loc in ctx.locs(Vec):
            # big-endian increment: the last k bytes were 0xff and are now 0
            a0 = ctx.entry_cell(loc).arr
            self.a0.append(a0)
            C.append(('carry: the last bytes were 0xff and are now zero', (loc, 1), lambda k, a0=a0: ZT(a0, n, zi(k))))
            C.append(('carry position', lambda v, k, a0=a0: z3.And(TC(a0, n) >= zi(k), zi(k) <= n)))
        for loc in ctx.locs(Mpz):
            v0 = ctx.entry_cell(loc).val
            C.append(('mask bits so far', lambda v, k, loc=loc, v0=v0: z3.And(TST(zi(v.cell(loc).val), self.bit) == z3.Or(TST(zi(v0), self.bit), INM(zi(k))), zi(v.cell(loc).val) >= 0)))
            C.append(('mask position', lambda v, k: z3.And(zi(k) <= self.ml)))
        return C
    def at_exit(self, ctx, outs):
        if len(self.e.loopstack) <= 1: return outs
        e, n = self.e, self.n
        for loc in ctx.locs(Vec):
            a0 = ctx.entry_cell(loc).arr
            want = INC(a0, n)
            for o in outs:
                if o.kind != 'exit': continue
                v = o.st.mem[loc[0]].cells.get(loc[1])
                if isinstance(v, Vec) and e.solver.entails(o.st, v.arr == want, 3000):
                    os = o.st.mem[loc[0]].copy(); os.cells[loc[1]] = Vec(v.es, v.len, want, v.gen, v.kind); o.st.mem[loc[0]] = os
        import loops
        return loops.merge_exits(e, ctx.f, outs, 0)
    def axioms(self, s, k):
        n, m, bit = self.n, self.m, self.bit
        if len(self.e.loopstack) <= 1:
            a = SP(k)
            for _ in range(m): a = INC(a, n)
            self.S['exit_k'] = k
            return [SP(k + 1) == a, NONE(0), NONE(k + 1) == z3.And(NONE(k), z3.Not(PRIME(CAND(k)))),
                    TST(CAND(k), bit) == z3.Or(bit == 0, TST(RAW(k), bit), INM(self.ml)), CAND(k) >= 0]
        ax = [z3.Not(INM(0)), INM(k + 1) == z3.Or(INM(k), self.mk[k] == bit), z3.Implies(k < self.ml, z3.And(self.mk[k] >= 0, self.mk[k] < 8*self.lb))]
        for a0 in self.a0:
            tc = TC(a0, n); p = n - 1 - k
            ax += [tc >= 0, tc <= n, ZT(a0, n, 0) == a0, z3.Implies(k < n, z3.And((a0[p] == 255) == (tc >= k + 1), ZT(a0, n, k)[p] == a0[p])),
                   ZT(a0, n, k + 1) == z3.Store(ZT(a0, n, k), p, 0),
                   z3.Implies(z3.And(tc == k, k < n), INC(a0, n) == z3.Store(ZT(a0, n, k), p, a0[p] + 1)),
                   z3.Implies(z3.And(tc == k, k == n), INC(a0, n) == ZT(a0, n, k))]
        return ax

def c_hashprime(e, st, a, c):
    """call-site contract of HashPrime (verified by t_hashprime): a value depending on (seed bytes, length, mask set) only"""
    sd = getvec(e, st, a[1], c); ln = e.S(st, a[2]); mk = getvec(e, st, a[3], c)
    e.check(st, cmpx('>', sd.len, 0), 'hash-to-prime: the seed is not empty', c.ins)
    e.check(st, zand(cmpx('>', ln, 0), cmpx('<=', ln, 1024), zeq(modc(ln, 8), 0)), 'hash-to-prime: length is a positive multiple of 8, at most 1024', c.ins)
    if not isc(mk.len): raise Unsupported('mask of unknown length')
    bits = [simp(z3.Select(mk.arr, z3.IntVal(i))) for i in range(mk.len)]
    for b in bits: e.check(st, zand(cmpx('>=', b, 0), cmpx('<', b, ln)), 'hash-to-prime: mask bit within the length', c.ins)
    r = fresh('hashed_prime')
    st.assume(z3.And(r > 0, r % 2 == 1, r < e.p2(st, ln)))
    top = zor(*[zeq(b, sub(ln, 1)) for b in bits])
    st.assume(imp(top, r >= e.p2(st, sub(ln, 1))))
    low = [zor(zeq(i, 0), *[zeq(b, i) for b in bits]) for i in range(3)]
    st.assume(imp(zand(*low), r % 8 == 7))
    st.g['hp'] = (r, sd.arr, sd.len, ln, bits)
    e.mpz_new(st, a[0], r, c.ins)
    return [Out('ret', st, None)]

def same_bytes(e, st, arr, off, want, woff, n, what):
    """arr[off, off+n) equals want[woff, woff+n)"""
    w, wo = e.window(st, arr, off, n)
    if w.eq(want): e.check(st, zeq(wo, woff), what); return
    j = fresh('j')
    e.check(st, z3.Implies(z3.And(j >= 0, j < zi(n)), z3.Select(w, simp(j + zi(wo))) == z3.Select(want, simp(j + zi(woff)))), what)

def t_getb():
    """GetB(D, x, y) hashes exactly the two serialized forms (x first) into a 264-bit prime with the top bit set"""
    from specs import group
    mod = lower('core.cpp')
    f = find(mod, r'^GetB\(')
    e = engine(mod, True, 'GetB')
    group.install(e, skip=('GetB',))
    use(e, r'^HashPrime\(', c_hashprime)
    st = State()
    D = z3.Int('D'); e.formD = D
    st.assume(z3.And(D < 0, bitlen(e, st, D) <= 1024))
    x, y = z3.Int('x'), z3.Int('y'); rx, ry = z3.Bool('x_reduced'), z3.Bool('y_reduced')
    pD = arg_mpz(e, st, 'D', D); px = arg_form(e, st, 'x', FormV(x, rx, D)); py = arg_form(e, st, 'y', FormV(y, ry, D))
    r = sret(st, 'result', 16)
    outs = e.exec_fn(f, [r, pD, px, py], st)
    for o in outs:
        if o.kind == 'throw': e.check(o.st, False, 'no exception'); continue
        s = o.st
        ev = s.g.get('hp')
        if ev is None: e.check(s, False, 'the challenge comes from hash-to-prime'); continue
        v, arr, ln, bits, mask = ev
        b = bitlen(e, s, D)
        e.check(s, zeq(ln, 200), 'the hashed message is 200 bytes long')
        same_bytes(e, s, arr, 0, SER(D, x, b), 0, 100, 'the first 100 bytes are the serialized input form')
        same_bytes(e, s, arr, 100, SER(D, y, b), 0, 100, 'the last 100 bytes are the serialized output form')
        e.check(s, zeq(bits, 264), 'the challenge has 264 bits')
        e.check(s, zand(*[zor(zeq(m, 263), zeq(m, 0)) for m in mask]), 'no other mask bit is forced')
        e.check(s, zor(*[zeq(m, 263) for m in mask]), 'the top bit is forced')
        e.check(s, zeq(e.mpz_get(s, r), v), 'the result is the hashed prime')
        for p, c in ((px, x), (py, y)):
            fv = forms.getf(e, s, p); e.check(s, zeq(fv.cls, c), 'the forms keep their class')
    cover(e, outs, [('a result', lambda o: o.kind == 'ret')], 'getb')
    return e

def t_creatediscriminant():
    """CreateDiscriminant: invalid_argument exactly for bad sizes / an empty seed, otherwise minus a size-bit prime = 7 mod 8"""
    mod = lower('core.cpp')
    f = find(mod, r'^CreateDiscriminant\(')
    e = engine(mod, True, 'CreateDiscriminant')
    use(e, r'^HashPrime\(', c_hashprime)
    st = State()
    n = u(st, 'seed_len'); st.assume(n < (1 << 31))
    seed = z3.Array('seed', I_, I_)
    ps = arg_vec(e, st, 'seed', 1, n, seed)
    L = z3.Int('size_bits'); st.assume(z3.And(L >= -(1 << 31), L < (1 << 31)))
    r = sret(st, 'result', 16)
    ok = z3.And(L > 0, L <= 1024, L % 8 == 0, n > 0)
    outs = e.exec_fn(f, [r, ps, ival(32, L, -(1 << 31), (1 << 31) - 1)], st)
    for o in outs:
        s = o.st
        if o.kind == 'throw':
            e.check(s, o.st.exc[0] == 'St16invalid_argument', 'the only exception is invalid_argument')
            e.check(s, z3.Not(ok), 'a valid request is not refused'); continue
        e.check(s, ok, 'an invalid request is refused')
        ev = s.g.get('hp')
        if ev is None: e.check(s, False, 'the discriminant comes from hash-to-prime'); continue
        v, arr, ln, bits, mask = ev
        e.check(s, zeq(ln, n), 'the whole seed is hashed')
        same_bytes(e, s, arr, 0, seed, 0, n, 'the hashed bytes are the seed')
        e.check(s, zeq(bits, L), 'the prime has the requested length')
        for i in range(3): e.check(s, zor(zeq(i, 0), *[zeq(m, i) for m in mask]), 'bit %d is forced' % i)
        e.check(s, zor(*[zeq(m, L - 1) for m in mask]), 'the top bit is forced')
        e.check(s, zand(*[zor(zeq(m, 0), zeq(m, 1), zeq(m, 2), zeq(m, L - 1)) for m in mask]), 'no other bit is forced')
        d = e.mpz_get(s, r)
        e.check(s, zeq(d, simp(-zi(v))), 'the discriminant is minus the prime')
        e.check(s, z3.And(zi(d) < 0, zi(d) % 8 == 1, -zi(d) >= e.p2(s, sub(L, 1)), -zi(d) < e.p2(s, L)), 'negative, = 1 mod 8, exactly the requested bit length')
        sv = s.mem[ps.o].cells.get(0)
        e.check(s, isinstance(sv, Vec) and zeq(sv.len, n), 'the caller\'s seed is left alone')
    cover(e, outs, [('a result', lambda o: o.kind == 'ret'), ('a refusal', lambda o: o.kind == 'throw')], 'creatediscriminant')
    return e

"""The primality test (P10): strong base-2 test, Selfridge parameters, Lucas-V test, trial division by products."""
import re
import z3
from vf import *
import ir, alg
from lib_gmp import bitlen, POWM, JAC, GCD
from specs.power import SHR, BIT
from eng import P2

SQ = z3.Function('strong_test_power', I_, I_)          # SQ(0) = 2^m mod n, SQ(k+1) = SQ(k)^2 mod n, m the odd part of n-1
NOSQ = z3.Function('no_earlier_minus_one', I_, z3.BoolSort())
SEL = z3.Function('selfridge_D', I_, I_)                # 5, -7, 9, -11, ...
NOJ = z3.Function('no_earlier_minus_one_symbol', I_, z3.BoolSort())
LU = z3.Function('lucas_U', I_, I_)
DVD = alg.DVD
MR = z3.Function('strong_base2_probable_prime', I_, z3.BoolSort())
VP = z3.Function('lucas_V_probable_prime', I_, z3.BoolSort())
FOUND = z3.Function('selfridge_index', I_, I_)          # least k < 498 with jacobi(SEL(k), n) = -1, or -1
I32 = lambda e: IVal(32, e, -(1 << 31), (1 << 31) - 1)

def peng(name, budget=200):
    mod = lower('core.cpp')
    e = engine(mod, False, name, budget=budget)
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    def lh(en, f, hdr, k, o): o.st.g['lastk'] = k
    e.loop_exit_hook = lh
    return mod, e

def t_miller_rabin():
    """with b = 2 on entry: nonzero exactly when n is a strong base-2 probable prime"""
    mod, e = peng('miller_rabin')
    f = find(mod, r'^miller_rabin\(')
    st = State(); n, s, m = z3.Ints('n s m')
    # n - 1 = 2^s m, m odd
    st.assume(z3.And(n >= 3, n % 2 == 1, s >= 1, m >= 1, m % 2 == 1, n - 1 == m * P2(s), n == m * P2(s) + 1, P2(s) >= 2, bitlen(e, st, n) < (1 << 31), s <= bitlen(e, st, n)))
    pn = arg_mpz(e, st, 'n', n); pb = arg_mpz(e, st, 'b', 2); pd = arg_mpz(e, st, 'd', z3.Int('d0'))
    st.assume(z3.And(SQ(0) == POWM(2, m, n)))
    fired = {}
    def scan(en, s_, a, c):
        v, i = en.mpz_get(s_, a[0], c.ins), en.U(s_, a[1])
        en.check(s_, z3.Or(z3.And(zi(v) == n, zi(i) >= 1, zi(i) <= s), z3.And(zi(v) == n - 1, zi(i) <= s)), 'the scan finds the lowest set bit of n-1', c.ins)
        return [Out('ret', s_, IVal(64, s, 0, (1 << 32)))]     # bits 1..s-1 of n are zero and bit s is set, since n-1 = 2^s m
    use(e, r'^__gmpz_scan1$', scan)
    def powm(en, s_, a, c):
        b, x, mm = en.mpz_get(s_, a[1], c.ins), (en.mpz_get(s_, a[2], c.ins) if not isinstance(a[2], IVal) else en.U(s_, a[2])), en.mpz_get(s_, a[3], c.ins)
        en.check(s_, zi(mm) != 0, 'GMP division by a nonzero divisor', c.ins)
        r = POWM(zi(b), zi(x), zi(mm)); s_.assume(z3.And(r >= 0, r < zi(mm)))
        en.mpz_set(s_, a[0], r, c.ins)
        return [Out('ret', s_, None)]
    use(e, r'^__gmpz_powm(_ui)?$', powm)
    def quot(en, s_, a, c):
        v, i = en.mpz_get(s_, a[1], c.ins), en.U(s_, a[2])
        if en.solver.entails(s_, z3.And(z3.Or(zi(v) == n, zi(v) == n - 1), zi(i) == s)): en.mpz_set(s_, a[0], m, c.ins)     # floor(n / 2^s) = m
        else: en.mpz_set(s_, a[0], en.fdiv(s_, v, en.p2(s_, i)), c.ins)
        return [Out('ret', s_, None)]
    use(e, r'^__gmpz_[tf]div_q_2exp$', quot)
    def h(ctx):
        C = [('the squarings so far', lambda v, k: z3.And(zi(k) < s)), ('no earlier power was -1', lambda v, k: NOSQ(zi(k)))]
        for loc in ctx.locs(Mpz): C.append(('the repeated square', (loc, 0), lambda k: SQ(zi(k))))
        h.k = None
        return C
    def ax(st_, k):
        h.k = k
        return [NOSQ(0), NOSQ(k + 1) == z3.And(NOSQ(k), SQ(k) != n - 1), SQ(k + 1) == POWM(SQ(k), 2, n), SQ(k) >= 0, SQ(k) < n]
    h.axioms = ax
    e.loop_hints[''] = h
    outs = e.exec_fn(f, [pn, pb, pd], st)
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) != 0), ('rejection', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) == 0)], 'miller_rabin')
    for o in outs:
        x = o.st
        e.check(x, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        r = zi(e.S(x, o.val)); k = zi(x.g.get('lastk', 0))
        e.check(x, z3.Implies(r != 0, z3.Or(SQ(0) == 1, z3.And(SQ(k) == n - 1, k >= 0, k < s))), 'acceptance: 2^m = 1 or some 2^(m 2^r) = -1 with r < s (mod n)')
        e.check(x, z3.Implies(r == 0, z3.And(SQ(0) != 1, NOSQ(s))), 'rejection: 2^m is not 1 and no 2^(m 2^r) with r < s is -1 (mod n)')
        e.check(x, zeq(e.mpz_get(x, pn), n), 'n is left alone')
    return e

def c_miller(en, s, a, c):
    n = en.mpz_get(s, a[0], c.ins); b = en.mpz_get(s, a[1], c.ins); en.mpz_get(s, a[2], c.ins)
    en.check(s, z3.And(zi(n) >= 3, zi(n) % 2 == 1), 'strong test: n is odd and at least 3', c.ins)
    en.check(s, zeq(b, 2), 'strong test: the base is 2', c.ins)
    en.check(s, z3.And(a[0].o is not a[1].o, a[0].o is not a[2].o, a[1].o is not a[2].o), 'strong test: distinct operands', c.ins)
    en.mpz_set(s, a[1], fresh('mr_b'), c.ins); en.mpz_set(s, a[2], fresh('mr_d'), c.ins)
    r = fresh('mr'); s.assume(z3.And(r >= 0, r <= 1, (r != 0) == MR(zi(n))))
    return [Out('ret', s, IVal(32, r, 0, 1))]

def t_find_pq():
    """the first of 5, -7, 9, ... with symbol -1, and its parameters; failure only if none has magnitude below 1000"""
    mod, e = peng('find_pq')
    f = find(mod, r'^find_pq\(')
    st = State(); n = z3.Int('n'); st.assume(z3.And(n >= 3, n % 2 == 1))
    pn = arg_mpz(e, st, 'n', n); pt = arg_mpz(e, st, 'tmp', z3.Int('t0'))
    op, oq = Obj('out_p', 4, 'arg'), Obj('out_q', 4, 'arg')
    for o in (op, oq): st.mem[o] = OS()
    J = lambda k: JAC(SEL(zi(k)), n)
    def h(ctx):
        h.k = None
        C = [('no earlier symbol was -1', lambda v, k: NOJ(zi(k))), ('candidate index', lambda v, k: zi(k) <= 498)]
        for loc in ctx.locs(IVal):
            C.append(('the magnitude before the step', lambda v, k, loc=loc: z3.Or(zi(e.S(v.st, v.cell(loc))) == 5 + 2 * zi(k), zi(e.S(v.st, v.cell(loc))) == -5 - 2 * zi(k))))
            C.append(('the magnitude before the step is positive', lambda v, k, loc=loc: zi(e.S(v.st, v.cell(loc))) == 5 + 2 * zi(k)))
            C.append(('the candidate', lambda v, k, loc=loc: zi(e.S(v.st, v.cell(loc))) == SEL(zi(k))))
        return C
    def ax(s, k):
        h.k = k
        q = fresh('half')
        return [NOJ(0), NOJ(k + 1) == z3.And(NOJ(k), J(k) != -1), k >= 0,
                SEL(0) == 5, SEL(k) == z3.If(k % 2 == 0, 5 + 2 * k, -5 - 2 * k), SEL(k + 1) == z3.If(k % 2 == 0, -7 - 2 * k, 7 + 2 * k)]
    h.axioms = ax
    e.loop_hints[''] = h
    outs = e.exec_fn(f, [PVal(op, 0), PVal(oq, 0), pn, pt], st)
    cover(e, outs, [('success', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) == 0), ('failure', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) != 0)], 'find_pq')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        r = zi(e.S(s, o.val)); k = zi(s.g.get('lastk', 0))
        e.check(s, z3.Implies(r != 0, z3.And(NOJ(498))), 'failure: no candidate of magnitude below 1000 has symbol -1')
        if e.solver.entails(s, r != 0): continue
        e.check(s, z3.Implies(r == 0, z3.And(k >= 0, k < 498, J(k) == -1, NOJ(k))), 'success: the first candidate with symbol -1')
        p, q = [zi(e.S(s, e.load(s, PVal(x, 0), ir.INT(32)))) for x in (op, oq)]
        e.check(s, z3.Implies(r == 0, z3.If(k == 0, z3.And(p == 5, q == 5), z3.And(p == 1, 4 * q == 1 - SEL(k)))), 'the parameters are (5,5) for D = 5, otherwise (1,(1-D)/4)')
        e.check(s, z3.Implies(r == 0, p * p - 4 * q == SEL(k)), 'P^2 - 4Q is the candidate')
        e.check(s, zeq(e.mpz_get(s, pn), n), 'n is left alone')
    return e

def pq_of(k):
    """the parameters of candidate k"""
    return z3.If(k == 0, 5, 1), z3.If(k == 0, 5, (1 - SEL(k)) / 4)

def c_find_pq(en, s, a, c):
    n = zi(en.mpz_get(s, a[2], c.ins)); en.mpz_get(s, a[3], c.ins)
    en.check(s, z3.And(n >= 3, n % 2 == 1), 'parameter search: n is odd and at least 3', c.ins)
    en.mpz_set(s, a[3], fresh('pq_tmp'), c.ins)
    k = FOUND(n)
    s2 = s.copy(); s2.assume(k == -1)
    s.assume(z3.And(k >= 0, k < 498))
    p, q = fresh('P'), fresh('Q')
    s.assume(z3.And(z3.Or(z3.And(p == 5, q == 5), z3.And(p == 1, q >= -250, q <= 250, q != 0)), p == z3.Function('lucas_P', I_, I_)(n), q == z3.Function('lucas_Q', I_, I_)(n)))
    en.store(s, a[0], IVal(32, p, 1, 5), c.ins); en.store(s, a[1], IVal(32, q, -250, 250), c.ins)
    r = fresh('nf'); s2.assume(z3.And(r != 0, r > -(1 << 31), r < (1 << 31)))
    return [Out('ret', s, IVal(32, 0)), Out('ret', s2, I32(r))]

def dvd(m, t): return DVD(zi(m), zi(t))

def t_find_lucas_v():
    """u1 ends congruent to V_e(P,Q) modulo m; the doubling identities are lemma lucas (lemmas/)"""
    mod, e = peng('find_lucas_v')
    e.fallbacks.append(alg.dvd_fallback())
    f = find(mod, r'^find_lucas_v\(')
    st = State(); m, E_, p, q = z3.Ints('m e P Q')
    st.assume(z3.And(m >= 3, E_ >= 1, z3.Or(p == 1, p == 5), q >= -250, q <= 250))
    L = bitlen(e, st, E_); st.assume(z3.And(L >= 1, L < (1 << 31)))
    pu, pe, pm, pu2, pt = [arg_mpz(e, st, nm, v) for nm, v in (('u1', z3.Int('a0')), ('e', E_), ('m', m), ('u2', z3.Int('a1')), ('tmp2', z3.Int('a2')))]
    H = lambda k: SHR(E_, simp(L - 1 - zi(k)))
    def lucas(h):
        U0, U1 = LU(h), LU(simp(h + 1))
        return z3.And(LU(simp(2*h)) == 2*U0*U1 - p*U0*U0, LU(simp(2*h + 1)) == U1*U1 - q*U0*U0, LU(simp(2*h + 2)) == p*U1*U1 - 2*q*U0*U1)
    def tst(en, s, a, c):
        v = en.mpz_get(s, a[0], c.ins); i = en.U(s, a[1])
        k = en.loopstack[-1] if en.loopstack else 0
        if not en.solver.entails(s, z3.And(zi(v) == E_, zi(i) == L - 2 - zi(k))):
            b = fresh('bit'); s.assume(z3.And(b >= 0, b <= 1)); return [Out('ret', s, IVal(32, b, 0, 1))]
        out = []
        b = BIT(E_, simp(zi(i)))
        for bit in (0, 1):
            x = s.copy(); h0, h1 = H(k), H(zi(k) + 1)
            x.assume(z3.And(b == z3.BoolVal(bool(bit)), h1 == 2*h0 + bit))
            x.assume(lucas(h0))
            x.assume(z3.And(LU(h1) == LU(simp(2*h0 + bit)), LU(simp(h1 + 1)) == LU(simp(2*h0 + bit + 1))))
            out.append(Out('ret', x, IVal(32, bit)))
        return out
    use(e, r'^__gmpz_tstbit$', tst)
    def h(ctx):
        C = [('rounds', lambda v, k: zi(k) <= L - 1)]
        for loc in ctx.locs(Mpz):
            C.append(('congruent to U of the prefix', lambda v, k, loc=loc: dvd(m, v.cell(loc).val - LU(H(k)))))
            C.append(('congruent to U of the prefix plus one', lambda v, k, loc=loc: dvd(m, v.cell(loc).val - LU(simp(H(k) + 1)))))
        return C
    h.axioms = lambda s, k: [SHR(E_, simp(L - 1)) == 1, SHR(E_, 0) == E_]
    st.assume(z3.And(SHR(E_, simp(L - 1)) == 1, LU(H(0)) == 1, LU(simp(H(0) + 1)) == p, SHR(E_, 0) == E_))
    st.assume(z3.And(LU(1) == 1, LU(2) == p, DVD(m, z3.IntVal(0))))
    e.loop_hints[''] = h
    outs = e.exec_fn(f, [pu, pe, pm, I32(p), I32(q), pu2, pt], st)
    cover(e, outs, [('a result', lambda o: o.kind == 'ret')], 'find_lucas_v')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        v = e.mpz_get(s, pu)
        # loop exit: prefix = e
        k = s.g.get('lastk')
        if k is not None and e.solver.entails(s, zi(k) == L - 1): s.assume(z3.And(LU(H(k)) == LU(E_), LU(simp(H(k) + 1)) == LU(simp(E_ + 1))))
        e.check(s, dvd(m, v - (2*LU(simp(E_ + 1)) - p*LU(E_))), 'the result is congruent to V_e modulo m')
        for pp, w in ((pe, E_), (pm, m)): e.check(s, zeq(e.mpz_get(s, pp), w), 'exponent and modulus are left alone')
    return e


def t_is_vprp():
    """nonzero exactly when Selfridge parameters exist and V_(n+1) = 2Q (mod n)"""
    mod, e = peng('is_vprp')
    e.fallbacks.append(alg.dvd_fallback()); e.fallbacks.append(alg.fallback())
    f = find(mod, r'^is_vprp\(')
    st = State(); n = z3.Int('n'); st.assume(z3.And(n > 500, n % 2 == 1, bitlen(e, st, n) < (1 << 30)))
    V = z3.Function('lucas_V', I_, I_, I_, I_)
    pn, p1, p2_ = [arg_mpz(e, st, nm, v) for nm, v in (('n', n), ('tmp1', z3.Int('a1')), ('tmp2', z3.Int('a2')))]
    use(e, r'^find_pq\(', c_find_pq)
    vs = {}
    def lucas(en, s, a, c):
        E_, m = zi(en.mpz_get(s, a[1], c.ins)), zi(en.mpz_get(s, a[2], c.ins)); p, q = zi(en.S(s, a[3])), zi(en.S(s, a[4]))
        en.check(s, z3.And(m >= 3, E_ >= 1, z3.Or(p == 1, p == 5), q >= -250, q <= 250), 'Lucas sequence: precondition', c.ins)
        en.check(s, len({x.o for x in (a[0], a[1], a[2], a[5], a[6])}) == 5, 'Lucas sequence: distinct operands', c.ins)
        en.check(s, z3.And(m == n, E_ == n + 1, p == z3.Function('lucas_P', I_, I_)(n), q == z3.Function('lucas_Q', I_, I_)(n)), 'V_(n+1) of the selected parameters modulo n is computed', c.ins)
        v, t = fresh('V'), fresh('vq'); s.assume(v - V(p, q, E_) == n * t)
        s.g['V'] = (V(p, q, n + 1), p, q, v, t)
        en.mpz_set(s, a[0], v, c.ins)
        for x in a[5:7]: en.mpz_set(s, x, fresh('lt'), c.ins)
        return [Out('ret', s, None)]
    use(e, r'^find_lucas_v\(', lucas)
    def rnd(lo):
        def h(en, s, a, c):
            v, d = zi(en.mpz_get(s, a[1], c.ins)), zi(en.mpz_get(s, a[2], c.ins))
            en.check(s, d > 0, 'the modulus is positive', c.ins)
            w, qq = fresh('w'), fresh('qq'); s.assume(w == v - d * qq); s.assume(z3.And(-d < w, w <= 0) if lo else z3.And(w >= 0, w < d))
            s.g['round'] = (w, qq); en.mpz_set(s, a[0], w, c.ins)
            return [Out('ret', s, None)]
        return h
    use(e, r'^__gmpz_cdiv_r$', rnd(True)); use(e, r'^__gmpz_fdiv_r$', rnd(False)); use(e, r'^__gmpz_mod$', rnd(False))
    outs = e.exec_fn(f, [pn, p1, p2_], st)
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) != 0), ('rejection', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) == 0)], 'is_vprp')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        r = zi(e.S(s, o.val)); g = s.g.get('V')
        if g is None:
            e.check(s, z3.And(FOUND(n) == -1, r == 0), 'without parameters the answer is composite'); continue
        Vn, p, q, v, t = g
        e.check(s, FOUND(n) >= 0, 'parameters were found')
        # the residue w in the chosen range: w = v - n*x for the quotient of the rounding division
        w, x = fresh('w'), fresh('wx')
        if not e.solver.entails(s, r != 0):
            # rejection: V - 2Q = n*x is refuted for an arbitrary x
            s1 = s.copy(); s1.assume(z3.And(r == 0, Vn - 2*q == n * x))
            rd = s1.g.get('round')
            if rd is not None:
                ww, qq = rd; y = fresh('y'); s1.assume(y == t + x - qq)
                e.check(s1, ww - 2*q == n * y, 'rejection: the residue differs from 2Q by a multiple of n')
                s1.assume(z3.Implies(y >= 1, n * y >= n)); s1.assume(z3.Implies(y <= -1, n * y <= -n))
            e.check(s1, z3.BoolVal(False), 'rejection: V_(n+1) is not congruent to 2Q', assume=False)
        if not e.solver.entails(s, r == 0):
            s2 = s.copy(); s2.assume(r != 0)
            rd = s2.g.get('round')
            if rd is not None: e.check(s2, rd[0] == 2*q, 'acceptance: the residue is 2Q')
            e.check(s2, DVD(n, Vn - 2*q), 'acceptance: V_(n+1) is congruent to 2Q modulo n', assume=False)
        e.check(s, zeq(e.mpz_get(s, pn), n), 'n is left alone')
    return e

def t_bpsw():
    """is_prime_bpsw: nonzero exactly when no product of small primes shares a factor with n, and both tests pass"""
    mod, e = peng('is_prime_bpsw')
    f = find(mod, r'^is_prime_bpsw\(')
    st = State(); n = z3.Int('n'); st.assume(z3.And(n > 500, n % 2 == 1, bitlen(e, st, n) < (1 << 30)))
    pn = arg_mpz(e, st, 'n', n)
    CO = z3.Function('coprime_to_first_products', I_, z3.BoolSort())
    PP = z3.Function('small_prime_product', I_, I_)
    use(e, r'^miller_rabin\(', c_miller)
    def vp(en, s, a, c):
        m = zi(en.mpz_get(s, a[0], c.ins)); en.mpz_get(s, a[1], c.ins); en.mpz_get(s, a[2], c.ins)
        en.check(s, z3.And(m > 500, m % 2 == 1), 'Lucas test: n is odd', c.ins)
        en.check(s, len({x.o for x in a[:3]}) == 3, 'Lucas test: distinct operands', c.ins)
        for x in a[1:3]: en.mpz_set(s, x, fresh('vt'), c.ins)
        r = fresh('vp'); s.assume(z3.And(r >= 0, r <= 1, (r != 0) == VP(m)))
        return [Out('ret', s, IVal(32, r, 0, 1))]
    use(e, r'^is_vprp\(', vp)
    table = pprods_table()
    N = len(table)
    NB = lambda k: z3.And(*[z3.Implies(zi(k) == i, PP(i) == v) for i, v in enumerate(table)])
    def g1(en, s, a, c):
        p, cnt, y = a[0], en.S(s, a[1]), en.U(s, a[2])
        if p.o is None or p.o.kind != 'limbs': raise Unsupported('mpn_gcd_1 on raw limbs')
        v = zi(p.o.owner[2].val); k = en.loopstack[-1] if en.loopstack else 0
        en.check(s, z3.And(v == n, zi(p.off) == 0, zi(cnt) == zi(en.S(s, en.mpz_size_field(s, n)))), 'the gcd is taken of all limbs of n', c.ins)
        en.check(s, z3.And(zi(y) > 0), 'the gcd operand is nonzero', c.ins)
        g = fresh('g'); s.assume(z3.And(g >= 1, g == GCD(n, zi(y))))
        return [Out('ret', s, IVal(64, g, 1, (1 << 64) - 1))]
    use(e, r'^__gmpn_gcd_1$', g1)
    def h(ctx):
        return [('coprime to the products so far', lambda v, k: CO(zi(k))), ('number of products', lambda v, k: zi(k) <= N)]
    h.axioms = lambda s, k: [CO(0), z3.Implies(k < N, CO(k + 1) == z3.And(CO(k), GCD(n, PP(k)) == 1)), NB(k)]
    e.loop_hints[''] = h
    outs = e.exec_fn(f, [pn], st)
    cover(e, outs, [('prime', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) != 0), ('composite', lambda o: o.kind == 'ret' and zi(e.S(o.st, o.val)) == 0)], 'is_prime_bpsw')
    lim = zi(e.S(st, e.mpz_size_field(st, n)))
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        r = zi(e.S(s, o.val)); k = zi(s.g.get('lastk', 0))
        e.check(s, z3.Implies(r != 0, z3.And(MR(n), VP(n), CO(k), k >= 5)), 'prime: coprime to at least the first five products, and both tests pass')
        e.check(s, z3.Implies(r == 0, z3.Or(z3.Not(MR(n)), z3.Not(VP(n)), z3.And(CO(k), k < N, GCD(n, PP(k)) != 1, z3.Implies(lim == 1, k < 5)))), 'composite: a test fails or a factor is shared with a product (one of the first five for numbers below 2^64)')
        e.check(s, zeq(e.mpz_get(s, pn), n), 'n is left alone')
    # the table: products of distinct odd primes; the first five cover every odd prime below 239, and contain only those
    import math
    small = [q for q in range(3, 239, 2) if all(q % d for d in range(3, int(q**0.5) + 1, 2))]
    e.check(st, math.prod(table[:5]) == math.prod(small), 'the first five products are exactly the odd primes below 239')
    e.check(st, all(0 < v < (1 << 64) and v % 2 == 1 for v in table), 'every product is an odd 64-bit number')
    return e

def pprods_table():
    mod = lower('core.cpp')
    g = [v for k, v in mod.gtext.items() if re.fullmatch(r'_ZL\d+pprods', k)]
    if len(g) != 1: raise Unsupported('table of small-prime products')
    return [int(x) % (1 << 64) for x in re.findall(r'i64 (-?\d+)', g[0].split(']', 1)[1])]

def t_prime():
    """integer::prime(): the test on its own value"""
    mod, e = peng('integer::prime')
    f = find(mod, r'^integer::prime\(\) const$')
    st = State(); n = z3.Int('n'); pn = arg_mpz(e, st, 'n', n)
    B = z3.Function('bpsw_result', I_, I_)
    def b(en, s, a, c):
        v = zi(en.mpz_get(s, a[0], c.ins)); s.assume(z3.And(B(v) >= 0, B(v) <= 2)); return [Out('ret', s, IVal(32, B(v), 0, 2))]
    use(e, r'^is_prime_bpsw\(', b)
    for o in e.exec_fn(f, [pn], st):
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind == 'ret': e.check(s, (zi(e.U(s, o.val)) != 0) == (B(n) != 0), 'the answer is that of the primality test on this number'); e.check(s, zeq(e.mpz_get(s, pn), n), 'n is left alone')
    return e

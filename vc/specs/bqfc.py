"""Partial extended GCD and the compressed form encoding."""
import z3
from vf import *
import ir, alg, os, re
from lib_gmp import bitlen, GCD, ISQRT

SG = z3.Function('alternating_sign', I_, I_)

def c_bitlen(e, st, a, c):
    x = e.mpz_get(st, a[0], c.ins)
    e.check(st, cmpx('>=', x, 0), 'bit length: operand is non-negative', c.ins)
    n = bitlen(e, st, x)
    return [Out('ret', st, IVal(64, z3.If(zi(x) == 0, z3.IntVal(1), zi(n)), 1, 1 << 32))]
def c_word(e, st, a, c):
    x = e.mpz_get(st, a[0], c.ins); s = e.S(st, a[1])
    e.check(st, cmpx('>=', x, 0), 'top word: operand is non-negative', c.ins)
    e.check(st, cmpx('>=', s, 0), 'top word: shift is non-negative', c.ins)
    p = e.p2(st, s)
    w = e.fdiv(st, x, p)
    n = bitlen(e, st, x)
    st.assume(z3.Implies(zi(n) <= zi(s) + 63, zi(x) < zi(p) * (1 << 63)))      # x < 2^n <= 2^(s+63)
    st.assume(z3.Implies(zi(x) < zi(p) * (1 << 63), w < (1 << 63))); st.assume(w >= 0)       # floor(x/p) < y when x < p*y
    if e.solver.entails(st, w < (1 << 63), 3000): return [Out('ret', st, IVal(64, w, 0, (1 << 63) - 1))]
    if e.rec: e.check(st, w < (1 << 63), 'top word: the value fits a signed word', c.ins)
    return [Out('ret', st, IVal(64, fresh('word'), -(1 << 63), (1 << 63) - 1))]

class XH:
    def __init__(self, e, a, b, L):
        self.e, self.a, self.b, self.L = e, a, b, L; self.g = None
    def __call__(self, ctx):
        return self.outer(ctx) if len(self.e.loopstack) <= 1 else self.inner(ctx)
    def outer(self, ctx):
        a, b, L = self.a, self.b, self.L
        C = []
        locs = self.locs            # the four parameters: (co2, co1, r2, r1)
        def g(v): return [zi(v.cell(l).val) for l in locs]
        C.append(('remainders are non-negative', lambda v, k: (lambda t: z3.And(t[2] >= 0, t[3] >= 0))(g(v))))
        C.append(('cofactors have opposite signs', lambda v, k: (lambda t: z3.Or(z3.And(t[0] >= 0, t[1] <= 0), z3.And(t[0] <= 0, t[1] >= 0)))(g(v))))
        C.append(('determinant is plus or minus the first argument', lambda v, k: (lambda t: z3.Or(t[2]*t[1] - t[3]*t[0] == a, t[2]*t[1] - t[3]*t[0] == -a))(g(v))))
        C.append(('remainder 2 is a combination', lambda v, k: (lambda t: alg.DVD(a, t[2] + t[0]*b))(g(v))))
        C.append(('remainder 1 is a combination', lambda v, k: (lambda t: alg.DVD(a, t[3] + t[1]*b))(g(v))))
        C.append(('the cofactor is at most a/(L+1)', lambda v, k: (lambda t: z3.Or(z3.And(t[1]*(L + 1) <= a, t[1]*(L + 1) >= -a), z3.And(t[0] == 0, t[2] == a, t[1] == -1)))(g(v))))
        return C
    def inner(self, ctx):
        """roles by behaviour: pairs (p, q) where one step moves q into p; entry values tell the pairs apart"""
        pairs = []
        iv = ctx.locs(IVal)
        def same1(x, y): return isinstance(x, IVal) and isinstance(y, IVal) and x.n == y.n == 64 and same(x.e, y.e)
        for p in iv:
            for q in iv:
                if p != q and ctx.backs and all(same1(o.st.mem[p[0]].cells.get(p[1]), ctx.head.mem[q[0]].cells.get(q[1])) for o in ctx.backs): pairs.append((p, q))
        ent = lambda l: ctx.entry_cell(l).e
        A = [x for x in pairs if same(ent(x[0]), 0) and same(ent(x[1]), 1)]
        B = [x for x in pairs if same(ent(x[0]), 1) and same(ent(x[1]), 0)]
        R = [x for x in pairs if not isc(ent(x[0])) and not isc(ent(x[1]))]
        if not (len(A) == len(B) == len(R) == 1): return []
        (a2, a1), (b2, b1), (r2, r1) = A[0], B[0], R[0]
        R2, R1 = zi(ent(r2)), zi(ent(r1))
        def g(v): return [zi(v.cell(l).e) for l in (a2, a1, b2, b1, r2, r1)]
        C = []
        def inv(nm, fn): C.append((nm, lambda v, k: fn(zi(k), *g(v))))
        inv('sign alternates', lambda k, *_: z3.And((k % 2 == 0) == (SG(k) == 1), (k % 2 == 1) == (SG(k) == -1)))
        inv('words are non-negative', lambda k, A2, A1, B2, B1, S2, S1: z3.And(S2 >= 0, S1 >= 0, S2 < (1 << 63), S1 < (1 << 63)))
        inv('step signs', lambda k, A2, A1, B2, B1, S2, S1: z3.Or(z3.And(SG(k) == 1, A2 <= 0, A1 >= 0, B2 >= 0, B1 <= 0), z3.And(SG(k) == -1, A2 >= 0, A1 <= 0, B2 <= 0, B1 >= 0)))
        inv('words decrease', lambda k, A2, A1, B2, B1, S2, S1: z3.Implies(k >= 1, S2 > S1))
        inv('word identity 1', lambda k, A2, A1, B2, B1, S2, S1: A1*S2 - A2*S1 == SG(k)*R2)
        inv('word identity 2', lambda k, A2, A1, B2, B1, S2, S1: B2*S1 - B1*S2 == SG(k)*R1)
        inv('word combination 2', lambda k, A2, A1, B2, B1, S2, S1: S2 == B2*R2 + A2*R1)
        inv('word combination 1', lambda k, A2, A1, B2, B1, S2, S1: S1 == B1*R2 + A1*R1)
        inv('unimodular', lambda k, A2, A1, B2, B1, S2, S1: A1*B2 - A2*B1 == SG(k))
        inv('cofactors fit', lambda k, A2, A1, B2, B1, S2, S1: z3.And(*[z3.And(x > -(1 << 63), x < (1 << 63)) for x in (A2, A1, B2, B1)]))
        inv('b grows', lambda k, A2, A1, B2, B1, S2, S1: z3.And(z3.Implies(z3.And(k >= 1, SG(k) == 1), z3.And(-B1 >= B2, -B1 >= 1)), z3.Implies(SG(k) == -1, z3.And(B1 >= -B2, B1 >= 1))))
        inv('a grows', lambda k, A2, A1, B2, B1, S2, S1: z3.And(z3.Implies(z3.And(k >= 2, SG(k) == 1), A1 >= -A2), z3.Implies(z3.And(k >= 2, SG(k) == -1), -A1 >= A2)))
        inv('quotients were certain', lambda k, A2, A1, B2, B1, S2, S1: z3.And(z3.Implies(z3.And(k >= 1, SG(k) == -1), z3.And(S1 >= -A1, S2 - S1 >= B1 - B2)), z3.Implies(z3.And(k >= 2, SG(k) == 1), z3.And(S1 >= -B1, S2 - S1 >= A1 - A2))))
        inv('first step', lambda k, A2, A1, B2, B1, S2, S1: z3.Implies(k == 0, z3.And(A2 == 0, A1 == 1, B2 == 1, B1 == 0, S2 == R2, S1 == R1)))
        inv('the word decreases', lambda k, A2, A1, B2, B1, S2, S1: S1 + k <= R1)
        for l, c in ctx.allcells(IVal):
            if l not in ctx.mod and c.n == 64 and not isc(c.e): inv('the step was taken above %s' % (l,), lambda k, A2, A1, B2, B1, S2, S1, w=zi(c.e): z3.Implies(k >= 1, S2 > w))
        self.g, self.R2, self.R1 = g, R2, R1
        return C
    def at_exit(self, ctx, outs):
        if len(self.e.loopstack) <= 1: return outs
        import loops
        from eng import FDIV
        e, k = self.e, zi(self.e.loopstack[-1])
        fd = lambda t: z3.is_app(t) and t.decl().eq(FDIV)
        if not (self.g and fd(self.R2) and fd(self.R1) and self.R2.arg(1).eq(self.R1.arg(1))): return outs
        P, r2, r1, R2, R1 = self.R2.arg(1), self.R2.arg(0), self.R1.arg(0), self.R2, self.R1
        for o in outs:
            if o.kind != 'exit': continue
            A2, A1, B2, B1, S2, S1 = self.g(loops.View(e, ctx.f, None, o.st))
            E2, E1 = fresh('eps2'), fresh('eps1'); s = o.st
            s.assume(z3.And(E2 == r2 - P*R2, E1 == r1 - P*R1))
            e.check(s, z3.And(E2 >= 0, E2 < P, E1 >= 0, E1 < P), 'truncation errors are below the unit of the words')
            e.check(s, B2*r2 + A2*r1 == P*S2 + B2*E2 + A2*E1, 'the new remainder 2 in words')
            e.check(s, B1*r2 + A1*r1 == P*S1 + B1*E2 + A1*E1, 'the new remainder 1 in words')
            e.check(s, z3.And(z3.Implies(SG(k) == 1, B2*E2 + A2*E1 >= A2*P), z3.Implies(SG(k) == -1, B2*E2 + A2*E1 >= B2*P)), 'error of remainder 2')
            e.check(s, z3.And(z3.Implies(SG(k) == 1, B1*E2 + A1*E1 >= B1*P), z3.Implies(SG(k) == -1, B1*E2 + A1*E1 >= A1*P)), 'error of remainder 1')
            e.check(s, z3.Implies(k >= 1, B1*r2 + A1*r1 >= 0), 'the new remainder 1 is non-negative')
            e.check(s, z3.Implies(k >= 1, B2*r2 + A2*r1 >= 0), 'the new remainder 2 is non-negative')
            c2, c1 = [zi(ctx.entry_cell(l).val) for l in self.locs[:2]]; n1 = B1*c2 + A1*c1; n2 = B2*c2 + A2*c1
            L = self.L; a = self.a
            e.check(s, z3.Implies(k >= 1, P*S2 >= L + 1), 'the last step was taken above the limit')
            e.check(s, z3.Or(z3.And(SG(k)*c1 >= 0, n1 >= 0, n2 <= 0), z3.And(SG(k)*c1 <= 0, n1 <= 0, n2 >= 0)), 'signs of the new cofactors')
            goal = z3.Implies(k >= 1, z3.And(n1*(L + 1) <= a, n1*(L + 1) >= -a))
            # a = |c1| r2 + |c2| r1 = P(|n1| S2 + |n2| S1) + |c1| E2 + |c2| E1, all terms non-negative
            for sg in (1, -1):
                for sc in (1, -1):
                    t = s.copy(); t.assume(SG(k) == sg); t.assume(z3.And(c1 >= 0, c2 <= 0) if sc == 1 else z3.And(c1 <= 0, c2 >= 0))
                    if not e.solver.feasible(t, True): continue
                    N1, N2, U, V, X, Y, W = [fresh(x) for x in ('n1', 'n2', 'u', 'v', 'x', 'y', 'w')]
                    sn = sg*sc
                    t.assume(z3.And(N1 == n1, N2 == n2)); e.check(t, z3.And(sn*N1 >= 0, sn*N2 <= 0), 'signs of the new cofactors')
                    t.assume(z3.And(U == c1*r2, V == c2*r1, X == c1*E2, Y == c2*E1, W == P*S2))
                    e.check(t, z3.And(sc*U >= 0, sc*V <= 0, sc*X >= 0, sc*Y <= 0), 'signs of the parts')
                    e.check(t, sc*(U - V) == a, 'determinant')
                    Q2, Q1 = fresh('q2'), fresh('q1'); t.assume(z3.And(Q2 == W*N1, Q1 == P*S1*N2))
                    e.check(t, sn*Q1 <= 0, 'sign of the other part')
                    e.check(t, sg*(Q2 - Q1) == U - V - X + Y, 'determinant in words')
                    e.check(t, sn*Q2 <= a, 'the new cofactor times the word')
                    Z = fresh('z'); t.assume(Z == (W - L - 1)*N1)
                    e.check(t, z3.Implies(k >= 1, sn*Z >= 0), 'the word is above the limit')
                    e.check(t, N1*(L + 1) == Q2 - Z, 'the cofactor times the limit')
                    R = fresh('r'); t.assume(R == N1*(L + 1)); e.check(t, sn*R >= 0, 'sign of the product')
                    e.check(t, z3.Implies(k >= 1, z3.And(R <= a, R >= -a)), 'the new cofactor is at most a/(L+1)')
                    e.check(t, R == n1*(L + 1), 'definition')
                    e.check(t, goal, 'the new cofactor is at most a/(L+1), expanded')
            s.assume(goal)       # both signs
        return outs
    def axioms(self, s, k): return [SG(0) == 1, SG(k + 1) == -SG(k), SG(k)*SG(k) == 1, z3.Or(SG(k) == 1, SG(k) == -1), alg.DVD(self.a, 0), alg.DVD(self.a, self.a)]

def t_xgcd(constructed=True):
    mod = lower('core.cpp')
    f = find(mod, r'^mpz_xgcd_partial\(__mpz_struct\*, __mpz_struct\*, __mpz_struct\*, __mpz_struct\*, __mpz_struct const\*\)$')
    e = engine(mod, False, 'mpz_xgcd_partial', budget=600)
    e.nl_first = True; e.fastloops = True
    e.fallbacks += [alg.fallback(), alg.dvd_fallback(), alg.or_fallback(), alg.nlin_fallback(6, bool(os.environ.get('VF_DEBUG')))]
    use(e, r'^chiavdf_mpz_bitlen_nonneg', c_bitlen)
    use(e, r'^chiavdf_mpz_extract_uword_from_shift_nonneg', c_word)
    st = State(); a, b, L = z3.Ints('a b L')
    st.assume(z3.And(a > 0, b >= 0, L >= 0))
    # the per-thread temporaries: not yet constructed, or constructed by an earlier call and holding anything
    for nm in mod.gtext:
        if re.match(r'_ZGVZ16mpz_xgcd_partial', nm): e.store(st, e.gptr(st, nm), IVal(8, int(constructed)), None)
        if not constructed: continue
        if re.match(r'_ZZ16mpz_xgcd_partial.*3tls$', nm):
            p = e.gptr(st, nm)
            for i in (0, 16): e.mpz_new(st, PVal(p.o, i), z3.Int('old_tmp%d' % i))
    co2, co1 = arg_mpz(e, st, 'co2', z3.Int('old_co2')), arg_mpz(e, st, 'co1', z3.Int('old_co1'))
    r2, r1, pL = arg_mpz(e, st, 'r2', a), arg_mpz(e, st, 'r1', b), arg_mpz(e, st, 'L', L)
    H = XH(e, a, b, L); H.locs = [(p.o, 0) for p in (co2, co1, r2, r1)]
    e.loop_hints[''] = H
    e.debug = bool(os.environ.get('VF_DEBUG'))
    outs = e.exec_fn(f, [co2, co1, r2, r1, pL], st)
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        C2, C1, R2, R1 = [zi(e.mpz_get(s, p)) for p in (co2, co1, r2, r1)]
        e.check(s, z3.And(R2 >= 0, R1 >= 0, R1 <= L if True else True), 'remainders')
    return e

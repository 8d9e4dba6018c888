"""Assumed contracts on GMP (external dependency): the documented mathematical meaning of each
mpz_/mpn_ function used by the code under contract.  Every function named here is reported in the
evidence as an assumed contract when a run uses it."""
import re
import z3
import eng as E
from eng import *

BYTE = z3.Function('byte', I_, I_, I_)          # i-th little-endian byte of |v|
GCD = z3.Function('gcd', I_, I_, I_)
JAC = z3.Function('jacobi', I_, I_, I_)
POWM = z3.Function('powm', I_, I_, I_, I_)
ISQRT = z3.Function('isqrt', I_, I_)
IROOT = z3.Function('iroot', I_, I_, I_)
TSTBIT = z3.Function('tstbit', I_, I_, z3.BoolSort())
BEINT = z3.Function('beint', ARR, I_, I_, I_)   # big-endian integer of n bytes of an array at an offset
LEINT = z3.Function('leint', ARR, I_, I_, I_)
PROBPRIME = z3.Function('probprime', I_, I_, I_)

def ret(st, v=None): return [Out('ret', st, v)]
def zabs(e):
    if isc(e): return abs(e)
    return z3.If(e >= 0, e, -e)
def known_nonneg(eng, st, e):
    if isc(e): return e >= 0
    return eng.solver.entails(st, e >= 0)
def absval(eng, st, e):
    if isc(e): return abs(e)
    if known_nonneg(eng, st, e): return e
    if eng.solver.entails(st, e <= 0): return simp(-e)
    return zabs(e)

def tdiv(eng, st, n, d):
    if isc(n) and isc(d) and d != 0:
        q = abs(n) // abs(d)
        return q if (n >= 0) == (d > 0) else -q
    if known_nonneg(eng, st, n) and (isc(d) and d > 0 or not isc(d) and eng.solver.entails(st, d > 0)):
        return eng.fdiv(st, n, d)
    q = eng.fdiv(st, zabs(n), zabs(d))
    return z3.If((zi(n) >= 0) == (zi(d) > 0), q, -q) if not (isc(n) and isc(d)) else q

def bitlen(eng, st, v):
    if isc(v): return abs(v).bit_length()
    a = absval(eng, st, v)
    e = E.BITLEN(zi(a))
    bit_axioms(eng, st, a, e)
    return e
def bit_axioms(eng, st, a, e):
    st.assume(z3.And(e >= 0, z3.Implies(zi(a) == 0, e == 0), z3.Implies(zi(a) > 0, z3.And(e >= 1, eng.p2(st, e - 1) <= zi(a), zi(a) < eng.p2(st, e)))))
    st.assume(e < (1 << 32))

def handlers():
    H = {}
    def reg(*names):
        def d(f):
            for n in names: H['__gmpz_' + n] = f
            return f
        return d
    def R(eng, st, a, c): return eng.mpz_get(st, a, c.ins)
    def W(eng, st, a, v, c): eng.mpz_set(st, a, v, c.ins)
    def SI(eng, st, a): return eng.S(st, a)
    def UI(eng, st, a): return eng.U(st, a)

    @reg('init')
    def _(eng, st, a, c): eng.mpz_new(st, a[0], 0, c.ins); return ret(st)
    @reg('init2')
    def _(eng, st, a, c): eng.mpz_new(st, a[0], 0, c.ins); return ret(st)
    @reg('inits')
    def _(eng, st, a, c):
        for p in a:
            if getattr(p, 'o', None) is None: break
            eng.mpz_new(st, p, 0, c.ins)
        return ret(st)
    @reg('clear')
    def _(eng, st, a, c): eng.mpz_clear(st, a[0], c.ins); return ret(st)
    @reg('clears')
    def _(eng, st, a, c):
        for p in a:
            if getattr(p, 'o', None) is None: break
            eng.mpz_clear(st, p, c.ins)
        return ret(st)
    @reg('realloc2', '_realloc', 'realloc')
    def _(eng, st, a, c): return ret(st, NULL)
    @reg('init_set')
    def _(eng, st, a, c): v = R(eng, st, a[1], c); eng.mpz_new(st, a[0], v, c.ins); return ret(st)
    @reg('init_set_ui')
    def _(eng, st, a, c): eng.mpz_new(st, a[0], UI(eng, st, a[1]), c.ins); return ret(st)
    @reg('init_set_si')
    def _(eng, st, a, c): eng.mpz_new(st, a[0], SI(eng, st, a[1]), c.ins); return ret(st)
    @reg('set')
    def _(eng, st, a, c): W(eng, st, a[0], R(eng, st, a[1], c), c); return ret(st)
    @reg('set_ui')
    def _(eng, st, a, c): W(eng, st, a[0], UI(eng, st, a[1]), c); return ret(st)
    @reg('set_si')
    def _(eng, st, a, c): W(eng, st, a[0], SI(eng, st, a[1]), c); return ret(st)
    @reg('swap')
    def _(eng, st, a, c):
        x, y = R(eng, st, a[0], c), R(eng, st, a[1], c)
        W(eng, st, a[0], y, c); W(eng, st, a[1], x, c); return ret(st)
    def bin2(nm, f, ui=None, si=None):
        @reg(nm)
        def _(eng, st, a, c):
            W(eng, st, a[0], f(R(eng, st, a[1], c), R(eng, st, a[2], c)), c); return ret(st)
        @reg(nm + '_ui')
        def _(eng, st, a, c):
            W(eng, st, a[0], f(R(eng, st, a[1], c), UI(eng, st, a[2])), c); return ret(st)
        @reg(nm + '_si')
        def _(eng, st, a, c):
            W(eng, st, a[0], f(R(eng, st, a[1], c), SI(eng, st, a[2])), c); return ret(st)
    bin2('add', add); bin2('sub', sub); bin2('mul', mul)
    @reg('ui_sub')
    def _(eng, st, a, c): W(eng, st, a[0], sub(UI(eng, st, a[1]), R(eng, st, a[2], c)), c); return ret(st)
    def acc(nm, f):
        @reg(nm)
        def _(eng, st, a, c):
            W(eng, st, a[0], f(R(eng, st, a[0], c), mul(R(eng, st, a[1], c), R(eng, st, a[2], c))), c); return ret(st)
        @reg(nm + '_ui')
        def _(eng, st, a, c):
            W(eng, st, a[0], f(R(eng, st, a[0], c), mul(R(eng, st, a[1], c), UI(eng, st, a[2]))), c); return ret(st)
    acc('addmul', add); acc('submul', sub)
    @reg('neg')
    def _(eng, st, a, c): W(eng, st, a[0], sub(0, R(eng, st, a[1], c)), c); return ret(st)
    @reg('abs')
    def _(eng, st, a, c): W(eng, st, a[0], absval(eng, st, R(eng, st, a[1], c)), c); return ret(st)
    @reg('mul_2exp')
    def _(eng, st, a, c):
        n = UI(eng, st, a[2])
        W(eng, st, a[0], mul(R(eng, st, a[1], c), eng.p2(st, n)), c); return ret(st)
    def nz(eng, st, d, c):
        eng.check(st, d != 0 if isc(d) else d != 0, 'GMP division by a nonzero divisor', c.ins)
    def divide(kind, eng, st, n, d, c):
        nz(eng, st, d, c)
        if isc(d) and d == 0: return fresh('q'), fresh('r')
        if kind == 'f': q = eng.fdiv(st, n, d)
        elif kind == 't': q = tdiv(eng, st, n, d)
        else: q = sub(0, eng.fdiv(st, sub(0, n), d))
        if isinstance(q, z3.ExprRef) and q.decl().kind() == z3.Z3_OP_ITE:
            qq = fresh('tq'); st.assume(qq == q); q = qq
        return q, sub(n, mul(q, d))
    for kd in 'ftc':
        def mk(kd=kd):
            @reg(kd + 'div_q')
            def _(eng, st, a, c):
                n, d = R(eng, st, a[1], c), R(eng, st, a[2], c)
                q, r = divide(kd, eng, st, n, d, c); W(eng, st, a[0], q, c); return ret(st)
            @reg(kd + 'div_r')
            def _(eng, st, a, c):
                n, d = R(eng, st, a[1], c), R(eng, st, a[2], c)
                q, r = divide(kd, eng, st, n, d, c); W(eng, st, a[0], r, c); return ret(st)
            @reg(kd + 'div_qr')
            def _(eng, st, a, c):
                n, d = R(eng, st, a[2], c), R(eng, st, a[3], c)
                q, r = divide(kd, eng, st, n, d, c); W(eng, st, a[0], q, c); W(eng, st, a[1], r, c); return ret(st)
            @reg(kd + 'div_q_ui')
            def _(eng, st, a, c):
                n, d = R(eng, st, a[1], c), UI(eng, st, a[2])
                q, r = divide(kd, eng, st, n, d, c); W(eng, st, a[0], q, c)
                return ret(st, eng.mkint(st, 64, fresh('rem'), False))
            @reg(kd + 'div_r_ui')
            def _(eng, st, a, c):
                n, d = R(eng, st, a[1], c), UI(eng, st, a[2])
                q, r = divide(kd, eng, st, n, d, c); W(eng, st, a[0], r, c)
                return ret(st, IVal(64, r, 0, (1 << 64) - 1) if kd == 'f' else IVal(64, simp(zabs(r)), 0, (1 << 64) - 1))
            @reg(kd + 'div_ui')
            def _(eng, st, a, c):
                n, d = R(eng, st, a[0], c), UI(eng, st, a[1])
                q, r = divide(kd, eng, st, n, d, c)
                return ret(st, IVal(64, simp(zabs(r)) if kd != 'f' else r, 0, (1 << 64) - 1))
            @reg(kd + 'div_q_2exp')
            def _(eng, st, a, c):
                n = UI(eng, st, a[2]); v = R(eng, st, a[1], c)
                q, r = divide(kd, eng, st, v, eng.p2(st, n), c); W(eng, st, a[0], q, c); return ret(st)
            @reg(kd + 'div_r_2exp')
            def _(eng, st, a, c):
                n = UI(eng, st, a[2]); v = R(eng, st, a[1], c)
                q, r = divide(kd, eng, st, v, eng.p2(st, n), c); W(eng, st, a[0], r, c); return ret(st)
        mk()
    @reg('mod')
    def _(eng, st, a, c):
        n, d = R(eng, st, a[1], c), R(eng, st, a[2], c)
        nz(eng, st, d, c)
        q, r = divide('f', eng, st, n, absval(eng, st, d), c); W(eng, st, a[0], r, c); return ret(st)
    @reg('divexact')
    def _(eng, st, a, c):
        n, d = R(eng, st, a[1], c), R(eng, st, a[2], c)
        nz(eng, st, d, c)
        exact_div(eng, st, a[0], n, d, c); return ret(st)
    @reg('divexact_ui')
    def _(eng, st, a, c):
        n, d = R(eng, st, a[1], c), UI(eng, st, a[2])
        nz(eng, st, d, c)
        exact_div(eng, st, a[0], n, d, c); return ret(st)
    def exact_div(eng, st, p, n, d, c):
        if isc(n) and isc(d) and d and n % d == 0: W(eng, st, p, n // d, c); return
        q = fresh('exq')
        # requires: d divides n.  Proved as an obligation through the solver or a fallback prover.
        h = getattr(eng, 'divides_hook', None)
        w = h(eng, st, n, d, c) if h else None
        if w is not None:
            W(eng, st, p, w, c); return
        if not (getattr(eng, 'assume_divexact', False)):
            fq = eng.fdiv(st, n, d)
            eng.check(st, zi(n) == zi(d) * zi(fq), 'mpz_divexact: the divisor divides the dividend', c.ins)
        st.assume(zi(n) == zi(d) * q)
        W(eng, st, p, q, c)
    @reg('cmp')
    def _(eng, st, a, c): return cmpret(eng, st, R(eng, st, a[0], c), R(eng, st, a[1], c))
    @reg('cmp_ui')
    def _(eng, st, a, c): return cmpret(eng, st, R(eng, st, a[0], c), UI(eng, st, a[1]))
    @reg('cmp_si')
    def _(eng, st, a, c): return cmpret(eng, st, R(eng, st, a[0], c), SI(eng, st, a[1]))
    @reg('cmpabs')
    def _(eng, st, a, c): return cmpret(eng, st, absval(eng, st, R(eng, st, a[0], c)), absval(eng, st, R(eng, st, a[1], c)))
    @reg('cmpabs_ui')
    def _(eng, st, a, c): return cmpret(eng, st, absval(eng, st, R(eng, st, a[0], c)), UI(eng, st, a[1]))
    def cmpret(eng, st, x, y):
        if isc(x) and isc(y): return ret(st, IVal(32, (x > y) - (x < y)))
        d = zi(x) - zi(y)
        # only the sign of the result is specified
        r = fresh('cmp')
        st.assume(z3.And(r >= -(1 << 31), r < (1 << 31), (r > 0) == (d > 0), (r < 0) == (d < 0)))
        return ret(st, IVal(32, r, -(1 << 31), (1 << 31) - 1))
    @reg('sizeinbase')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c); b = SI(eng, st, a[1])
        if b != 2: return ret(st, eng.mkint(st, 64, fresh('sizeinbase'), False))
        n = bitlen(eng, st, v)
        if isc(n): return ret(st, IVal(64, max(n, 1)))
        e = z3.If(zi(v) == 0, z3.IntVal(1), n)
        if eng.solver.entails(st, zi(v) != 0): e = n
        return ret(st, IVal(64, e, 0, (1 << 32)))
    @reg('size')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c)
        n = bitlen(eng, st, v)
        return ret(st, IVal(64, fdivc(add(n, 63), 64), 0, 1 << 27))
    @reg('getlimbn')
    def _(eng, st, a, c):
        v = absval(eng, st, R(eng, st, a[0], c)); i = SI(eng, st, a[1])
        if isc(i) and i >= 0:
            return ret(st, IVal(64, modc(fdivc(v, 1 << (64*i)), 1 << 64), 0, (1 << 64) - 1))
        return ret(st, eng.mkint(st, 64, fresh('limb'), False))
    @reg('get_ui')
    def _(eng, st, a, c):
        v = absval(eng, st, R(eng, st, a[0], c))
        if not isc(v) and eng.inrange(st, zi(v), 0, 1 << 64): return ret(st, IVal(64, v, 0, (1 << 64) - 1))
        return ret(st, IVal(64, modc(v, 1 << 64), 0, (1 << 64) - 1))
    @reg('get_si')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c)
        if isc(v):
            if -(1 << 63) <= v < (1 << 63): return ret(st, IVal(64, v))
        elif eng.inrange(st, zi(v), -(1 << 63), 1 << 63): return ret(st, IVal(64, v, -(1 << 63), (1 << 63) - 1))
        return ret(st, eng.mkint(st, 64, fresh('get_si'), True))
    @reg('get_d')
    def _(eng, st, a, c): return ret(st, FVal(z3.Function('mpz_get_d', I_, E.F64S)(zi(R(eng, st, a[0], c)))))
    @reg('fits_ulong_p')
    def _(eng, st, a, c): v = R(eng, st, a[0], c); return ret(st, IVal(32, ite(zand(cmpx('>=', v, 0), cmpx('<', v, 1 << 64)), 1, 0), 0, 1))
    @reg('fits_slong_p')
    def _(eng, st, a, c): v = R(eng, st, a[0], c); return ret(st, IVal(32, ite(zand(cmpx('>=', v, -(1 << 63)), cmpx('<', v, 1 << 63)), 1, 0), 0, 1))
    @reg('tstbit')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c); i = UI(eng, st, a[1])
        return ret(st, IVal(32, tstbit(eng, st, v, i), 0, 1))
    def tstbit(eng, st, v, i):
        if isc(v) and isc(i): return (v >> i) & 1
        q = eng.fdiv(st, v, eng.p2(st, i))
        q2 = eng.fdiv(st, v, eng.p2(st, add(i, 1)))
        b = sub(q, mul(2, q2))
        st.assume(z3.And(zi(b) >= 0, zi(b) <= 1))
        return b
    @reg('setbit')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c); i = UI(eng, st, a[1])
        b = tstbit(eng, st, v, i)
        W(eng, st, a[0], add(v, mul(sub(1, b), eng.p2(st, i))), c); return ret(st)
    @reg('clrbit')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c); i = UI(eng, st, a[1])
        b = tstbit(eng, st, v, i)
        W(eng, st, a[0], sub(v, mul(b, eng.p2(st, i))), c); return ret(st)
    @reg('sqrt')
    def _(eng, st, a, c):
        v = R(eng, st, a[1], c)
        eng.check(st, cmpx('>=', v, 0), 'mpz_sqrt: operand is non-negative', c.ins)
        if isc(v):
            import math
            W(eng, st, a[0], math.isqrt(max(v, 0)), c); return ret(st)
        e = ISQRT(v); st.assume(z3.And(e >= 0, e * e <= v, v < (e + 1) * (e + 1)))
        W(eng, st, a[0], e, c); return ret(st)
    @reg('root')
    def _(eng, st, a, c):
        v = R(eng, st, a[1], c); n = UI(eng, st, a[2])
        eng.check(st, cmpx('>=', v, 0), 'mpz_root: operand is non-negative', c.ins)
        e = IROOT(zi(v), zi(n)); st.assume(z3.And(e >= 0, z3.Implies(zi(v) >= 1, z3.And(e >= 1, e <= zi(v)))))
        W(eng, st, a[0], e, c)
        return ret(st, IVal(32, fresh('rootexact'), None, None))
    @reg('perfect_square_p')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c)
        b = z3.Function('is_square', I_, z3.BoolSort())(zi(v))
        r = fresh('psq'); st.assume(z3.And(r >= 0, r < (1 << 31), (r != 0) == b))
        return ret(st, IVal(32, r, 0, (1 << 31) - 1))
    @reg('probab_prime_p')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c); e = PROBPRIME(zi(v), zi(SI(eng, st, a[1]))); st.assume(z3.And(e >= 0, e <= 2))
        return ret(st, IVal(32, e, 0, 2))
    def gcd_axioms(st, g, x, y):
        st.assume(z3.And(g >= 0, z3.Implies(z3.Or(zi(x) != 0, zi(y) != 0), g >= 1)))
        u, v = fresh('gu'), fresh('gv')
        st.assume(z3.And(zi(x) == g * u, zi(y) == g * v))
        return u, v
    @reg('gcd')
    def _(eng, st, a, c):
        x, y = R(eng, st, a[1], c), R(eng, st, a[2], c)
        if isc(x) and isc(y):
            import math
            W(eng, st, a[0], math.gcd(x, y), c); return ret(st)
        g = GCD(zi(x), zi(y)); gcd_axioms(st, g, x, y)
        W(eng, st, a[0], g, c); return ret(st)
    @reg('gcdext')
    def _(eng, st, a, c):
        x, y = R(eng, st, a[3], c), R(eng, st, a[4], c)
        g = fresh('g'); s, t = fresh('s'), fresh('t')
        u, v = gcd_axioms(st, g, x, y)
        st.assume(g == GCD(zi(x), zi(y)))
        st.assume(g == s * zi(x) + t * zi(y))
        st.g.setdefault('bezout', ())
        st.g['bezout'] = st.g['bezout'] + ((g, s, t, u, v, zi(x), zi(y)),)
        W(eng, st, a[0], g, c)
        if a[1].o is not None: W(eng, st, a[1], s, c)
        if a[2].o is not None: W(eng, st, a[2], t, c)
        return ret(st)
    @reg('jacobi', 'kronecker')
    def _(eng, st, a, c):
        e = JAC(zi(R(eng, st, a[0], c)), zi(R(eng, st, a[1], c)))
        st.assume(z3.And(e >= -1, e <= 1)); return ret(st, IVal(32, e, -1, 1))
    @reg('powm')
    def _(eng, st, a, c):
        b, e_, m = R(eng, st, a[1], c), R(eng, st, a[2], c), R(eng, st, a[3], c)
        nz(eng, st, m, c)
        r = POWM(zi(b), zi(e_), zi(m)); st.assume(z3.And(r >= 0, r < zabs(zi(m))))
        W(eng, st, a[0], r, c); return ret(st)
    @reg('powm_ui')
    def _(eng, st, a, c):
        b, e_, m = R(eng, st, a[1], c), UI(eng, st, a[2]), R(eng, st, a[3], c)
        nz(eng, st, m, c)
        if isc(b) and isc(e_) and isc(m): W(eng, st, a[0], pow(b, e_, m), c); return ret(st)
        r = POWM(zi(b), zi(e_), zi(m)); st.assume(z3.And(r >= 0, z3.Implies(zi(m) > 0, r < zi(m))))
        # 2^e mod m as an integer fact: 2^e = m*q + r
        if isc(b) and b == 2:
            q = fresh('pq'); st.assume(eng.p2(st, e_) == zi(m) * q + r)
        W(eng, st, a[0], r, c); return ret(st)
    @reg('scan1')
    def _(eng, st, a, c):
        v = R(eng, st, a[0], c); s0 = UI(eng, st, a[1])
        e = z3.Function('scan1', I_, I_, I_)(zi(v), zi(s0))
        if isc(s0) and s0 == 0:
            q = fresh('odd')
            st.assume(z3.Implies(zi(v) != 0, z3.And(e >= 0, zi(v) == q * eng.p2(st, e), q % 2 == 1)))
        st.assume(z3.And(e >= 0, e < (1 << 64)))
        return ret(st, IVal(64, e, 0, (1 << 64) - 1))
    @reg('import')
    def _(eng, st, a, c):
        # rop, count, order, size, endian, nails, op
        n = UI(eng, st, a[1]); order = SI(eng, st, a[2]); size = UI(eng, st, a[3]); nails = UI(eng, st, a[5]); p = a[6]
        if not (isc(order) and isc(size) and isc(nails) and nails == 0): raise Unsupported('mpz_import form')
        nb = mul(n, size)
        if not isc(nb): nb = simp(nb)
        if isc(nb) and nb == 0: W(eng, st, a[0], 0, c); return ret(st)
        if not eng.bounds(st, p, nb, c.ins, 'read'):
            W(eng, st, a[0], fresh('import'), c); return ret(st)
        be = order == 1
        if size != 1 and be: raise Unsupported('mpz_import order')
        if size != 1:
            en = SI(eng, st, a[4])
            if not isc(en) or en == 1: raise Unsupported('mpz_import endian')
        v = bytes_to_int(eng, st, p, nb, be)
        W(eng, st, a[0], v, c); return ret(st)
    @reg('export')
    def _(eng, st, a, c):
        # rop, countp, order, size, endian, nails, op
        order = SI(eng, st, a[2]); size = UI(eng, st, a[3]); nails = UI(eng, st, a[5])
        if not (isc(order) and isc(size) and size in (1, 4, 8) and isc(nails) and nails == 0): raise Unsupported('mpz_export form')
        v = absval(eng, st, R(eng, st, a[6], c))
        bl = bitlen(eng, st, v)
        nb = fdivc(add(bl, 8*size - 1), 8*size)
        if a[1].o is not None: eng.store(st, a[1], IVal(64, nb, 0, 1 << 29), c.ins)
        p = a[0]
        if p.o is None: raise Unsupported('mpz_export allocation')
        nbytes = mul(nb, size)
        if size != 1:
            if order != -1: raise Unsupported('mpz_export order')
            o = p.o
            if isc(nb) and nb == 0: return ret(st, p)
            if not eng.bounds(st, p, nbytes, c.ins, 'write'): return ret(st, p)
            if eng.arr_state(st, p) is None: eng.to_array(st, p.o, size, c.ins)
            x = eng.arr_state(st, p)
            if x[1].es != size: raise Unsupported('mpz_export element size')
            di, _ = eng.elemidx(st, p, size)
            j = z3.Int('j!exp')
            lb = z3.Function('limb%d' % size, I_, I_, I_)
            st.assume(lb(zi(v), 0) == zi(modc(v, 1 << (8*size))))
            eng.setarr(st, p, x, z3.Lambda([j], z3.If(z3.And(j >= zi(di), j < zi(di) + zi(nb)), lb(zi(v), j - zi(di)), z3.Select(x[1].arr, j))))
            return ret(st, p)
        export_bytes(eng, st, p, v, nb, order == 1, c.ins)
        return ret(st, p)
    @reg('set_str')
    def _(eng, st, a, c):
        v = fresh('parsed'); W(eng, st, a[0], v, c)
        r = fresh('setstr'); st.assume(z3.And(r >= -1, r <= 0))
        return ret(st, IVal(32, r, -1, 0))
    @reg('init_set_str')
    def _(eng, st, a, c):
        v = fresh('parsed'); eng.mpz_new(st, a[0], v, c.ins)
        r = fresh('setstr'); st.assume(z3.And(r >= -1, r <= 0))
        return ret(st, IVal(32, r, -1, 0))
    @reg('odd_p')
    def _(eng, st, a, c): return ret(st, IVal(32, modc(R(eng, st, a[0], c), 2), 0, 1))
    # mpn
    def gcd1(eng, st, a, c):
        p = a[0]
        if p.o is None or p.o.kind != 'limbs': raise Unsupported('mpn_gcd_1 on raw limbs')
        m = p.o.owner[2]
        y = UI(eng, st, a[2])
        g = GCD(zi(m.val), zi(y))
        u, v = gcd_axioms(st, g, m.val, y)
        st.assume(z3.And(g <= zi(y)))
        return ret(st, IVal(64, g, 0, (1 << 64) - 1))
    H['__gmpn_gcd_1'] = gcd1
    H['tstbit_expr'] = tstbit
    return H

def bytes_to_int(eng, st, p, nb, be):
    """integer of nb consecutive bytes at p"""
    x = eng.arr_state(st, p)
    if x is not None and x[1].es == 1 and isc(nb) and nb > 8:
        arr, off = eng.window(st, x[1].arr, p.off, nb)
        if not byteform(arr):
            v = (BEINT if be else LEINT)(arr, zi(off), zi(nb))
            st.assume(z3.And(v >= 0, v < 256**nb))
            return v
    if isc(nb) and nb <= 160:
        if x is not None:
            if x[1].es != 1: raise Unsupported('mpz_import of wide elements')
            bs = [eng.sel(st, x[1].arr, add(p.off, i), 1) for i in range(nb)]
        else:
            os = st.mem[p.o]; bs = []
            for i in range(nb):
                k, cc = eng.findcell(os, p.off + i)
                if isinstance(cc, Undef) or cc is None:
                    eng.check(st, False, 'no read of uninitialised bytes', None); bs.append(0); continue
                if not isinstance(cc, IVal): raise Unsupported('mpz_import from %r' % cc)
                bs.append(eng.bytes_of(st, cc)[p.off + i - k])
        le = bs[::-1] if be else bs
        return sumbytes(eng, st, le)
    if x is None:
        eng.to_array(st, p.o, 1, None); x = eng.arr_state(st, p)
    if x[1].es != 1:
        f = z3.Function('leint%d' % x[1].es, ARR, I_, I_, I_)
        di, _ = eng.elemidx(st, p, x[1].es)
        v = f(x[1].arr, zi(di), zi(nb))
        st.assume(v >= 0)
        return v
    f = BEINT if be else LEINT
    v = f(x[1].arr, zi(p.off), zi(nb))
    st.assume(v >= 0)
    st.assume(v < eng.p2(st, mul(8, nb)))
    return v

def byteform(arr):
    """array whose bytes are individually known terms (not an opaque input buffer)"""
    return z3.is_quantifier(arr) or z3.is_store(arr) or z3.is_K(arr)

def sumbytes(eng, st, le):
    """sum of little-endian bytes, recognising the bytes of one value"""
    n = len(le)
    while n and isc(le[n-1]) and le[n-1] == 0: n -= 1
    le = le[:n]
    if n and all(isinstance(b, z3.ExprRef) and b.decl().eq(BYTE) for b in le):
        v = le[0].arg(0)
        if all(b.arg(0).eq(v) and z3.is_int_value(b.arg(1)) and b.arg(1).as_long() == i for i, b in enumerate(le)):
            # v mod 256^n
            if eng.solver.entails(st, z3.And(v >= 0, v < 256**n), 1000): return v
    e = 0
    for i, b in enumerate(le): e = add(e, mul(256**i, b))
    return e

def export_bytes(eng, st, p, v, nb, be, ins):
    """writes the nb (minimal number) bytes of v >= 0 at p"""
    if isc(nb) and nb == 0: return
    if not eng.bounds(st, p, nb, ins, 'write'): return
    x = eng.arr_state(st, p)
    if x is None and not (isc(nb) and nb <= 8):
        eng.to_array(st, p.o, 1, ins); x = eng.arr_state(st, p)
    if x is not None and x[1].es != 1: raise Unsupported('mpz_export to wide elements')
    def byte(i):
        if isc(v) and isc(i): return (v >> (8*i)) & 255
        b = BYTE(zi(v), zi(i)); st.assume(z3.And(b >= 0, b <= 255)); return b
    if isc(nb) and nb <= 160:
        bs = [byte(i) for i in range(nb)]
        if be: bs = bs[::-1]
        if x is None:
            os = st.mem[p.o].copy()
            for i, b in enumerate(bs): os.cells[p.off + i] = IVal(8, b, 0, 255)
            st.mem[p.o] = os; return
        arr = x[1].arr
        for i, b in enumerate(bs): arr = z3.Store(arr, zi(add(p.off, i)), zi(b))
        eng.setarr(st, p, x, arr); return
    j = z3.Int('j!exp')
    i = (zi(nb) - 1 - (j - zi(p.off))) if be else (j - zi(p.off))
    arr = z3.Lambda([j], z3.If(z3.And(j >= zi(p.off), j < zi(p.off) + zi(nb)), BYTE(zi(v), i), z3.Select(x[1].arr, j)))
    eng.setarr(st, p, x, arr)

def install(eng):
    H = handlers()
    for k, h in H.items():
        if k.startswith('__gmp'):
            def w(e, st, a, c, h=h, k=k):
                e.used_contracts.add(k); return h(e, st, a, c)
            eng.exact[k] = w

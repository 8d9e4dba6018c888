"""The compressed encoding of forms (bqfc.c, SerializeForm, DeserializeForm)."""
import z3
from vf import *
import ir, alg
import lib_gmp
from lib_gmp import bitlen, BITLEN, BYTE, GCD, ISQRT, LEINT, POWM

# ---- the documented layout
def BL1(v): v = zi(v); return z3.If(v == 0, z3.IntVal(1), BITLEN(v))          # mpz_sizeinbase(v, 2), v >= 0
def zab(v): v = zi(v); return z3.If(v >= 0, v, -v)
def words(d): return (zi(d) + 31) / 32
def okbits(d): return z3.And(zi(d) >= 1, zi(d) <= 1024)
def gsz(G): return (BL1(G) + 7) / 8 - 1
class Fields:
    """contents of a struct qfb_c: a', t', g, b0 and the sign of b"""
    def __init__(self, A, T, G, B, sg): self.A, self.T, self.G, self.B, self.sg = [zi(x) for x in (A, T, G, B)] + [sg]
    def parts(self, d):
        W, gs = words(d), gsz(self.G); o2 = 2 + 2*W - gs; o3 = o2 + W - gs; o4 = o3 + gs + 1
        return [(2, 2*W - gs, self.A), (o2, W - gs, zab(self.T)), (o3, gs + 1, self.G), (o4, gs + 1, self.B)], o4 + gs + 1
    def fits(self, d):
        p, _ = self.parts(d)
        return z3.And(okbits(d), gsz(self.G) <= 255, *[BL1(v) <= 8*n for _, n, v in p])
    def byte(self, j, d):
        p, end = self.parts(d); r = z3.IntVal(0)
        for off, n, v in reversed(p): r = z3.If(j < off + n, BYTE(v, j - off), r)
        flags = z3.If(self.sg, z3.IntVal(1), z3.IntVal(0)) + z3.If(self.T < 0, z3.IntVal(2), z3.IntVal(0))
        return z3.If(j == 0, flags, z3.If(j == 1, gsz(self.G), r))
def layout(e, s, F, d):
    for _, n, v in F.parts(d)[0]: byte_facts(e, s, v)
    j = z3.Int('j!lay'); return z3.Lambda([j], F.byte(j, d))
def byte_facts(e, s, v):
    n = bitlen(e, s, v); return n

def getF(e, s, p, ins=None):
    A, T, G, B = [e.mpz_get(s, PVal(p.o, add(p.off, o)), ins) for o in (0, 16, 32, 48)]
    sg = e.truth(s, e.load(s, PVal(p.o, add(p.off, 64)), ir.INT(8), ins))
    return Fields(A, T, G, B, sg if not isinstance(sg, bool) else z3.BoolVal(sg))
def setF(e, s, p, F, ins=None):
    for o, v in zip((0, 16, 32, 48), (F.A, F.T, F.G, F.B)): e.mpz_set(s, PVal(p.o, add(p.off, o)), v, ins)
    e.store(s, PVal(p.o, add(p.off, 64)), IVal(8, z3.If(F.sg, z3.IntVal(1), z3.IntVal(0)), 0, 1), ins)
def newF(e, s, name, F=None):
    o = Obj(name, 72, 'arg'); s.mem[o] = OS()
    F = F or Fields(*[z3.Int(name + '_' + n) for n in ('a', 't', 'g', 'b0')], z3.Bool(name + '_b_sign'))
    for off, v in zip((0, 16, 32, 48), (F.A, F.T, F.G, F.B)): e.mpz_new(s, PVal(o, off), v)
    e.store(s, PVal(o, 64), IVal(8, z3.If(F.sg, z3.IntVal(1), z3.IntVal(0)), 0, 1), None)
    return PVal(o, 0), F
def sameF(F, G): return z3.And(F.A == G.A, F.T == G.T, F.G == G.G, F.B == G.B, F.sg == G.sg)

def buf(e, s, p, what, ins=None, n=100):
    """the 100 bytes at p, or None after a failed check"""
    e.bounds(s, p, n, ins, 'access')
    x = e.arr_state(s, p)
    if x is None: e.to_array(s, p.o, 1, ins); x = e.arr_state(s, p)
    return x
def put100(e, s, p, arr, upto=100, ins=None):
    x = buf(e, s, p, 'buffer', ins)
    j = z3.Int('j!put'); off = zi(p.off)
    e.setarr(s, p, x, z3.Lambda([j], z3.If(z3.And(j >= off, j < off + zi(upto)), z3.Select(arr, j - off), z3.Select(x[1].arr, j))))

def eng(name, budget=200):
    mod = lower('core.cpp'); e = engine(mod, False, name, budget=budget)
    e.fallbacks += [alg.fallback(), alg.dvd_fallback()]
    return mod, e

# ---- bqfc_export
def c_export(e, s, a, c):
    p, po = a[0], a[1]; off, size = e.U(s, e.load(s, po, ir.INT(64), c.ins)), e.U(s, a[2]); v = e.mpz_get(s, a[3], c.ins)
    e.check(s, z3.And(zi(size) <= 100, zi(off) <= 100), 'bqfc_export: size and offset are within a form', c.ins)
    e.bounds(s, PVal(p.o, add(p.off, off)), size, c.ins, 'write')
    m = zab(v); fits = BL1(m) <= 8*zi(size); f = s.copy(); f.assume(z3.Not(fits)); s.assume(fits); bitlen(e, s, v); r = []
    if e.solver.feasible(f, True): r.append(Out('ret', f, IVal(32, (1 << 32) - 1)))
    x = buf(e, s, p, 'out', c.ins); j = z3.Int('j!exp'); o = zi(add(p.off, off))
    e.setarr(s, p, x, z3.Lambda([j], z3.If(z3.And(j >= o, j < o + zi(size)), BYTE(m, j - o), z3.Select(x[1].arr, j))))
    e.store(s, po, IVal(64, add(off, size), 0, 200), c.ins)
    return r + [Out('ret', s, IVal(32, 0))]
def t_export():
    """bqfc_export: exactly size little-endian bytes of |n|, or -1 and nothing written when it does not fit"""
    mod, e = eng('bqfc_export'); f = find(mod, r'^bqfc_export\('); st = State()
    v = z3.Int('n'); size, off = u(st, 'size'), u(st, 'offset'); st.assume(z3.And(size <= 100, off + size <= 100))
    p = arg_buf(e, st, 'out', 100); old = e.arr_state(st, p)[1].arr
    po = PVal(Obj('offset', 8, 'arg'), 0); st.mem[po.o] = OS(); e.store(st, po, IVal(64, off, 0, 100), None); pn = arg_mpz(e, st, 'n', v)
    j = z3.Int('any_j'); m = zab(v); bl = bitlen(e, st, v)
    # digits above the length are zero (definition of the byte expansion)
    st.assume(z3.Implies(z3.And(j >= off, bl <= 8*(j - off)), BYTE(lib_gmp.absval(e, st, v), j - off) == 0))
    outs = e.exec_fn(f, [p, po, ival(64, size), pn], st)
    cover(e, outs, [('written', lambda o: zeq(e.U(o.st, o.val), 0)), ('refused', lambda o: znot(zeq(e.U(o.st, o.val), 0)))], 'export')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        r = zi(e.S(s, o.val)); now = e.arr_state(s, p)[1].arr; of = zi(e.U(s, e.load(s, po, ir.INT(64))))
        fits = BL1(m) <= 8*size
        s.assume(BITLEN(m) == bl)
        e.check(s, (r == 0) == fits, 'refused exactly when the number does not fit')
        e.check(s, z3.Implies(r == 0, of == off + size), 'the offset advances by the size')
        e.check(s, z3.Implies(z3.And(r == 0, j >= off, j < off + size), z3.Select(now, j) == BYTE(lib_gmp.absval(e, s, v), j - off)), 'byte of the number')
        e.check(s, z3.Implies(z3.And(j >= 0, j < 100, z3.Or(r != 0, j < off, j >= off + size)), z3.Select(now, j) == z3.Select(old, j)), 'no other byte changes')
        e.check(s, zeq(e.mpz_get(s, pn), v), 'the number is left alone')
    return e

# ---- bqfc_serialize_only / bqfc_deserialize_only
def fields_pre(F): return z3.And(F.A >= 0, F.G >= 0, F.B >= 0)
def c_serialize_only(e, s, a, c):
    F = getF(e, s, a[1], c.ins); d = e.U(s, a[2]); s.assume(z3.And(*[True]))
    for v in (F.A, zab(F.T), F.G, F.B): bitlen(e, s, v)
    e.check(s, fields_pre(F), 'serialize_only: fields are non-negative', c.ins)
    e.check(s, z3.Implies(okbits(d), gsz(F.G) <= words(d)), 'serialize_only: the common factor is small enough for the sizes not to wrap', c.ins)
    x = buf(e, s, a[0], 'out', c.ins)
    fits = F.fits(d); f = s.copy(); f.assume(z3.Not(fits)); s.assume(fits); r = []
    if e.solver.feasible(f, True):
        put100(e, f, a[0], z3.Array(str(fresh('partial')), I_, I_), 100, c.ins); r.append(Out('ret', f, IVal(32, (1 << 32) - 1)))
    s.g['laid'] = (F, zi(d)); put100(e, s, a[0], layout(e, s, F, d), F.parts(d)[1], c.ins)
    return r + [Out('ret', s, IVal(32, 0))]
def t_serialize_only():
    """bqfc_serialize_only: the documented layout, or -1"""
    mod, e = eng('bqfc_serialize_only'); f = find(mod, r'^bqfc_serialize_only\('); st = State(); use(e, r'^bqfc_export\(', c_export)
    d = u(st, 'd_bits'); pF, F = newF(e, st, 'c'); st.assume(fields_pre(F))
    p = arg_buf(e, st, 'out', 100); old = e.arr_state(st, p)[1].arr
    for v in (F.A, zab(F.T), F.G, F.B): bitlen(e, st, v)
    st.assume(z3.Implies(okbits(d), gsz(F.G) <= words(d))); j = z3.Int('any_j')
    outs = e.exec_fn(f, [p, pF, ival(64, d)], st)
    cover(e, outs, [('written', lambda o: zeq(e.U(o.st, o.val), 0)), ('refused', lambda o: znot(zeq(e.U(o.st, o.val), 0)))], 'serialize_only')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val)); now = e.arr_state(s, p)[1].arr
        for v in (F.A, zab(F.T), F.G, F.B): bitlen(e, s, v)
        e.check(s, (r == 0) == F.fits(d), 'refused exactly when a field does not fit')
        e.check(s, z3.Implies(z3.And(r == 0, j >= 0, j < F.parts(d)[1]), z3.Select(now, j) == F.byte(j, d)), 'the byte of the documented layout')
        e.check(s, z3.Implies(z3.And(r == 0, j >= F.parts(d)[1], j < 100), z3.Select(now, j) == z3.Select(old, j)), 'bytes beyond the layout are left alone')
        e.check(s, sameF(getF(e, s, pF), F), 'the fields are left alone')
    return e

LEFT = z3.Function('le_field', I_, I_)
def decoded(e, s, arr, off, d):
    """fields read from the array"""
    W = words(d); gs = z3.Select(arr, zi(off) + 1); o = zi(off)
    n1, n2 = 2*W - gs, W - gs
    vals = [LEINT(arr, x, n) for x, n in ((o + 2, n1), (o + 2 + n1, n2), (o + 2 + n1 + n2, gs + 1), (o + 2 + n1 + n2 + gs + 1, gs + 1))]
    fl = z3.Select(arr, o)
    T = z3.If((fl / 2) % 2 == 1, -vals[1], vals[1])
    return Fields(vals[0], T, vals[2], vals[3], fl % 2 == 1), gs, [(vals[0], n1), (vals[1], n2), (vals[2], gs + 1), (vals[3], gs + 1)]
def c_deserialize_only(e, s, a, c):
    d = e.U(s, a[2]); x = buf(e, s, a[1], 'str', c.ins); F, gs, sizes = decoded(e, s, x[1].arr, a[1].off, d)
    s.assume(z3.And(gs >= 0, gs <= 255)); fl = z3.Select(x[1].arr, zi(a[1].off)); s.assume(z3.And(fl >= 0, fl <= 255))
    ok = z3.And(okbits(d), gs < words(d)); f = s.copy(); f.assume(z3.Not(ok)); s.assume(ok)
    for v, n in sizes: s.assume(z3.And(v >= 0, v < e.p2(s, 8*n)))
    setF(e, s, a[0], F, c.ins); s.g['decoded'] = F
    r = [Out('ret', s, IVal(32, 0))]
    if e.solver.feasible(f, True): r.append(Out('ret', f, IVal(32, (1 << 32) - 1)))
    return r
def t_deserialize_only():
    """bqfc_deserialize_only: each field is the little-endian value of its byte range; nothing beyond 100 bytes is read"""
    mod, e = eng('bqfc_deserialize_only'); f = find(mod, r'^bqfc_deserialize_only\('); st = State()
    d = u(st, 'd_bits'); pF, F0 = newF(e, st, 'c'); p = arg_buf(e, st, 'str', 100); arr = e.arr_state(st, p)[1].arr
    for k in (0, 1): st.assume(z3.And(z3.Select(arr, k) >= 0, z3.Select(arr, k) <= 255))
    outs = e.exec_fn(f, [pF, p, ival(64, d)], st)
    F, gs, sizes = decoded(e, st, arr, 0, d); ok = z3.And(okbits(d), gs < words(d))
    cover(e, outs, [('read', lambda o: zeq(e.U(o.st, o.val), 0)), ('refused', lambda o: znot(zeq(e.U(o.st, o.val), 0)))], 'deserialize_only')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val)); G = getF(e, s, pF)
        e.check(s, (r == 0) == ok, 'refused exactly for a size or a factor length out of range')
        for nm, x, y in (('a', F.A, G.A), ('t', F.T, G.T), ('g', F.G, G.G), ('b0', F.B, G.B)): e.check(s, z3.Implies(r == 0, x == y), 'field %s is the value of its bytes' % nm)
        e.check(s, z3.Implies(r == 0, F.sg == G.sg), 'the sign is bit 0')
        for v, n in sizes: e.check(s, z3.Implies(r == 0, z3.And(v >= 0, v < e.p2(s, 8*n))), 'fields are within their sizes')
        e.check(s, e.arr_state(s, p)[1].arr.eq(arr), 'the input is left alone')
    return e

# ---- bqfc_compr
XG = [z3.Function('xgcd_' + n, I_, I_, I_, I_) for n in ('co2', 'co1', 'r2', 'r1')]
def xgcd_facts(a, b, L, C1, R1, m):
    return [('remainder is non-negative', R1 >= 0), ('remainder is at most the limit', z3.Or(R1 <= L, R1 == 0)), ('remainder is a combination', R1 + C1*b == a*m),
            ('cofactor is at most a/(L+1)', z3.Or(z3.And(C1*(L + 1) <= a, C1*(L + 1) >= -a), z3.And(C1 == -1))), ('cofactor vanishes only at the end', z3.Or(C1 != 0, R1 == a))]
def c_xgcd(e, s, a, c):
    """mpz_xgcd_partial: contract proved by bqfc.t_xgcd"""
    A, B, L = [zi(e.mpz_get(s, p, c.ins)) for p in (a[2], a[3], a[4])]
    e.check(s, z3.And(A > 0, B >= 0, L >= 0), 'xgcd_partial: operands are non-negative, the first positive', c.ins)
    C1, R1 = XG[1](A, B, L), XG[3](A, B, L); m = fresh('xm')
    for _, f in xgcd_facts(A, B, L, C1, R1, m): s.assume(f)
    s.g['xgcd'] = (C1, R1, m)
    for p, v in zip(a[:4], (XG[0](A, B, L), C1, XG[2](A, B, L), R1)): e.mpz_set(s, p, v, c.ins)
    return [Out('ret', s, None)]
CF = [z3.Function('compr_' + n, I_, I_, I_) for n in 'atgb']
def comprF(a, b):
    a, b = zi(a), zi(b); eq = a == b
    return Fields(z3.If(eq, a, CF[0](a, b)), z3.If(eq, z3.IntVal(0), CF[1](a, b)), z3.If(eq, z3.IntVal(0), CF[2](a, b)), z3.If(eq, z3.IntVal(0), CF[3](a, b)), z3.And(z3.Not(eq), b < 0))
def compr_facts(a, b, F, t, rho, m, al, be):
    """what the compression of (a, b) is, a != b"""
    B = zab(b); s = ISQRT(a)
    return [('a is a\' g', F.A*F.G == a), ('the factor is positive', z3.And(F.G >= 1, F.A >= 1)), ('t is t\' g', F.T*F.G == t), ('t is at most the root of a', z3.Or(z3.And(t <= s, t >= -s), z3.And(a <= 1, F.G == 1))),
            ('t\' |b| is small modulo a\'', rho == F.T*B + F.A*m), ('its remainder is non-negative', rho >= 0), ('its remainder is at most sqrt(a)/g', rho*F.G <= s),
            ('t\' is prime to a\'', al*F.A + be*F.T == 1), ('b0 is the quotient of |b|, or zero', z3.Or(z3.And(F.G == 1, F.B == 0), z3.And(F.B*F.A <= B, B < F.B*F.A + F.A))),
            ('b0 is non-negative', F.B >= 0), ('the sign is that of b', F.sg == (zi(b) < 0)), ('t vanishes only for a = 1 or a remainder of a', z3.Or(F.T != 0, a <= 1)), ('isqrt', z3.And(s >= 0, s*s <= a, a < (s + 1)*(s + 1)))]
def c_compr(e, s, a, c):
    A, B = [e.mpz_get(s, p, c.ins) for p in (a[1], a[2])]
    e.check(s, z3.Or(zi(A) == zi(B), zi(A) > 0), 'bqfc_compr: a is positive or equals b', c.ins)
    F = comprF(A, B); G = Fields(*[f(zi(A), zi(B)) for f in CF], zi(B) < 0)
    t, rho, m, al, be = [fresh(n) for n in ('t', 'rho', 'm', 'alpha', 'beta')]
    for _, f in compr_facts(zi(A), zi(B), G, t, rho, m, al, be): s.assume(z3.Implies(zi(A) != zi(B), f))
    s.g['compr'] = (zi(A), zi(B), F, G, t)
    setF(e, s, a[0], F, c.ins)
    return [Out('ret', s, IVal(32, 0))]
def t_compr():
    """bqfc_compr: a = a' g, t = t' g with t' |b| = r/g (mod a'), 0 <= r <= sqrt(a), |t| <= sqrt(a), b0 = |b| div a'"""
    mod, e = eng('bqfc_compr', 300); f = find(mod, r'^bqfc_compr\('); use(e, r'^mpz_xgcd_partial\(', c_xgcd); st = State(); e.assume_divexact = False
    e.fallbacks.append(alg.nlin_fallback(2))
    a, b = z3.Ints('a b'); st.assume(z3.Or(a == b, a > 0)); pa, pb = arg_mpz(e, st, 'a', a), arg_mpz(e, st, 'b', b)
    pF, _ = newF(e, st, 'c')
    def gcd(en, s, ar, c):
        x, y = [zi(en.mpz_get(s, p, c.ins)) for p in (ar[1], ar[2])]; g = GCD(x, y); uu, v, al, be = [fresh(n) for n in ('gu', 'gv', 'alpha', 'beta')]
        s.assume(z3.And(g >= 0, z3.Implies(z3.Or(x != 0, y != 0), g >= 1))); s.assume(x == g*uu); s.assume(y == g*v); s.assume(g == al*x + be*y)     # greatest common divisor, Bezout
        s.g['gcd'] = (g, uu, v, al, be, x, y); en.mpz_set(s, ar[0], g, c.ins); return [Out('ret', s, None)]
    use(e, r'^__gmpz_gcd$', gcd)
    def divides(en, s, n, d, c):
        g = s.g.get('gcd')
        if g is None: return None
        G, uu, v, al, be, x, y = g
        for num, w in ((x, uu), (y, v)):
            if same(zi(n), num): return w
        return None
    e.divides_hook = divides
    outs = e.exec_fn(f, [pF, pa, pb], st)
    cover(e, outs, [('equal', lambda o: a == b), ('a common factor', lambda o: z3.And(a != b, getF(e, o.st, pF).G > 1)), ('no common factor', lambda o: z3.And(a != b, getF(e, o.st, pF).G == 1))], 'compr')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); e.check(s, zeq(e.U(s, o.val), 0), 'succeeds'); F = getF(e, s, pF)
        e.check(s, zand(zeq(e.mpz_get(s, pa), a), zeq(e.mpz_get(s, pb), b)), 'the operands are left alone')
        q = s.copy(); q.assume(a == b); e.check(q, z3.And(F.A == a, F.T == 0, F.G == 0, F.B == 0, z3.Not(F.sg)), 'equal coefficients')
        if 'gcd' not in s.g: e.check(s, a == b, 'only equal coefficients take the short way'); continue
        s.assume(a != b)
        g, uu, v, al, be, x, y = s.g['gcd']; C1, R1, xm = s.g['xgcd']; S = ISQRT(a); B = zab(b); sgn = 1
        s.assume(z3.And(S >= 0, S*S <= a, a < (S + 1)*(S + 1)))
        for pos in (True, False):
            q = s.copy(); q.assume(b >= 0 if pos else b < 0)
            if not e.solver.feasible(q, True): continue
            Bz = b if pos else -b
            # |t| (s+1) <= a < (s+1)^2
            e.check(q, a < (S + 1)*(S + 1), 'root'); 
            e.check(q, z3.Or(z3.And(C1 <= S, C1 >= -S), z3.And(C1 == -1)), 'the cofactor is at most the root')
            e.check(q, z3.Or(S >= 1, a <= 0), 'the root of a positive number is positive')
            e.check(q, R1 <= S, 'the remainder is at most the root')
            # R1 = a m - C1 B; with a = g uu, C1 = -g v: g divides R1
            e.check(q, y == -C1, 'the gcd is taken with t')
            rho = v*Bz + uu*xm
            e.check(q, R1 == g*rho, 'the remainder is a multiple of the factor'); e.check(q, g >= 1, 'positive factor')
            e.check(q, g*(al*uu + be*v - 1) == 0, 'Bezout scaled'); e.check(q, al*uu + be*v == 1, 'Bezout')
            r_ = fresh('rho'); q.assume(r_ == rho); e.check(q, g*r_ == R1, 'the remainder over the factor')
            e.check(q, r_ >= 0, 'sign of the remainder over the factor')
            A0, T0 = fresh('a0'), fresh('t0'); q.assume(z3.And(A0 == uu, T0 == v))
            e.check(q, z3.And(A0*g == a, A0 >= 1), 'the cofactor of a')
            two = q.copy(); two.assume(g == 1); e.check(two, z3.Implies(True, z3.And(A0 == a, T0 == y)), 'no common factor')
            q.assume(z3.Implies(g == 1, z3.And(A0 == a, T0 == y)))
            e.check(q, z3.And(F.A == A0, F.T == T0, F.G == g), 'the fields are the cofactors')
            Fx = Fields(A0, T0, g, F.B, F.sg)
            for nm, fct in compr_facts(a, b if pos else b, Fx, y, r_, xm, al, be):
                fct = z3.substitute(fct, (zab(b), Bz)); e.check(q, fct, nm)
    return e

# ---- bqfc_decompr
def c_decompr(e, s, a, c):
    """on success: (a', a') for t = 0; otherwise a' g and some b, within a when strict"""
    D = e.mpz_get(s, a[2], c.ins); F = getF(e, s, a[3], c.ins); strict = zb(e.truth(s, a[4]))
    e.check(s, z3.And(F.A >= 0, F.G >= 0, F.B >= 0), 'bqfc_decompr: fields are non-negative', c.ins)
    f = s.copy(); A, B = fresh('dec_a'), fresh('dec_b'); f.assume(F.T != 0)
    e.mpz_set(f, a[1], fresh('dec_b_fail'), c.ins); e.mpz_set(f, a[0], fresh('dec_a_fail'), c.ins)
    G = z3.If(F.G > 1, F.G, z3.IntVal(1))
    s.assume(z3.Or(z3.And(F.T == 0, A == F.A, B == F.A), z3.And(F.T != 0, F.A >= 1, A == F.A*G, z3.Implies(strict, z3.And(B <= A, B >= -A)))))
    e.mpz_set(s, a[0], A, c.ins); e.mpz_set(s, a[1], B, c.ins); s.g['decompr'] = (F, A, B, strict)
    return [Out('ret', s, IVal(32, 0)), Out('ret', f, IVal(32, (1 << 32) - 1))]
SQUARE = z3.Function('is_square', I_, z3.BoolSort())
def dec_engine(name, budget=200):
    mod, e = eng(name, budget); f = find(mod, r'^bqfc_decompr\(')
    def powm(en, s, a, c):      # x^2 mod m
        x, k, m = zi(en.mpz_get(s, a[1], c.ins)), en.U(s, a[2]), zi(en.mpz_get(s, a[3], c.ins))
        en.check(s, m != 0, 'mpz_powm_ui: modulus is not zero', c.ins); r = POWM(x, zi(k), m); s.assume(z3.Implies(m > 0, z3.And(r >= 0, r < m)))
        if isc(k) and k == 2: w = fresh('pw'); s.assume(x*x == m*w + r); s.g['powm'] = (x, m, w, r)
        en.mpz_set(s, a[0], r, c.ins); return [Out('ret', s, None)]
    use(e, r'^__gmpz_powm_ui$', powm)
    return mod, e, f
def t_decompr():
    """bqfc_decompr for any fields: no division by zero, and what success guarantees"""
    mod, e, f = dec_engine('bqfc_decompr'); st = State()
    D = z3.Int('D'); pF, F = newF(e, st, 'c'); st.assume(z3.And(F.A >= 0, F.G >= 0, F.B >= 0)); strict = z3.Bool('strict')
    pa, pb, pD = arg_mpz(e, st, 'out_a', z3.Int('old_a')), arg_mpz(e, st, 'out_b', z3.Int('old_b')), arg_mpz(e, st, 'D', D)
    outs = e.exec_fn(f, [pa, pb, pD, pF, boolv(strict)], st)
    cover(e, outs, [('decoded', lambda o: z3.And(zi(e.U(o.st, o.val)) == 0, F.T != 0)), ('refused', lambda o: zi(e.U(o.st, o.val)) != 0)], 'decompr')
    G = z3.If(F.G > 1, F.G, z3.IntVal(1))
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val)); A, B = zi(e.mpz_get(s, pa)), zi(e.mpz_get(s, pb))
        e.check(s, z3.Or(r == 0, r == -1), 'the result is 0 or -1')
        e.check(s, z3.Implies(F.T == 0, z3.And(r == 0, A == F.A, B == F.A)), 'equal coefficients')
        e.check(s, z3.Implies(z3.And(r == 0, F.T != 0), F.A >= 1), 'a zero leading coefficient is refused')
        for k in (True, False):
            q = s.copy(); q.assume(z3.And(r == 0, F.T != 0)); q.assume(F.G > 1 if k else F.G <= 1)
            if e.solver.feasible(q, True): e.check(q, A == (F.A*F.G if k else F.A), 'the leading coefficient is a\' g')
        e.check(s, z3.Implies(z3.And(r == 0, F.T != 0, strict), z3.And(B <= A, B >= -A)), 'strict decoding keeps |b| <= a')
        e.check(s, sameF(getF(e, s, pF), F), 'the fields are left alone'); e.check(s, zeq(e.mpz_get(s, pD), D), 'D is left alone')
    return e
def steps(e):
    """the arithmetic of GMP by its defining equations, each result by a name of its own"""
    def note(s, k, v): g = dict(s.g['steps']); g[k] = g.get(k, ()) + (v,); s.g['steps'] = g
    def rd(en, s, p, c): return zi(en.mpz_get(s, p, c.ins))
    def done(en, s, p, v, c): en.mpz_set(s, p, v, c.ins); return [Out('ret', s, None)]
    def divr(kd):
        def h(en, s, a, c):
            n, m = rd(en, s, a[1], c), rd(en, s, a[2], c); en.check(s, m != 0, 'mpz_%s: divisor is not zero' % kd, c.ins); q, r = fresh('q'), fresh('res')
            s.assume(n == m*q + r)
            s.assume(z3.Implies(m > 0, z3.And(r >= 0, r < m)) if kd == 'fdiv_r' else z3.Implies(m > 0, z3.And(r < m, r > -m, z3.Implies(n >= 0, r >= 0), z3.Implies(n <= 0, r <= 0))))
            note(s, kd, (q, r)); note(s, kd[:-1] + 'n', n); return done(en, s, a[0], r, c)
        return h
    for kd in ('fdiv_r', 'tdiv_r'): use(e, r'^__gmpz_%s$' % kd, divr(kd))
    def gcdext(en, s, a, c):
        x, y = rd(en, s, a[3], c), rd(en, s, a[4], c); g, p, q, uu, v = [fresh(n) for n in ('g', 's', 't', 'gu', 'gv')]
        s.assume(z3.And(g >= 0, z3.Implies(z3.Or(x != 0, y != 0), g >= 1), x == g*uu, y == g*v, g == p*x + q*y))
        s.assume(z3.Implies(y > 0, z3.And(p <= y, p >= -y)))          # documented: |s| <= |b|/2g, or 0 or 1 in the exceptional cases
        note(s, 'gcdext', (g, p, q, uu, v, x, y))
        if a[2].o is not None: en.mpz_set(s, a[2], q, c.ins)
        en.mpz_set(s, a[1], p, c.ins); return done(en, s, a[0], g, c)
    use(e, r'^__gmpz_gcdext$', gcdext)
    def sqrt(en, s, a, c):
        v = rd(en, s, a[1], c); en.check(s, v >= 0, 'mpz_sqrt: operand is non-negative', c.ins); r = fresh('root'); s.assume(z3.And(r >= 0, r*r <= v, v < (r + 1)*(r + 1)))
        note(s, 'sqrt', r); return done(en, s, a[0], r, c)
    use(e, r'^__gmpz_sqrt$', sqrt)
    def powm(en, s, a, c):
        x, k, m = rd(en, s, a[1], c), en.U(s, a[2]), rd(en, s, a[3], c); en.check(s, m != 0, 'mpz_powm_ui: modulus is not zero', c.ins)
        w, r = fresh('pw'), fresh('pr'); s.assume(z3.Implies(m > 0, z3.And(r >= 0, r < m)))
        if isc(k) and k == 2: s.assume(x*x == m*w + r); note(s, 'powm', (w, r))
        return done(en, s, a[0], r, c)
    use(e, r'^__gmpz_powm_ui$', powm)
def t_decompr_back():
    """bqfc_decompr of the compression of a reduced form of squarefree discriminant gives the form back"""
    mod, e, f = dec_engine('bqfc_decompr (back)', 300); steps(e); st = State(); e.fallbacks.append(alg.nlin_fallback(3)); e.cur = 'bqfc_decompr'
    a, b, c, D = z3.Ints('a b c D'); A, T, G, B0 = z3.Ints("a' t' g b0"); t, rho, m, al, be, S = z3.Ints('t rho m alpha beta s')
    strict = z3.Bool('strict'); outs = []
    for pos in (True, False):
        s0 = State(); s0.g['steps'] = {}; bz = b if pos else -b          # |b|
        s0.assume(z3.And(D < 0, a > 0, b*b - 4*a*c == D, bz <= a, b > 0 if pos else b < 0, a != b, z3.Not(z3.And(b == 1, a <= 2)), bz != a, a >= 2))
        F = Fields(A, T, G, B0, z3.BoolVal(not pos))
        for nm, fct in compr_facts(a, b, F, t, rho, m, al, be): s0.assume(simp(z3.substitute(fct, (zab(b), bz), (ISQRT(a), S))))
        pF, _ = newF(e, s0, 'c', F)
        pa, pb, pD = arg_mpz(e, s0, 'out_a', z3.Int('old_a')), arg_mpz(e, s0, 'out_b', z3.Int('old_b')), arg_mpz(e, s0, 'D', D)
        # rho^2 < a': for g > 1 by size; for g = 1, rho^2 = a would be a square dividing D
        e.check(s0, rho <= S, 'the small value is at most the root'); e.check(s0, rho*G*rho*G <= a, 'its square times g^2 is at most a')
        e.check(s0, z3.Or(G >= 2, rho*rho <= A), 'bound without a factor')
        e.check(s0, rho*rho*G <= A, 'its square times g is at most a\'')
        e.check(s0, rho*rho <= A, 'its square is at most a\'')
        q = s0.copy(); q.assume(rho*rho == A)
        e.check(q, z3.Or(G == 1, A < 1), 'equality only without a common factor')
        q.assume(G == 1)
        # b^2 = (alpha A + beta T)^2 b^2 is divisible by A = rho^2, so D = b^2 - 4ac is
        w = fresh('sq'); q.assume(w == (al*al*A + 2*al*be*T)*b*b + be*be*(rho*rho - 2*rho*m*A + m*m*A*A)) if False else None
        K1 = al*(al*A + 2*be*T)*b*b + be*be*(1 - 2*rho*m + m*m*A)
        e.check(q, b*b == A*K1, 'a\' divides b^2'); e.check(q, D == rho*rho*(K1 - 4*c), 'rho^2 divides D')
        q.assume(z3.Implies(D == rho*rho*(K1 - 4*c), rho*rho <= 1))          # D is squarefree
        e.check(q, False, 'a\' is not a square dividing D')
        s0.assume(rho*rho != A); e.check(s0, rho*rho < A, 'the square of the small value is below a\'')
        outs += [(pos, bz, pa, pb, pD, pF, F, o) for o in e.exec_fn(f, [pa, pb, pD, pF, boolv(strict)], s0)]
    n = {True: 0, False: 0}; need = ('gcdext', 'fdiv_r', 'powm', 'tdiv_r')
    for pos, bz, pa, pb, pD, pF, F, o in outs:
        g = o.st.g['steps']
        if e.solver.feasible(o.st, zi(e.S(o.st, o.val)) == 0) and not (all(k in g for k in need) and len(g['tdiv_r']) == 2 and len(g['sqrt']) == 1 and len(g['gcdext']) == 1): raise Unsupported('decoding by other arithmetic steps')
    for pos, bz, pa, pb, pD, pF, F, o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val)); g = s.g['steps']
        if not all(k in g for k in need):
            if 'gcdext' in g:
                G0, s1, t1, uu, v, x, y = g['gcdext'][-1]
                # alpha a' + beta t' = 1 and both are multiples of the gcd
                eps = 1 if not x.eq(T) else 0
                e.check(s, x == T + eps*A, 'the operand is t\' or t\' + a\''); e.check(s, G0*(al*v + be*uu - be*eps*v) == 1, 'the gcd divides 1')
                unit_(e, s, G0, al*v + be*uu - be*eps*v)
            e.check(s, False, 'the encoding of a reduced form is not refused early'); continue
        G0, s1, t1, uu, v, x, y = g['gcdext'][-1]; eps = 1 if not x.eq(T) else 0
        e.check(s, x == T + eps*A, 'the operand is t\' or t\' + a\''); e.check(s, G0*(al*v + be*uu - be*eps*v) == 1, 'the gcd divides 1')
        unit_(e, s, G0, al*v + be*uu - be*eps*v)
        qd, d = g['fdiv_r'][0]; w, pr = g['powm'][0]; q1, r1 = g['tdiv_r'][0]
        e.check(s, z3.And(pr >= 0, d >= 0), 'residues'); e.check(s, r1 >= 0, 'their product')
        k1 = 4*G*c + qd; Q = w*b*b + T*T*k1 - A*w*k1 + q1 + 2*T*bz*m + A*m*m
        e.check(s, r1 - rho*rho == -A*Q, 't\'^2 D is the square of the small value modulo a\''); zero_(e, s, A, r1 - rho*rho, -Q, (r1, rho*rho))
        e.check(s, r1 == rho*rho, 'the residue is the square')
        s.assume(z3.Implies(r1 == rho*rho, SQUARE(r1)))          # definition of a square
        if len(g['tdiv_r']) < 2:
            e.check(s, False, 'the encoding of a reduced form is not refused as a non-square'); continue
        e.check(s, r == 0, 'the encoding of a reduced form is decoded') if False else None
        rt = g['sqrt'][0]; e.check(s, z3.And(rt >= 0, rt*rt <= rho*rho, rho*rho < (rt + 1)*(rt + 1)), 'root bounds')
        s.assume(z3.Implies(rt + 1 <= rho, (rt + 1)*(rt + 1) <= rho*rho)) ; s.assume(z3.Implies(rho + 1 <= rt, (rho + 1)*(rho + 1) <= rt*rt))   # squares are monotonic
        s.assume(rho*rho < (rho + 1)*(rho + 1))
        e.check(s, rt == rho, 'the root is the small value')
        q2, b0 = g['tdiv_r'][1]; num = g['tdiv_n'][1]
        got = False
        for delta in (0, 1):
            q = s.copy(); q.assume(s1 < 0 if delta else s1 >= 0)
            if not e.solver.feasible(q, True): continue
            got = True; sp = s1 + delta*A
            e.check(q, num == rt*sp, 'the product with the inverse'); e.check(q, sp >= 0, 'the inverse is not negative'); sp_ = fresh('sp'); q.assume(sp_ == sp)
            q.assume(z3.Implies(z3.And(rho >= 0, sp_ >= 0), rho*sp_ >= 0)); e.check(q, num == rho*sp_, 'the product with the inverse, by name'); e.check(q, num >= 0, 'the product is not negative'); e.check(q, z3.And(b0 >= 0, b0 < A), 'the residue of b')
            Q2 = bz*s1*eps + bz*t1 - T*bz*delta - m*sp + q2
            e.check(q, bz - b0 == A*Q2, 'the residue is that of |b|')
            for one in (True, False):
                z = q.copy(); z.assume(F.G == 1 if one else F.G != 1)
                if not e.solver.feasible(z, True): continue
                if one: e.check(z, A == a, 'no factor'); e.check(z, B0 == 0, 'no quotient')
                e.check(z, z3.And(B0*A <= bz, bz < B0*A + A), 'quotient of |b|')
                e.check(z, b0 - (bz - B0*A) == A*(B0 - Q2), 'both residues agree modulo a\''); zero_(e, z, A, b0 - (bz - B0*A), B0 - Q2, (b0, bz - B0*A))
                e.check(z, b0 == bz - B0*A, 'the residue')
                RB, RA = zi(e.mpz_get(z, pb)), zi(e.mpz_get(z, pa)); sgn = 1 if pos else -1
                z.assume(z3.Implies(B0 == 0, B0*A == 0))
                e.check(z, RA == a, 'the leading coefficient comes back'); e.check(z, RB == b, 'the middle coefficient comes back')
                e.check(z, r == 0, 'the encoding of a reduced form is not refused'); n[pos] += 1
        e.check(s, got, 'reachable')
    e.check(State(), n[True] > 0 and n[False] > 0, 'both signs were decoded')
    return e
def unit_(e, s, g, h):
    """g > 0 and g h = 1 give g = 1"""
    H_ = fresh('unit'); s.assume(H_ == h); e.check(s, z3.And(g >= 1, g*H_ == 1), 'unit')
    s.assume(z3.Implies(H_ <= 0, g*H_ <= 0)); s.assume(z3.Implies(z3.And(g >= 2, H_ >= 1), g*H_ >= 2)); e.check(s, g == 1, 'the gcd is 1')
def zero_(e, s, A, x, Q, vu=None):
    """x = A Q with |x| < A gives x = 0"""
    X, q = fresh('x'), fresh('q'); s.assume(z3.And(X == x, q == Q))
    if vu is not None:
        for v in vu: e.check(s, v >= 0, 'a residue is not negative'); e.check(s, v < A, 'a residue is below the modulus')
        V, U = fresh('v'), fresh('u'); z = State(); z.assume(z3.And(V >= 0, V < A, U >= 0, U < A, X == V - U)); e.check(z, z3.And(X < A, X > -A), 'residues differ by less than the modulus')
        s.assume(z3.And(X < A, X > -A))          # the instance V = vu[0], U = vu[1]; X == x == vu[0] - vu[1]
    else: e.check(s, z3.And(X < A, X > -A), 'two residues differ by less than the modulus')
    e.check(s, X == A*q, 'multiple of the modulus')
    s.assume(z3.Implies(z3.And(A > 0, q >= 1), A*q >= A)); s.assume(z3.Implies(z3.And(A > 0, q <= -1), A*q <= -A)); e.check(s, q == 0, 'the multiple is zero'); e.check(s, X == 0, 'two residues are equal')

# ---- bqfc_serialize and the canonical check
ENCOK = z3.Function('encodable', I_, I_, I_, z3.BoolSort())
ENC = z3.Function('encoding', I_, I_, I_, z3.ArraySort(I_, I_))
EQ100 = z3.Function('same_100_bytes', z3.ArraySort(I_, I_), z3.ArraySort(I_, I_), I_, z3.BoolSort())
def tagged(a, b): return z3.And(zi(b) == 1, zi(a) <= 2)
def tagbyte(a): return z3.If(zi(a) == 2, z3.IntVal(8), z3.IntVal(4))
def small(e, s, a, b, d):
    """the leading coefficients for which the sizes of the fields cannot wrap around"""
    return z3.Or(z3.And(zi(a) == zi(b), zi(a) >= 0), z3.And(zi(a) > 0, z3.Implies(okbits(d), zi(a) < e.p2(s, 16*words(d) + 8))))
def enc_def(a, b, d, j):
    """definition of the encoding: (encodable, byte j)"""
    F = comprF(a, b)
    return z3.And(okbits(d), z3.Or(tagged(a, b), F.fits(d))), z3.If(tagged(a, b), z3.If(j == 0, tagbyte(a), z3.IntVal(0)), z3.If(j < F.parts(d)[1], F.byte(j, d), z3.IntVal(0)))
def mono_p2(e, s, x, y):
    """x <= y gives 2^x <= 2^y"""
    px, py = e.p2(s, x), e.p2(s, y); s.assume(z3.Implies(z3.And(x >= 0, x <= y), px <= py)); return px, py
def add_p2(e, s, x, y):
    """2^x 2^y = 2^(x+y)"""
    px, py, pz = e.p2(s, x), e.p2(s, y), e.p2(s, simp(x + y)); s.assume(z3.Implies(z3.And(x >= 0, y >= 0), px*py == pz)); return px, py, pz
def lenbound(e, s, v, n, what):
    """0 <= v < 2^n gives bit length <= n"""
    bl = bitlen(e, s, v); mono_p2(e, s, n, bl - 1)
    e.check(s, z3.Implies(n >= 1, z3.And(BITLEN(v) <= n, BL1(v) <= n)), what); return bl
def gs_lemma(e, s, a, b, d, G, t):
    """|t| <= sqrt(a) < 2^(8W+8), so the common factor of a and t has at most W+1 bytes"""
    W = words(d); Q, Q2 = e.p2(s, 8*W + 8), e.p2(s, 16*W + 16); s.assume(Q*Q == Q2); mono_p2(e, s, 16*W + 8, 16*W + 16); S = ISQRT(a); q = s.copy(); q.assume(z3.And(okbits(d), a != b)); s0 = q
    e.check(q, a < Q2, 'a in bytes'); q.assume(z3.Implies(S >= Q, S*S >= Q*Q)); e.check(q, S < Q, 'the root of a in bytes')
    q.assume(z3.Implies(z3.And(G.T >= 1, G.G >= 1), G.T*G.G >= G.G)); q.assume(z3.Implies(z3.And(G.T <= -1, G.G >= 1), G.T*G.G <= -G.G)); q.assume(z3.Implies(z3.And(G.A >= 1, G.G >= 1), G.A*G.G >= G.G))
    e.check(q, z3.Or(G.G <= S, a <= 1), 'the common factor is at most the root of a'); mono_p2(e, q, z3.IntVal(1), 8*W + 8); e.check(q, G.G < Q, 'the common factor in bytes')
    lenbound(e, q, G.G, 8*W + 8, 'length of the common factor'); e.check(q, gsz(G.G) <= W, 'bytes of the common factor')
    s.assume(z3.Implies(z3.And(okbits(d), a != b), gsz(G.G) <= W))
def c_compr_small(d):
    def h(e, s, a, c):
        r = c_compr(e, s, a, c); A, B, F, G, t = s.g['compr']
        gs_lemma(e, s, A, B, d, Fields(*[f(A, B) for f in CF], B < 0), t); return r
    return h
def t_serialize():
    """bqfc_serialize: the tag for the identity and the generator, otherwise the layout of the compression; 100 bytes, padded with zeros"""
    mod, e = eng('bqfc_serialize'); f = find(mod, r'^bqfc_serialize\('); st = State(); d = u(st, 'd_bits'); a, b = z3.Ints('a b')
    use(e, r'^bqfc_compr\(', c_compr_small(d)); use(e, r'^bqfc_serialize_only\(', c_serialize_only); e.fallbacks.append(alg.nlin_fallback(2))
    st.assume(z3.Implies(okbits(d), small(e, st, a, b, d))); pa, pb = arg_mpz(e, st, 'a', a), arg_mpz(e, st, 'b', b); p = arg_buf(e, st, 'out', 100)
    outs = e.exec_fn(f, [p, pa, pb, ival(64, d)], st); j = z3.Int('any_j')
    cover(e, outs, [('a tag', lambda o: z3.And(tagged(a, b), zi(e.U(o.st, o.val)) == 0)), ('an encoding', lambda o: z3.And(z3.Not(tagged(a, b)), zi(e.U(o.st, o.val)) == 0)), ('a refusal', lambda o: zi(e.U(o.st, o.val)) != 0)], 'serialize')
    ok, byte = enc_def(a, b, d, j)
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val)); now = e.arr_state(s, p)[1].arr
        for v in (comprF(a, b).G,): bitlen(e, s, v)
        e.check(s, (r == 0) == ok, 'refused exactly when the size is out of range or a field does not fit')
        e.check(s, z3.Implies(z3.And(r == 0, j >= 0, j < 100), z3.Select(now, j) == byte), 'every byte is that of the encoding')
        e.check(s, zand(zeq(e.mpz_get(s, pa), a), zeq(e.mpz_get(s, pb), b)), 'the coefficients are left alone')
    return e
def c_serialize(e, s, a, c):
    A, B = [zi(e.mpz_get(s, p, c.ins)) for p in (a[1], a[2])]; d = zi(e.U(s, a[3]))
    e.check(s, z3.Implies(okbits(d), small(e, s, A, B, d)), 'bqfc_serialize: a equals b or is positive and of about the size of the discriminant', c.ins)
    buf(e, s, a[0], 'out', c.ins); f = s.copy(); ok = ENCOK(A, B, d); s.assume(z3.And(ok, okbits(d))); f.assume(z3.Not(ok)); r = []
    put100(e, s, a[0], ENC(A, B, d), 100, c.ins); s.g['encoded'] = (A, B, d); put100(e, f, a[0], z3.Array(str(fresh('partial')), I_, I_), 100, c.ins)
    return [Out('ret', s, IVal(32, 0)), Out('ret', f, IVal(32, (1 << 32) - 1))]
def memcmp_enc(e, s, a, c):
    """0 exactly when the bytes are equal: here those of the encoding just made and of the input"""
    n = e.U(s, a[2]); e.check(s, zeq(n, 100), 'all 100 bytes are compared', c.ins)
    if 'encoded' not in s.g: e.check(s, False, 'bytes are compared only after encoding succeeded', c.ins); return [Out('ret', s, e.fint(s, 'memcmp', 32, True))]
    x, y = [buf(e, s, p, 'operand', c.ins) for p in a[:2]]; A, B, d = s.g['encoded']
    j = z3.Int('any_j'); e.check(s, z3.Implies(z3.And(j >= 0, j < 100), z3.Select(x[1].arr, zi(a[0].off) + j) == z3.Select(ENC(A, B, d), j)), 'the encoding is compared', c.ins)
    r = e.fint(s, 'memcmp', 32, True); s.g['compared'] = (a[1].o, a[1].off); s.assume((zi(e.S(s, r)) == 0) == EQ100(ENC(A, B, d), y[1].arr, zi(a[1].off))); return [Out('ret', s, r)]
def t_verify_canon():
    """bqfc_verify_canon: 0 exactly when the input is the encoding of (a, b)"""
    mod, e = eng('bqfc_verify_canon'); f = find(mod, r'^bqfc_verify_canon\('); st = State(); d = u(st, 'd_bits'); a, b = z3.Ints('a b'); use(e, r'^bqfc_serialize\(', c_serialize); use(e, r'^memcmp$', memcmp_enc)
    st.assume(z3.Implies(okbits(d), small(e, st, a, b, d))); pa, pb = arg_mpz(e, st, 'a', a), arg_mpz(e, st, 'b', b); p = arg_buf(e, st, 'str', 100); arr = e.arr_state(st, p)[1].arr
    outs = e.exec_fn(f, [pa, pb, p, ival(64, d)], st)
    cover(e, outs, [('canonical', lambda o: zi(e.U(o.st, o.val)) == 0), ('not canonical', lambda o: zi(e.U(o.st, o.val)) != 0)], 'verify_canon')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val))
        e.check(s, (r == 0) == z3.And(ENCOK(a, b, d), EQ100(ENC(a, b, d), arr, 0)), 'accepted exactly when the bytes are the encoding')
        e.check(s, zand(zeq(e.mpz_get(s, pa), a), zeq(e.mpz_get(s, pb), b)), 'the coefficients are left alone')
    return e
def c_verify_canon(e, s, a, c):
    A, B = [zi(e.mpz_get(s, p, c.ins)) for p in a[:2]]; d = zi(e.U(s, a[3])); e.check(s, z3.Implies(okbits(d), small(e, s, A, B, d)), 'verify_canon: a equals b or is positive and of about the size of the discriminant', c.ins)
    x = buf(e, s, a[2], 'str', c.ins); r = e.fint(s, 'canon', 32, True); ok = z3.And(ENCOK(A, B, d), EQ100(ENC(A, B, d), x[1].arr, zi(a[2].off)))
    s.assume((zi(e.S(s, r)) == 0) == ok); s.g['canon'] = (A, B); return [Out('ret', s, r)]

# ---- bqfc_deserialize
def des_setup(e, st):
    d, n = u(st, 'd_bits'), u(st, 'size'); D = z3.Int('D'); strict = z3.Bool('strict'); p = arg_buf(e, st, 'str', n); arr = e.arr_state(st, p)[1].arr
    for k in (0, 1): st.assume(z3.And(z3.Select(arr, k) >= 0, z3.Select(arr, k) <= 255))
    pa, pb, pD = arg_mpz(e, st, 'out_a', z3.Int('old_a')), arg_mpz(e, st, 'out_b', z3.Int('old_b')), arg_mpz(e, st, 'D', D)
    return d, n, D, strict, p, arr, pa, pb, pD
def is_tag(fl): return z3.Or((fl / 4) % 2 == 1, (fl / 8) % 2 == 1)
def gen_tag(fl): return (fl / 8) % 2 == 1
def t_deserialize():
    """bqfc_deserialize: success only for 100 bytes that are a tag or exactly the encoding of the coefficients returned"""
    mod, e = eng('bqfc_deserialize'); f = find(mod, r'^bqfc_deserialize\('); st = State(); d, n, D, strict, p, arr, pa, pb, pD = des_setup(e, st)
    use(e, r'^bqfc_deserialize_only\(', c_deserialize_only); use(e, r'^bqfc_verify_canon\(', c_verify_canon)
    def dec(en, s, a, c):
        r = c_decompr(en, s, a, c)
        F, A, B, sg = r[0].st.g['decompr']; s = r[0].st; gs = z3.Select(arr, 1); W = words(d); mono_p2(en, s, 16*W - 8*gs, 16*W + 8); mono_p2(en, s, z3.IntVal(0), 8*gs + 8)
        x, y, z = add_p2(en, s, 16*W - 8*gs, 8*gs + 8); mono_p2(en, s, 8*(2*W - gs), 16*W - 8*gs); mono_p2(en, s, 8*(gs + 1), 8*gs + 8); zz, _ = mono_p2(en, s, simp(16*W - 8*gs + 8*gs + 8), 16*W + 8)
        s.assume(z3.Implies(z3.And(F.A >= 1, F.G >= 0, F.A < x, F.G < y), z3.And(F.A*F.G < x*y, F.A*F.G >= 0)))          # products of smaller factors
        s.assume(z3.Implies(z3.And(F.A >= 1, F.G >= 1), F.A*F.G >= 1))
        for k in (True, False):
            q = s.copy(); q.assume(F.G > 1 if k else F.G <= 1)
            en.check(q, small(en, q, A, B, d), 'the decoded coefficient has about the size of the discriminant')
        s.assume(small(en, s, A, B, d)); return r
    use(e, r'^bqfc_decompr\(', dec)
    outs = e.exec_fn(f, [pa, pb, pD, p, ival(64, n), ival(64, d), boolv(strict)], st); fl = z3.Select(arr, 0)
    cover(e, outs, [('a tag', lambda o: z3.And(zi(e.U(o.st, o.val)) == 0, is_tag(fl))), ('an encoding', lambda o: z3.And(zi(e.U(o.st, o.val)) == 0, z3.Not(is_tag(fl)))), ('a refusal', lambda o: zi(e.U(o.st, o.val)) != 0)], 'deserialize')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); r = zi(e.S(s, o.val)); A, B = zi(e.mpz_get(s, pa)), zi(e.mpz_get(s, pb))
        e.check(s, z3.Implies(r == 0, z3.And(n == 100, okbits(d))), 'only 100 bytes and a size in range are accepted')
        e.check(s, z3.Implies(z3.And(n == 100, okbits(d), is_tag(fl)), z3.And(r == 0, A == z3.If(gen_tag(fl), z3.IntVal(2), z3.IntVal(1)), B == 1)), 'the tags')
        e.check(s, z3.Implies(z3.And(r == 0, z3.Not(is_tag(fl))), z3.And(ENCOK(A, B, d), EQ100(ENC(A, B, d), arr, 0))), 'otherwise the bytes are exactly the encoding of the result')
        e.check(s, z3.Implies(z3.And(r == 0, z3.Not(is_tag(fl)), strict), z3.Or(A == B, z3.And(B <= A, B >= -A))), 'strict decoding keeps |b| <= a')
        e.check(s, zeq(e.mpz_get(s, pD), D), 'D is left alone'); e.check(s, e.arr_state(s, p)[1].arr.eq(arr), 'the input is left alone')
    return e

# ---- reduced forms are encodable, and their encoding decodes to them
def fits_lemma(e, s, a, b, c, D, d):
    """for a reduced form of a discriminant of d bits every field fits; d <= 1024"""
    W = words(d); P4, P2_, P1 = e.p2(s, 32*W), e.p2(s, 16*W), e.p2(s, 8*W)
    s.assume(z3.And(P1*P1 == P2_, P2_*P2_ == P4)); mono_p2(e, s, zi(d), 32*W); nd = bitlen(e, s, D)
    e.check(s, z3.And(D < 0, zeq(nd, d) if not isc(nd) else True, okbits(d)), 'a discriminant of d bits'); e.check(s, -D < P4, 'the discriminant in bytes')
    # 3 a^2 <= 4ac - b^2
    s.assume(z3.And(a*a <= a*c, b*b <= a*a)) if False else None
    s.assume(z3.Implies(z3.And(a > 0, a <= c), a*a <= a*c)); s.assume(z3.Implies(z3.And(b <= a, b > -a, a > 0), b*b <= a*a))      # products of non-negative numbers
    e.check(s, 3*a*a <= -D, '3a^2 is at most |D|'); e.check(s, a*a < P4, 'a^2 in bytes'); s.assume(z3.Implies(a >= P2_, a*a >= P2_*P2_)); e.check(s, a < P2_, 'a in bytes')
    mono_p2(e, s, 16*W, 16*W + 8); e.check(s, small(e, s, a, b, d), 'a has the size the encoder allows')
def fits_lemma2(e, s, a, b, d, G, t):
    """G, t: the compression of (a, b), a != b, a > 1"""
    W = words(d); P2_, P1 = e.p2(s, 16*W), e.p2(s, 8*W); S = ISQRT(a); s.assume(P1*P1 == P2_)
    s.assume(z3.Implies(S >= P1, S*S >= P1*P1)); e.check(s, S < P1, 'the root of a in bytes')
    T = zab(G.T); mono_p2(e, s, z3.IntVal(1), 8*W)
    s.assume(z3.Implies(z3.And(G.T >= 1, G.G >= 1), z3.And(G.T*G.G >= G.G, G.T*G.G >= G.T))); s.assume(z3.Implies(z3.And(G.T <= -1, G.G >= 1), z3.And(G.T*G.G <= -G.G, G.T*G.G <= G.T)))
    e.check(s, z3.And(G.G <= S, G.G >= 1), 'the common factor is at most the root'); lenbound(e, s, G.G, 8*W, 'length of the common factor'); gs = gsz(G.G)
    e.check(s, z3.And(gs >= 0, gs < W), 'bytes of the common factor')
    # 256^gs <= g
    bl = bitlen(e, s, G.G); mono_p2(e, s, 8*gs, bl - 1); Pg = e.p2(s, 8*gs); e.check(s, z3.And(Pg <= G.G, Pg >= 1), 'the common factor has gs+1 bytes')
    for nm, v, tot, X, whole in (('a\'', G.A, 16*W, P2_, a), ('t\'', T, 8*W, P1, zab(t))):
        r = tot - 8*gs; pr, pg, pt = add_p2(e, s, simp(r), 8*gs); pt2, _ = mono_p2(e, s, simp(simp(r) + 8*gs), tot); mono_p2(e, s, tot, simp(simp(r) + 8*gs))
        for sg in ((1,) if nm == 'a\'' else (1, -1)):
            q = s.copy(); V = G.A if nm == 'a\'' else sg*G.T
            if nm != 'a\'': q.assume(sg*G.T >= 1)
            q.assume(z3.Implies(z3.And(V >= 1, Pg <= G.G), V*Pg <= V*G.G)); e.check(q, V*Pg < X, '%s in bytes, scaled' % nm)
            q.assume(z3.Implies(z3.And(V >= pr, Pg >= 1), V*Pg >= pr*Pg)); e.check(q, V < pr, '%s in bytes' % nm); lenbound(e, q, V, simp(r), 'length of %s' % nm)
            s.assume(z3.Implies(z3.And(V >= 1), BL1(V) <= r))
    # b0 <= g
    mono_p2(e, s, bl, 8*gs + 8); e.check(s, G.G < e.p2(s, 8*gs + 8), 'the common factor in its bytes')
    s.assume(z3.Implies(z3.And(G.B >= G.G + 1, G.A >= 1), G.B*G.A >= G.G*G.A + G.A)); e.check(s, G.B <= G.G, 'b0 is at most the common factor'); lenbound(e, s, G.B, 8*gs + 8, 'length of b0')
    for v in (G.A, T, G.B): bitlen(e, s, v)
    e.check(s, z3.And(BL1(G.A) <= 8*(2*W - gs), BL1(G.G) <= 8*(gs + 1), BL1(G.B) <= 8*(gs + 1), gs <= 255), 'fields fit'); e.check(s, BL1(T) <= 8*(W - gs), 't\' fits')
def reduced_form(st, a, b, c, D): st.assume(z3.And(D < 0, D == b*b - 4*a*c, D % 4 == 1, a > 0, c > 0, b <= a, b > -a, a <= c, z3.Implies(a == c, b >= 0)))
def t_fits():
    """lemma: every reduced form of a discriminant of at most 1024 bits is encodable (over the definition of the encoding)"""
    mod, e = eng('lemma: reduced forms are encodable'); st = State(); a, b, c, D = z3.Ints('a b c D'); d = z3.Int('d'); reduced_form(st, a, b, c, D)
    st.assume(z3.And(BITLEN(-D) == d, d >= 1, d <= 1024)); bitlen(e, st, D); ok, _ = enc_def(a, b, d, z3.Int('j')); e.fallbacks.append(alg.nlin_fallback(2))
    s0 = st.copy(); e.check(s0, z3.Or(b >= 1, b <= -1), 'b is odd'); fits_lemma(e, s0, a, b, c, D, d); n = 0
    s = s0.copy(); s.assume(tagged(a, b)); e.check(s, ok, 'a tag is encodable')
    s = s0.copy(); s.assume(a == b); bitlen(e, s, a); lenbound(e, s, a, 16*words(d), 'length of a'); e.check(s, z3.And(BITLEN(0) == 0) if False else True, ''); e.check(s, ok, 'equal coefficients are encodable')
    s = s0.copy(); s.assume(z3.And(a != b, z3.Not(tagged(a, b)))); e.check(s, a >= 2, 'a is at least 2'); G = Fields(*[f(a, b) for f in CF], b < 0); t, rho, m, al, be = z3.Ints('t rho m alpha beta')
    for _, f in compr_facts(a, b, G, t, rho, m, al, be): s.assume(f)
    e.check(s, G.T != 0, 't is not zero'); fits_lemma2(e, s, a, b, d, G, t)
    F = comprF(a, b); e.check(s, sameF(F, G), 'the fields'); e.check(s, ok, 'the encoding exists')
    e.check(st, e.solver.feasible(s, True) and e.solver.feasible(s0, a == b), 'the cases are reachable')
    return e

def t_serializeform():
    """SerializeForm: the 100 bytes of the encoding of the reduced form"""
    from specs import formops as fo
    mod, e = eng('SerializeForm'); f = find(mod, r'^SerializeForm\('); st = State(); e.fallbacks.append(alg.nlin_fallback(2)); use(e, r'^reduce\(integer&, integer&, integer&\)$|^form::reduce\(\)$', fo.c_reduce)
    a, b, c, D = z3.Ints('a b c D'); d = z3.Int('d'); st.assume(z3.And(a > 0, c > 0, D < 0, D == b*b - 4*a*c, D % 4 == 1, BITLEN(-D) == d, d >= 1, d <= 1024)); bitlen(e, st, D)
    y = fo.formobj(e, st, 'y', (a, b, c)); r = sret(st, 'result', 24)
    def ser(en, s, ar, c_):
        A, B = [zi(en.mpz_get(s, p, c_.ins)) for p in ar[1:3]]; C = zi(en.mpz_get(s, PVal(y.o, 32))); dd = zi(en.U(s, ar[3])); en.check(s, dd == d, 'the size is that of the discriminant', c_.ins)
        en.check(s, z3.And(A > 0, B*B - 4*A*C == D, B <= A, B > -A, A <= C), 'the form is reduced', c_.ins); fits_lemma(en, s, A, B, C, D, d)
        o = c_serialize(en, s, ar, c_); s.g['encform'] = (A, B, C); o[1].st.assume(ENCOK(A, B, d)); return o          # t_fits: reduced forms are encodable
    use(e, r'^bqfc_serialize\(', ser)
    outs = e.exec_fn(f, [r, y, ival(32, d, 0, 1024)], st); cover(e, outs, [('encoded', lambda o: z3.BoolVal(o.kind == 'ret'))], 'SerializeForm'); j = z3.Int('any_j')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        A, B, C = fo.fget(e, s, y); v = lib_getvec(e, s, r)
        e.check(s, fo.K(zi(A), zi(B), zi(C)) == fo.K(a, b, c), 'the form stays in its class'); e.check(s, zeq(v.len, 100), 'exactly 100 bytes')
        e.check(s, z3.Implies(z3.And(j >= 0, j < 100), z3.Select(v.arr, j) == z3.Select(ENC(zi(A), zi(B), d), j)), 'the bytes are the encoding of the reduced form')
    return e
def lib_getvec(e, s, p): return e.getbig(s, p, Vec, None)

def t_fields_back():
    """bqfc_deserialize_only of the documented layout gives the fields back"""
    mod, e = eng('bqfc_deserialize_only (back)'); e.cur = 'bqfc_deserialize_only'; f = find(mod, r'^bqfc_deserialize_only\('); st = State()
    d = u(st, 'd_bits'); F = Fields(*z3.Ints("a' t' g b0"), z3.Bool('b_sign')); st.assume(fields_pre(F)); W = words(d); gs = gsz(F.G)
    for v in (F.A, zab(F.T), F.G, F.B): bitlen(e, st, v)
    st.assume(z3.And(F.fits(d), gs < W)); arr = layout(e, st, F, d); p = arg_buf(e, st, 'str', 100); x = e.arr_state(st, p)
    given = z3.Array('str_in', I_, I_); j = z3.Int('any_j')
    st.assume(z3.And(*[z3.Select(given, k) == F.byte(z3.IntVal(k), d) for k in (0, 1)])); pF, _ = newF(e, st, 'c')
    outs = e.exec_fn(f, [pF, p, ival(64, d)], st); parts, _ = F.parts(d)
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); e.check(s, zeq(e.U(s, o.val), 0), 'accepted'); G = getF(e, s, pF)
        e.check(s, z3.Select(given, 1) == gs, 'the factor length is read'); fl = z3.Select(given, 0)
        for off, n, v in parts:
            # the little-endian value of the n bytes of v < 256^n is v (lemma le_bytes); the bytes are where the layout puts them
            e.check(s, z3.Implies(z3.And(j >= off, j < off + n), F.byte(j, d) == BYTE(v, j - off)), 'the field lies where it is read')
            bl = bitlen(e, s, v); mono_p2(e, s, bl, 8*n); e.check(s, z3.And(v >= 0, v < e.p2(s, 8*n)), 'the field fits its bytes'); s.assume(LEINT(given, off, n) == v)
        for nm, y, z in (('a', F.A, G.A), ('t', F.T, G.T), ('g', F.G, G.G), ('b0', F.B, G.B)): e.check(s, y == z, 'field %s comes back' % nm)
        e.check(s, F.sg == G.sg, 'the sign comes back')
    return e
def t_deserialize_back():
    """bqfc_deserialize of the encoding of a reduced form of squarefree discriminant gives its coefficients back"""
    mod, e = eng('bqfc_deserialize (back)'); e.cur = 'bqfc_deserialize'; f = find(mod, r'^bqfc_deserialize\('); st = State(); d, n, D, strict, p, arr, pa, pb, pD = des_setup(e, st); st.assume(n == 100)
    a, b, c = z3.Ints('a b c'); reduced_form(st, a, b, c, D); st.assume(z3.And(BITLEN(-D) == d, okbits(d))); j = z3.Int('any_j'); ok, _ = enc_def(a, b, d, j); st.assume(ok)      # t_fits
    for v in (comprF(a, b).A, zab(comprF(a, b).T), comprF(a, b).G, comprF(a, b).B): bitlen(e, st, v)
    # the input is the encoding
    st.assume(z3.And(ENCOK(a, b, d), EQ100(ENC(a, b, d), arr, 0))); st.assume(z3.And(*[z3.Select(arr, k) == enc_def(a, b, d, z3.IntVal(k))[1] for k in (0, 1)]))
    F = comprF(a, b); G = Fields(*[f_(a, b) for f_ in CF], b < 0); t, rho, m, al, be = z3.Ints('t rho m alpha beta')
    for _, x in compr_facts(a, b, G, t, rho, m, al, be): st.assume(z3.Implies(a != b, x))
    s0 = st.copy(); s0.assume(z3.And(a != b, z3.Not(tagged(a, b)))); e.check(s0, z3.Or(b >= 1, b <= -1), 'b is odd'); e.check(s0, G.T != 0, 't is not zero'); fits_lemma2_ = None
    def dso(en, s, ar, c_):
        en.check(s, ar[1].o is p.o and same(ar[1].off, 0), 'the input is decoded', c_.ins); en.check(s, zeq(en.U(s, ar[2]), d), 'for the size of the discriminant', c_.ins)
        s.assume(z3.Implies(z3.And(a != b, z3.Not(tagged(a, b))), gsz(F.G) < words(d))); s.assume(z3.Implies(a == b, gsz(F.G) < words(d)))       # t_fits: bytes of the common factor
        setF(en, s, ar[0], F, c_.ins); return [Out('ret', s, IVal(32, 0))]          # t_fields_back
    use(e, r'^bqfc_deserialize_only\(', dso)
    def dec(en, s, ar, c_):
        Fx = getF(en, s, ar[3], c_.ins); en.check(s, sameF(Fx, F), 'the fields read are decoded', c_.ins); en.check(s, zeq(en.mpz_get(s, ar[2], c_.ins), D), 'for this discriminant', c_.ins)
        en.check(s, z3.Not(tagged(a, b)), 'tags do not get here', c_.ins)
        en.check(s, z3.Or(a == b, z3.And(b != 0, a >= 2, b < a)), 'the case of decompr_back', c_.ins)
        en.mpz_set(s, ar[0], a, c_.ins); en.mpz_set(s, ar[1], b, c_.ins); return [Out('ret', s, IVal(32, 0))]       # t_decompr (t = 0), t_decompr_back
    use(e, r'^bqfc_decompr\(', dec); use(e, r'^bqfc_verify_canon\(', c_verify_canon_back(a, b, d))
    outs = e.exec_fn(f, [pa, pb, pD, p, ival(64, 100), ival(64, d), boolv(strict)], st)
    cover(e, outs, [('a tag', lambda o: tagged(a, b)), ('an encoding', lambda o: z3.Not(tagged(a, b)))], 'deserialize back')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw'); e.check(s, zeq(e.U(s, o.val), 0), 'the encoding of a reduced form is accepted')
        e.check(s, zi(e.mpz_get(s, pa)) == a, 'a comes back'); e.check(s, zi(e.mpz_get(s, pb)) == b, 'b comes back')
    return e
def c_verify_canon_back(a, b, d):
    def h(e, s, ar, c):
        e.check(s, z3.And(zi(e.mpz_get(s, ar[0], c.ins)) == a, zi(e.mpz_get(s, ar[1], c.ins)) == b, zi(e.U(s, ar[3])) == d), 'the decoded coefficients are encoded again', c.ins)
        x = buf(e, s, ar[2], 'str', c.ins); r = e.fint(s, 'canon', 32, True); s.assume((zi(e.S(s, r)) == 0) == z3.And(ENCOK(a, b, d), EQ100(ENC(a, b, d), x[1].arr, zi(ar[2].off)))); return [Out('ret', s, r)]
    return h

# ---- DeserializeForm
DECS, DECA, DECB = z3.Function('bytes_decode', I_, I_, z3.BoolSort()), z3.Function('decoded_a', I_, I_), z3.Function('decoded_b', I_, I_)
def t_deserializeform(back=False):
    """DeserializeForm: the reduced form of the decoded coefficients, of the given negative discriminant; everything else is refused by runtime_error"""
    from specs import formops as fo
    mod, e = eng('DeserializeForm'); f = find(mod, r'^DeserializeForm\('); st = State(); D = z3.Int('D'); n = u(st, 'size'); strict = z3.Bool('strict'); p = arg_buf(e, st, 'bytes', n); arr = e.arr_state(st, p)[1].arr
    pD = arg_mpz(e, st, 'D', D); r = sret(st, 'result', 48); nd = bitlen(e, st, D); a, b, c = z3.Ints('a b c')
    if back: reduced_form(st, a, b, c, D); st.assume(z3.And(n == 100, nd <= 1024))
    def des(en, s, ar, c_):
        en.check(s, ar[3].o is p.o and same(ar[3].off, 0), 'the bytes given are decoded', c_.ins); en.check(s, zi(en.U(s, ar[4])) == n, 'with their size', c_.ins); en.check(s, zeq(en.mpz_get(s, ar[2], c_.ins), D), 'for this discriminant', c_.ins)
        en.check(s, zi(en.U(s, ar[5])) == BL1(zab(D)), 'the size is that of the discriminant', c_.ins); en.check(s, D < 0, 'the discriminant is negative', c_.ins); sg = zb(en.truth(s, ar[6])); en.check(s, sg == strict, 'strictness is passed on', c_.ins)
        q = s.copy(); A, B = (a, b) if back else (z3.Int('dec_a'), z3.Int('dec_b')); s.assume(z3.And(n == 100, zi(nd) <= 1024)); en.mpz_set(s, ar[0], A, c_.ins); en.mpz_set(s, ar[1], B, c_.ins); s.g['dec'] = (A, B)
        return [Out('ret', s, IVal(32, 0))] + ([] if back else [Out('ret', q, IVal(32, (1 << 32) - 1))])
    use(e, r'^bqfc_deserialize\(', des)
    def abd(en, s, ar, c_):
        A, B, DD = [zi(en.mpz_get(s, x, c_.ins)) for x in ar[1:4]]; en.check(s, z3.And(A == s.g['dec'][0], B == s.g['dec'][1], DD == D), 'the form is made of the decoded coefficients', c_.ins)
        q = s.copy(); C = fresh('c0'); x, y, z = fresh('fa'), fresh('fb'), fresh('fc'); s.assume(z3.And(A > 0, B*B - 4*A*C == D, fo.K(x, y, z) == fo.K(A, B, C), fo.disc(x, y, z) == D, fo.reduced(x, y, z), x > 0, z > 0)); w = fresh('exact')
        if back: en.check(q, z3.And(A > 0, B*B - D == 4*A*c), 'from_abd accepts it', c_.ins); s.assume(C == c) ; s.assume(z3.Implies(fo.reduced(A, B, C), z3.And(x == A, y == B, z == C)))         # a class has one reduced form
        for i, v in enumerate((x, y, z)): en.mpz_new(s, PVal(ar[0].o, add(ar[0].off, 16*i)), v, c_.ins)
        return [Out('ret', s, None)] + ([] if back else [en.throw(q, 'St13runtime_error')])
    use(e, r'^form::from_abd\(', abd)
    def isred(en, s, ar, c_):
        A, B, C = fo.fget(en, s, ar[0]); t = fo.reduced(A, B, C); return [Out('ret', s, boolv(t))]
    use(e, r'^form::is_reduced\(', isred)
    outs = e.exec_fn(f, [r, pD, p, ival(64, n), boolv(strict)], st)
    cover(e, outs, [('decoded', lambda o: z3.BoolVal(o.kind == 'ret'))] + ([] if back else [('refused', lambda o: z3.BoolVal(o.kind == 'throw'))]), 'DeserializeForm')
    for o in outs:
        s = o.st
        if o.kind == 'throw': e.check(s, s.exc[0] in ('St13runtime_error', 'St14overflow_error'), 'refusal is a runtime_error (overflow_error for a discriminant of 2^31 bits)'); e.check(s, not back, 'the encoding of a reduced form is not refused'); continue
        A, B, C = fo.fget(e, s, r); e.check(s, z3.And(D < 0, n == 100, zi(nd) <= 1024), 'only 100 bytes for a negative discriminant of at most 1024 bits'); e.check(s, 'dec' in s.g, 'the bytes were decoded')
        e.check(s, fo.disc(A, B, C) == D, 'the form has the given discriminant'); e.check(s, fo.reduced(A, B, C), 'the form is reduced')
        if back: e.check(s, z3.And(zi(A) == a, zi(B) == b, zi(C) == c), 'the reduced form comes back')
        e.check(s, zeq(e.mpz_get(s, pD), D), 'D is left alone')
    return e

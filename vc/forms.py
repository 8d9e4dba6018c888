"""Group-level contracts on the binary-quadratic-form layer.

In this mode a 48-byte `form` object is a single abstract value: the class it represents, written
as an integer-linear combination of generators (an Int term; two Int terms that are equal for every
value of the generators are equal elements of any abelian group), a flag saying that the triple is
the reduced representative, and the discriminant.  The algebraic facts behind these contracts are the
subject of the form-arithmetic properties (composition, reduction)."""
import re
import z3
import eng as E
from eng import *
from lib_std import setdead, getvec
from lib_gmp import bitlen

ISONE = z3.Function('is_identity', I_, I_, z3.BoolSort())         # (D, class)
FA = z3.Function('reduced_a', I_, I_, I_)                         # (D, class)
FB = z3.Function('reduced_b', I_, I_, I_)
FC = z3.Function('reduced_c', I_, I_, I_)
CLS = z3.Function('class_of', I_, I_, I_, I_)                     # (D, a, b)

class FormV:
    size = 48
    __slots__ = ('cls', 'red', 'D')
    def __init__(self, cls, red=False, D=None):
        self.cls, self.red, self.D = cst(cls) if cls is not None else None, red, D
    def leaves(self): return [('cls', self.cls if self.cls is not None else 0), ('red', self.red)]
    def rebuild(self, ls): return FormV(ls[0], ls[1], self.D)
    def __repr__(self): return 'form(%s)' % (self.cls,)
    def parts(self, eng, st, d):
        f = {0: FA, 16: FB, 32: FC}[d]
        if self.cls is None: return fresh('unset')
        D = zi(self.D); c = zi(self.cls)
        st.assume(z3.And(FA(D, c) > 0, FC(D, c) >= FA(D, c), FB(D, c) <= FA(D, c), FB(D, c) > -FA(D, c)))
        st.assume(CLS(D, FA(D, c), FB(D, c)) == c)
        if self.red is True: return f(D, c)
        x = fresh('part')
        if self.red is not False: st.assume(z3.Implies(self.red, x == f(D, c)))
        if d in (0, 32): st.assume(x > 0)
        return x
    def mpz_get(self, eng, st, d):
        return self.parts(eng, st, d)
    def bigload(self, eng, st, o, k, d, ty, ins):
        q, r = d // 16 * 16, d % 16
        if r == 4 and ty.k == 'int':
            # limb count of a coefficient: positive for a (and c), otherwise unknown
            e = eng.fint(st, 'coefsize', 32, True)
            st.assume(z3.And(e.e >= -(1 << 20), e.e <= (1 << 20)))
            if q in (0, 32): st.assume(e.e > 0)
            return e
        raise Unsupported('raw access to a form coefficient')

def ret(st, v=None): return [Out('ret', st, v)]

def getf(eng, st, p, ins=None):
    if p.o is None:
        eng.check(st, False, 'non-null form', ins); return FormV(fresh('bad'), False, 0)
    if p.o.kind == 'vecdata':
        v = eng.vec_of(st, p.o, ins)
        if v is None: return FormV(fresh('bad'), False, 0)
        i, r = eng.elemidx(st, p, 48)
        eng.check(st, zand(cmpx('>=', i, 0), cmpx('<', i, v.len)), 'form array element in bounds', ins)
        return FormV(simp(z3.Select(v.arr, zi(i))), False, eng.formD)
    os = st.mem.get(p.o)
    if os is None: eng.check(st, False, 'no access to a dead object', ins); return FormV(fresh('bad'), False, 0)
    if os.arr is not None and os.es == 48:
        i, r = eng.elemidx(st, p, 48)
        if p.o.size is not None: eng.check(st, zand(cmpx('>=', i, 0), cmpx('<', mul(48, i), p.o.size)), 'form array element in bounds', ins)
        return FormV(simp(z3.Select(os.arr, zi(i))), False, eng.formD)
    c = os.cells.get(p.off) if isc(p.off) else None
    if isinstance(c, FormV):
        return c
    if isinstance(c, Dead): eng.check(st, False, 'no use of a destroyed form', ins); return FormV(fresh('bad'), False, 0)
    if isinstance(c, Mpz) or c is None:
        raise Unsupported('form expected at %r, found %r' % (p, c))
    raise Unsupported('form expected at %r, found %r' % (p, c))

def needf(eng, st, p, ins, D=None):
    v = getf(eng, st, p, ins)
    if v.cls is None:
        eng.check(st, False, 'form operand has been given a value', ins)
        return FormV(fresh('bad'), False, D)
    if D is not None and v.D is not None:
        eng.check(st, zeq(v.D, D), 'form operand has the discriminant of the operation', ins)
    return v

def putf(eng, st, p, v, ins=None):
    if p.o is not None and p.o.kind == 'vecdata':
        w = eng.vec_of(st, p.o, ins)
        if w is None: return
        i, r = eng.elemidx(st, p, 48)
        eng.check(st, zand(cmpx('>=', i, 0), cmpx('<', i, w.len)), 'form array element in bounds', ins)
        if v.cls is None: return
        eng.setarr(st, p, ('vec', w), z3.Store(w.arr, zi(i), zi(v.cls)))
        return
    os = st.mem.get(p.o)
    if os is not None and os.arr is not None and os.es == 48:
        i, r = eng.elemidx(st, p, 48)
        if p.o.size is not None: eng.check(st, zand(cmpx('>=', i, 0), cmpx('<', mul(48, i), p.o.size)), 'form array element in bounds', ins)
        if v.cls is None: return
        eng.setarr(st, p, ('arr', os), z3.Store(os.arr, zi(i), zi(v.cls)))
        return
    eng.put(st, p, v, 48)

def handlers():
    L = []
    def on(rx):
        def d(f): L.append((re.compile(rx), f)); return f
        return d
    F = r'form(?: const)?&'
    @on(r'^form::form\(\)$')
    def _(e, st, a, c): putf(e, st, a[0], FormV(None)); return ret(st)
    @on(r'^form::form\(form(?: const&|&&)\)$')
    def _(e, st, a, c):
        v = getf(e, st, a[1], c.ins); putf(e, st, a[0], v); return ret(st)
    @on(r'^form::~form\(\)$')
    def _(e, st, a, c):
        if a[0].o.kind == 'vecdata': return ret(st)
        if st.mem[a[0].o].arr is None: setdead(e, st, a[0], 48)
        return ret(st)
    @on(r'^form::operator=\(form(?: const&|&&)\)$')
    def _(e, st, a, c):
        v = getf(e, st, a[1], c.ins); getf(e, st, a[0], c.ins)
        if '&&' in c.dem: w = getf(e, st, a[0], c.ins)
        putf(e, st, a[0], v, c.ins)
        if '&&' in c.dem and not (a[0].o is a[1].o): putf(e, st, a[1], w, c.ins)
        return ret(st, a[0])
    @on(r'^form::identity\(integer const&\)$')
    def _(e, st, a, c):
        D = e.mpz_get(st, a[1], c.ins); putf(e, st, a[0], FormV(0, True, D)); return ret(st)
    @on(r'^form::generator\(integer const&\)$')
    def _(e, st, a, c):
        D = e.mpz_get(st, a[1], c.ins); putf(e, st, a[0], FormV(CLS(zi(D), z3.IntVal(2), z3.IntVal(1)), True, D)); return ret(st)
    @on(r'^form::from_abd\(integer const&, integer const&, integer const&\)$')
    def _(e, st, a, c):
        A, B, D = [e.mpz_get(st, x, c.ins) for x in a[1:4]]
        e.check(st, cmpx('>', A, 0), 'from_abd: a is positive', c.ins)
        cl = CLS(zi(D), zi(A), zi(B))
        # the class of a reduced pair (a,b) is the class it came from
        putf(e, st, a[0], FormV(cl, z3.Function('is_reduced_abd', I_, I_, I_, z3.BoolSort())(zi(D), zi(A), zi(B)), D)); return ret(st)
    @on(r'^form::is_reduced\(\)$')
    def _(e, st, a, c):
        v = needf(e, st, a[0], c.ins)
        return ret(st, boolv(v.red if not isinstance(v.red, bool) else (True if v.red else fresh('isred', z3.BoolSort()))))
    @on(r'^form::reduce\(\)$')
    def _(e, st, a, c):
        v = needf(e, st, a[0], c.ins); putf(e, st, a[0], FormV(v.cls, True, v.D)); return ret(st)
    @on(r'^form::inverse\(\) const$')
    def _(e, st, a, c):
        v = needf(e, st, a[1], c.ins); putf(e, st, a[0], FormV(simp(-zi(v.cls)), True, v.D)); return ret(st)
    @on(r'^form::(assert_valid)\(.*\)$')
    def _(e, st, a, c): return ret(st)
    @on(r'^form::check_valid\(integer const&\)$')
    def _(e, st, a, c):
        v = needf(e, st, a[0], c.ins); D = e.mpz_get(st, a[1], c.ins)
        return ret(st, boolv(zeq(v.D, D)))
    @on(r'^form::operator==\(form const&\) const$')
    def _(e, st, a, c):
        x, y = needf(e, st, a[0], c.ins), needf(e, st, a[1], c.ins)
        for v in (x, y):
            if v.red is not True:
                e.check(st, v.red if not isinstance(v.red, bool) else False, 'forms compared by coefficients are both reduced', c.ins)
        d = simp(zi(x.cls) - zi(y.cls))
        if isc(d) and d == 0: return ret(st, boolv(True))
        n = simp(-zi(d)) if not isc(d) else -d
        st.assume(ISONE(zi(x.D), zi(d)) == ISONE(zi(x.D), zi(n)))
        st.assume(z3.Implies(zi(d) == 0, ISONE(zi(x.D), zi(d))))
        return ret(st, boolv(ISONE(zi(x.D), zi(d))))
    @on(r'^(operator\*|multiply)\(form const&, form const&\)$')
    def _(e, st, a, c):
        x, y = needf(e, st, a[1], c.ins), needf(e, st, a[2], c.ins)
        if x.D is not None and y.D is not None: e.check(st, zeq(x.D, y.D), 'composed forms have the same discriminant', c.ins)
        putf(e, st, a[0], FormV(add(x.cls, y.cls), True, x.D)); return ret(st)
    @on(r'^square\(form const&\)$')
    def _(e, st, a, c):
        x = needf(e, st, a[1], c.ins); putf(e, st, a[0], FormV(mul(2, x.cls), True, x.D)); return ret(st)
    @on(r'^nucomp_form\(.*\)$')
    def _(e, st, a, c):
        D = e.mpz_get(st, a[3], c.ins); L = e.mpz_get(st, a[4], c.ins)
        x, y = needf(e, st, a[1], c.ins, D), needf(e, st, a[2], c.ins, D)
        e.check(st, cmpx('>=', L, 1), 'nucomp bound L is positive', c.ins)
        getf(e, st, a[0], c.ins)
        putf(e, st, a[0], FormV(add(x.cls, y.cls), False, D), c.ins); return ret(st)
    @on(r'^nudupl_form\(.*\)$')
    def _(e, st, a, c):
        D = e.mpz_get(st, a[2], c.ins); L = e.mpz_get(st, a[3], c.ins)
        x = needf(e, st, a[1], c.ins, D)
        e.check(st, cmpx('>=', L, 1), 'nudupl bound L is positive', c.ins)
        getf(e, st, a[0], c.ins)
        putf(e, st, a[0], FormV(mul(2, x.cls) if not isc(x.cls) else 2*x.cls, False, D), c.ins); return ret(st)
    @on(r'^PulmarkReducer::PulmarkReducer\(\)$')
    def _(e, st, a, c): e.put(st, a[0], Opaque(16, 'reducer')); return ret(st)
    @on(r'^PulmarkReducer::~PulmarkReducer\(\)$')
    def _(e, st, a, c): return ret(st)
    @on(r'^PulmarkReducer::reduce\(form&\)$')
    def _(e, st, a, c):
        v = needf(e, st, a[1], c.ins); putf(e, st, a[1], FormV(v.cls, True, v.D), c.ins); return ret(st)
    return L

def vec_load(eng, st, p, x, ty, ins):
    i, r = divmod_off(eng, p)
    raise Unsupported('raw access to a form element')
def divmod_off(eng, p):
    return eng.elemidx(None, PVal(p.o, p.off), 48)

def install(eng):
    eng.formD = getattr(eng, 'formD', None)
    for rx, h in handlers():
        def w(e, st, a, c, h=h):
            e.used_contracts.add(c.dem.split('(')[0][:90]); return h(e, st, a, c)
        eng.contracts.append((rx, w))
    eng.vec_kind_load = lambda st, p, x, ty, ins: vec_load(eng, st, p, x, ty, ins)

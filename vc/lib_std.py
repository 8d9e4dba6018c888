"""Assumed contracts on the C++ standard library and runtime (external dependency):
std::vector / std::string of integers or forms, exceptions, allocation, memcpy family."""
import re
import z3
import eng as E
from eng import *

def ret(st, v=None): return [Out('ret', st, v)]

EL = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'bool': None, 'int': 4, 'unsigned int': 4, 'unsigned long': 8, 'long': 8,
      'unsigned short': 2, 'short': 2, 'unsigned long long': 8, 'long long': 8, 'form': 48}

def elem(dem):
    m = re.search(r'std::(?:__cxx11::)?vector<([^<>]*(?:<[^<>]*>)?[^<>]*), std::allocator<', dem)
    if not m: raise Unsupported('vector type in ' + dem)
    return m.group(1).strip()

def getvec(eng, st, p, c, cls=Vec):
    v = eng.getbig(st, p, cls, c.ins)
    if v is None:
        k = eng.findcell(st.mem[p.o], p.off)[1] if p.o is not None and p.o in st.mem and isc(p.off) else None
        if isinstance(k, Dead): eng.check(st, False, 'no use of a destroyed container', c.ins)
        raise Unsupported('container expected at %r (%s), found %r' % (p, c.dem[:80], k))
    return v
def setvec(eng, st, p, v): eng.put(st, p, v)

# ---- libm on finite doubles: results bounded by tables of rational bounds (libm errors are below the slack)
from fractions import Fraction as _Fr
import math as _math
_SL = _Fr(1, 10**9)
def _q(f): return z3.Q(f.numerator, f.denominator)
def monotone(e, st, x, f, pts, lo=None):
    """a double r with f(p) - slack <= r for x >= p and r <= f(p) + slack for x <= p, over the table of points p"""
    v = e.rval(st)
    for p in pts:
        y = _Fr(f(float(p))); pq = _q(_Fr(p))
        st.assume(z3.Implies(x >= pq, v.r >= _q(y - _SL))); st.assume(z3.Implies(x <= pq, v.r <= _q(y + _SL)))
    return v
LOGPTS = [2.0**j for j in range(-54, 0, 3)] + [2.0**(j/2) for j in range(-8, 9)] + [1.01, 1.03, 1.06] + [2.0**j for j in range(5, 66)]
def fmath(e, st, k, a, c):
    if k == 'isfinite': return ret(st, boolv(True if z3.is_expr(a[0].r) else (False if isinstance(a[0].r, str) else fresh('fin', z3.BoolSort()))))
    if k == 'max<double>':
        from ir import F64
        x, y = e.load(st, a[0], F64, c.ins), e.load(st, a[1], F64, c.ins)
        if e.isreal(x, y): v = FVal(fresh('f', F64S), z3.If(x.r < y.r, y.r, x.r))
        elif e.isreal(y) and x.r == 'ninf': v = y
        else: v = FVal(fresh('dbl', F64S))
        o = Obj('minmax', 8, 'stack'); st.mem[o] = OS({0: v}); return ret(st, PVal(o, 0))
    sg = c.dem.split('<')[-1].startswith('int') if '<' in c.dem else True
    a = [e.cast(st, 'sitofp' if sg else 'uitofp', v, None, None) if isinstance(v, IVal) else v for v in a]
    x = a[0].r
    if not z3.is_expr(x): return ret(st, FVal(fresh('dbl', F64S)))
    if k in ('floor', 'ceil', 'round'):
        n = fresh('near'); nr = z3.ToReal(n)
        st.assume({'floor': z3.And(nr <= x, x < nr + 1), 'ceil': z3.And(nr >= x, x > nr - 1), 'round': z3.And(nr - x <= z3.Q(1, 2), x - nr <= z3.Q(1, 2))}[k])
        return ret(st, FVal(fresh('f', F64S), nr))
    if k == 'fabs': return ret(st, FVal(fresh('f', F64S), z3.If(x < 0, -x, x)))
    if k in ('log', 'log2'):
        outs = []; z = st.copy(); z.assume(x == 0)
        if e.solver.feasible(st, x == 0): outs += ret(z, FVal(fresh('f', F64S), 'ninf'))
        n = st.copy(); n.assume(x < 0)
        if e.solver.feasible(st, x < 0): outs += ret(n, FVal(fresh('nan', F64S)))
        if e.solver.feasible(st, x > 0):
            st.assume(x > 0)
            f = {'log': _math.log, 'log2': _math.log2}[k]
            v = monotone(e, st, x, f, LOGPTS)
            # a double above 1 exceeds it by at least 2^-52; below the table: exponents down to -1074
            st.assume(z3.And(z3.Implies(x > 1, v.r >= z3.Q(1, 1 << 53)), z3.Implies(x == 1, v.r == 0), z3.Implies(x < 1, v.r < 0), v.r >= -1100, v.r <= 1100))
            outs += ret(st, v)
        return outs
    if k == 'sqrt' and e.solver.entails(st, x >= 0): return ret(st, monotone(e, st, x, _math.sqrt, [0.0] + [2.0**j for j in range(-20, 65)]))
    if k == 'pow' and len(a) == 2 and e.isreal(a[1]) and e.solver.entails(st, x == 2) and e.solver.entails(st, z3.And(a[1].r <= 64, a[1].r >= -64)):
        return ret(st, monotone(e, st, a[1].r, lambda t: 2.0**t, [j / 4 for j in range(-256, 257)]))
    return ret(st, FVal(fresh('dbl', F64S)))

def newvec(eng, st, el, n, arr=None):
    es = EL.get(el)
    if es is None: raise Unsupported('vector of ' + el)
    kind = 'form' if el == 'form' else 'int'
    if arr is None: arr = z3.K(I_, z3.IntVal(0)) if kind == 'int' else fresh('forms', ARR)
    return Vec(es, n, arr, kind=kind)

def rangeof(eng, st, b, e, es):
    """(source array, index, count) of iterator/pointer range [b, e)"""
    if b.o is None and e.o is None: return None
    n = sub(e.off, b.off)
    if es != 1:
        if isc(n): cnt = n // es
        else:
            q = eng.divexact(n, es)
            if q is None: raise Unsupported('range')
            cnt = q[0]
    else: cnt = n
    if b.o is not e.o: return ('bad', 0, 0)
    a = eng.arr_state(st, b)
    if a is None:
        if isc(cnt) and cnt == 0: return (z3.K(I_, z3.IntVal(0)), 0, 0)
        eng.to_array(st, b.o, es, None); a = eng.arr_state(st, b)
    if a[1].es != es: raise Unsupported('range of a different element size')
    i, _ = eng.elemidx(st, b, es)
    return (a[1].arr, i, cnt)

def itp(eng, st, v):
    """iterator argument: by value (ptr) or by reference to {ptr}"""
    return v

def handlers(eng):
    L = []
    def on(rx):
        def d(f): L.append((re.compile(rx), f)); return f
        return d
    V = r'(?:std::(?:__cxx11::)?vector<[^()]*>::)'
    # ---- vector
    @on(r'^std::vector<.*>::vector\(\)$')
    def _(e, st, a, c): setvec(e, st, a[0], newvec(e, st, elem(c.dem), 0)); return ret(st)
    @on(r'^std::vector<.*>::vector\(std::allocator<.*> const&\)$')
    def _(e, st, a, c): setvec(e, st, a[0], newvec(e, st, elem(c.dem), 0)); return ret(st)
    @on(r'^std::vector<.*>::vector\(unsigned long, std::allocator<.*> const&\)$')
    def _(e, st, a, c):
        n = e.U(st, a[1]); el = elem(c.dem); out = []
        lim = (1 << 63) // EL[el]
        if not isc(n):
            big = cmpx('>=', n, lim)
            if e.solver.feasible(st, big):
                s2 = st.copy(); s2.assume(big); out.append(e.throw(s2, 'St12length_error'))
                st.assume(znot(big))
        setvec(e, st, a[0], newvec(e, st, el, n)); return out + ret(st)
    @on(r'^std::vector<.*>::vector\(unsigned long, [^,]* const&, std::allocator<.*> const&\)$')
    def _(e, st, a, c):
        n = e.U(st, a[1]); el = elem(c.dem)
        if el == 'form': raise Unsupported('vector<form>(n, v)')
        v = e.load(st, a[2], INT(8*EL[el]), c.ins)
        setvec(e, st, a[0], newvec(e, st, el, n, z3.K(I_, zi(e.U(st, v))))); return ret(st)
    @on(r'^std::vector<.*>::vector\(std::vector<.*> const&\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[1], c); setvec(e, st, a[0], Vec(v.es, v.len, v.arr, kind=v.kind)); return ret(st)
    @on(r'^std::vector<.*>::vector\(std::vector<.*>&&\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[1], c); setvec(e, st, a[0], Vec(v.es, v.len, v.arr, kind=v.kind))
        setvec(e, st, a[1], Vec(v.es, 0, v.arr, kind=v.kind)); return ret(st)
    @on(r'^std::vector<.*>::vector\(std::initializer_list<.*>, std::allocator<.*> const&\)$')
    def _(e, st, a, c):
        p, n = a[1], a[2]
        if isinstance(p, Agg): p, n = p.v
        el = elem(c.dem); es = EL[el]; cnt = e.U(st, n)
        if not isc(cnt): raise Unsupported('initializer_list length')
        arr = z3.K(I_, z3.IntVal(0))
        for i in range(cnt):
            v = e.load(st, PVal(p.o, add(p.off, es*i)), INT(8*es), c.ins)
            arr = z3.Store(arr, i, zi(e.U(st, v)))
        setvec(e, st, a[0], newvec(e, st, el, cnt, arr)); return ret(st)
    @on(r'^(?:void )?std::vector<.*>::vector<.*>\(.*\)$')
    def _(e, st, a, c):
        # range constructor (first, last, alloc)
        el = elem(c.dem); es = EL[el]
        r = rangeof(e, st, a[1], a[2], es)
        arr, i, n = r
        e.check(st, cmpx('>=', n, 0), 'iterator range is well ordered', c.ins)
        if not isc(n) or n > 0:
            if not e.bounds(st, a[1], mul(es, n), c.ins, 'read'): pass
        v = newvec(e, st, el, n)
        v.arr = e.splice(st, v.arr, 0, arr, i, n)
        setvec(e, st, a[0], v); return ret(st)
    @on(r'^std::vector<.*>::~vector\(\)$')
    def _(e, st, a, c):
        p = a[0]
        v = e.getbig(st, p, Vec)
        if v is None: 
            k = st.mem[p.o].cells.get(p.off) if p.o in st.mem and isc(p.off) else None
            if isinstance(k, Opaque): return ret(st)
            e.check(st, False, 'container destroyed once', c.ins)
            return ret(st)
        setdead(e, st, p, 24); return ret(st)
    @on(r'^std::vector<.*>::operator=\(std::vector<.*>(?:&&| const&)\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[1], c); setvec(e, st, a[0], Vec(v.es, v.len, v.arr, kind=v.kind))
        if '&&' in c.dem and not (a[0].o is a[1].o and same(a[0].off, a[1].off)): setvec(e, st, a[1], Vec(v.es, 0, v.arr, kind=v.kind))
        return ret(st, a[0])
    @on(r'^std::vector<.*>::size\(\) const$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); return ret(st, IVal(64, v.len, 0, 1 << 62))
    @on(r'^std::vector<.*>::empty\(\) const$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); return ret(st, boolv(simp(zeq(v.len, 0))))
    @on(r'^std::vector<.*>::capacity\(\) const$')
    def _(e, st, a, c): return ret(st, e.fint(st, 'cap', 64, False))
    def data(e, st, p, c):
        v = getvec(e, st, p, c); return PVal(e.vecdata(st, p.o, p.off, v), 0)
    @on(r'^std::vector<.*>::(data|begin|cbegin)\(\)(?: const)?$')
    def _(e, st, a, c): return ret(st, data(e, st, a[0], c))
    @on(r'^std::vector<.*>::(end|cend)\(\)(?: const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); p = data(e, st, a[0], c); return ret(st, PVal(p.o, mul(v.es, v.len)))
    @on(r'^std::vector<.*>::operator\[\]\(unsigned long\)(?: const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); i = e.U(st, a[1])
        e.check(st, cmpx('<', i, v.len), 'vector subscript below its size', c.ins)
        p = data(e, st, a[0], c); return ret(st, PVal(p.o, mul(v.es, i)))
    @on(r'^std::vector<.*>::at\(unsigned long\)(?: const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); i = e.U(st, a[1]); out = []
        bad = cmpx('>=', i, v.len)
        if bad is True: return [e.throw(st, 'St12out_of_range')]
        if bad is not False and e.solver.feasible(st, bad):
            s2 = st.copy(); s2.assume(bad); out.append(e.throw(s2, 'St12out_of_range'))
        if bad is not False: st.assume(znot(bad))
        p = data(e, st, a[0], c); return out + ret(st, PVal(p.o, mul(v.es, i)))
    @on(r'^std::vector<.*>::(front|back)\(\)(?: const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); e.check(st, cmpx('>', v.len, 0), 'front/back of a non-empty vector', c.ins)
        p = data(e, st, a[0], c)
        return ret(st, PVal(p.o, 0 if '::front' in c.dem else mul(v.es, sub(v.len, 1))))
    @on(r'^std::vector<.*>::resize\(unsigned long\)$')
    def _(e, st, a, c): return resize(e, st, a, c, 0)
    @on(r'^std::vector<.*>::resize\(unsigned long, .* const&\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); x = e.load(st, a[2], INT(8*v.es), c.ins)
        return resize(e, st, a, c, e.U(st, x))
    def resize(e, st, a, c, fill):
        v = getvec(e, st, a[0], c); n = e.U(st, a[1])
        j = z3.Int('j!rsz')
        if same(n, v.len): return ret(st)
        if isc(n) and n == 0: arr = v.arr
        elif v.kind == 'form': arr = v.arr
        elif isc(v.len) and v.len == 0: arr = z3.K(I_, zi(fill))
        else: arr = z3.Lambda([j], z3.If(j < zi(v.len), z3.Select(v.arr, j), zi(fill)))
        setvec(e, st, a[0], Vec(v.es, n, arr, kind=v.kind)); return ret(st)
    @on(r'^std::vector<.*>::(clear)\(\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); setvec(e, st, a[0], Vec(v.es, 0, v.arr, kind=v.kind)); return ret(st)
    @on(r'^std::vector<.*>::reserve\(unsigned long\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); setvec(e, st, a[0], Vec(v.es, v.len, v.arr, kind=v.kind)); return ret(st)
    @on(r'^std::vector<.*>::(push_back\(.*\)|emplace_back<.*>\(.*\))$|^.* std::vector<.*>::emplace_back<.*>\(.*\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c)
        if v.kind != 'int':
            import forms
            x = forms.getf(e, st, a[1], c.ins).cls
        else: x = e.U(st, e.load(st, a[1], INT(8*v.es), c.ins))
        nv = Vec(v.es, add(v.len, 1), z3.Store(v.arr, zi(v.len), zi(x)), kind=v.kind)
        setvec(e, st, a[0], nv)
        p = PVal(e.vecdata(st, a[0].o, a[0].off, nv), mul(v.es, v.len))
        return ret(st, p)
    @on(r'^std::vector<.*>::pop_back\(\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c); e.check(st, cmpx('>', v.len, 0), 'pop_back of a non-empty vector', c.ins)
        nv = Vec(v.es, sub(v.len, 1), v.arr, v.gen, kind=v.kind); setvec(e, st, a[0], nv); return ret(st)
    @on(r'^.*std::vector<.*>::insert<.*>\(.*\)$')
    def _(e, st, a, c):
        # (this, pos, first, last)
        v = getvec(e, st, a[0], c); pos, b, en = a[1], a[2], a[3]
        arr, i, n = rangeof(e, st, b, en, v.es)
        e.check(st, cmpx('>=', n, 0), 'iterator range is well ordered', c.ins)
        if not (isc(n) and n == 0): e.bounds(st, b, mul(v.es, n), c.ins, 'read')
        pi, _ = e.elemidx(st, pos, v.es)
        if not same(pi, v.len):
            if not e.solver.entails(st, zeq(pi, v.len)): raise Unsupported('vector insert in the middle')
        na = e.splice(st, v.arr, v.len, arr, i, n)
        setvec(e, st, a[0], Vec(v.es, add(v.len, n), na, kind=v.kind))
        return ret(st, PVal(e.vecdata(st, a[0].o, a[0].off, getvec(e, st, a[0], c)), mul(v.es, v.len)))
    @on(r'^.*std::vector<.*>::assign<.*>\(.*\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c)
        arr, i, n = rangeof(e, st, a[1], a[2], v.es)
        if not (isc(n) and n == 0): e.bounds(st, a[1], mul(v.es, n), c.ins, 'read')
        na = e.splice(st, z3.K(I_, z3.IntVal(0)), 0, arr, i, n)
        setvec(e, st, a[0], Vec(v.es, n, na, kind=v.kind)); return ret(st)
    # ---- strings
    @on(r'^std::__cxx11::basic_string<char.*>::basic_string(<.*>)?\(.*\)$')
    def _(e, st, a, c):
        src = a[1] if len(a) > 1 else None
        if src is not None and re.search(r'\(std::__cxx11::basic_string<.*(const&|&&)', c.dem):
            v = getvec(e, st, src, c, Str); setvec(e, st, a[0], Str(1, v.len, v.arr)); return ret(st)
        if src is not None and isinstance(src, PVal) and 'char const*' in c.dem:
            lit = cstr(e, st, src)
            if lit is not None: setvec(e, st, a[0], strlit(lit)); return ret(st)
        if src is not None and re.search(r'\(unsigned long, char, std::allocator', c.dem):
            n = e.U(st, a[1]); ch = e.U(st, a[2])
            if isc(n) or e.solver.entails(st, zi(n) < 1 << 40): setvec(e, st, a[0], Str(1, n, z3.K(I_, simp(zi(ch))))); return ret(st)
        n = fresh('strlen'); st.assume(z3.And(n >= 0, n < (1 << 40)))
        setvec(e, st, a[0], Str(1, 0 if src is None else n, fresh('str', ARR))); return ret(st)
    @on(r'^std::__cxx11::basic_string<char.*>::push_back\(char\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c, Str); setvec(e, st, a[0], Str(1, add(v.len, 1), z3.Store(v.arr, zi(v.len), zi(e.U(st, a[1]))))); return ret(st)
    @on(r'^std::__cxx11::basic_string<char.*>::(append|operator\+=|operator=)\(std::__cxx11::basic_string<.*(const&|&&)\)$')
    def _(e, st, a, c):
        w = getvec(e, st, a[1], c, Str)
        if 'operator=(' in c.dem: setvec(e, st, a[0], Str(1, w.len, w.arr)); return ret(st, a[0])
        v = getvec(e, st, a[0], c, Str); setvec(e, st, a[0], Str(1, add(v.len, w.len), e.splice(st, v.arr, v.len, w.arr, 0, w.len))); return ret(st, a[0])
    @on(r'^std::__cxx11::basic_string<char.*>::resize\(unsigned long(, char)?\)$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c, Str); n = e.U(st, a[1]); ch = zi(e.U(st, a[2])) if len(a) > 2 else z3.IntVal(0); j = z3.Int('j!rsz'); out = []
        if not isc(n):
            big = cmpx('>=', n, 1 << 62)
            if e.solver.feasible(st, big): s2 = st.copy(); s2.assume(big); out.append(e.throw(s2, 'St12length_error')); st.assume(znot(big))
        if not same(n, v.len):
            arr = v.arr if e.solver.entails(st, cmpx('<=', n, v.len)) else z3.Lambda([j], z3.If(j < zi(v.len), z3.Select(v.arr, j), ch))
            setvec(e, st, a[0], Str(1, n, arr))
        return out + ret(st)
    @on(r'^std::__cxx11::basic_string<char.*>::~basic_string\(\)$')
    def _(e, st, a, c): setdead(e, st, a[0], 32); return ret(st)
    @on(r'^std::__cxx11::basic_string<char.*>::(c_str|data|begin)\(\)( const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c, Str); return ret(st, PVal(e.vecdata(st, a[0].o, a[0].off, v), 0))
    @on(r'^std::__cxx11::basic_string<char.*>::end\(\)( const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c, Str); return ret(st, PVal(e.vecdata(st, a[0].o, a[0].off, v), v.len))
    @on(r'^std::__cxx11::basic_string<char.*>::(size|length)\(\) const$')
    def _(e, st, a, c): v = getvec(e, st, a[0], c, Str); return ret(st, IVal(64, v.len, 0, 1 << 62))
    @on(r'^std::__cxx11::basic_string<char.*>::empty\(\) const$')
    def _(e, st, a, c): v = getvec(e, st, a[0], c, Str); return ret(st, boolv(simp(zeq(v.len, 0))))
    @on(r'^std::__cxx11::basic_string<char.*>::operator\[\]\(unsigned long\)( const)?$')
    def _(e, st, a, c):
        v = getvec(e, st, a[0], c, Str); i = e.U(st, a[1])
        e.check(st, cmpx('<=', i, v.len), 'string subscript within its size', c.ins)
        return ret(st, PVal(e.vecdata(st, a[0].o, a[0].off, v), i))
    @on(r'^std::__cxx11::basic_string<char.*>::operator=\(.*\)$|^std::__cxx11::basic_string<char.*>::(append|operator\+=|push_back|assign)\(.*\)$')
    def _(e, st, a, c):
        n = fresh('strlen'); st.assume(z3.And(n >= 0, n < (1 << 40)))
        setvec(e, st, a[0], Str(1, n, fresh('str', ARR))); return ret(st, a[0])
    @on(r'^std::__cxx11::basic_string<char.*> std::operator\+.*$|^std::__cxx11::to_string\(.*\)$')
    def _(e, st, a, c):
        n = fresh('strlen'); st.assume(z3.And(n >= 0, n < (1 << 40)))
        setvec(e, st, a[0], Str(1, n, fresh('str', ARR))); return ret(st)
    @on(r'^bool std::operator(==|!=)<char.*$')
    def _(e, st, a, c): return ret(st, boolv(fresh('streq', z3.BoolSort())))
    # ---- exceptions and runtime
    @on(r'^std::(runtime_error|logic_error|invalid_argument|overflow_error|out_of_range|length_error|domain_error|range_error|exception|bad_alloc)::\1\(.*\)$')
    def _(e, st, a, c): return ret(st)
    @on(r'^std::(runtime_error|logic_error|invalid_argument|overflow_error|out_of_range|exception)::~\1\(\)$')
    def _(e, st, a, c): return ret(st)
    @on(r'^__cxa_allocate_exception$')
    def _(e, st, a, c):
        o = Obj('exc', None, 'opaqueobj'); st.mem[o] = OS(); return ret(st, PVal(o, 0))
    @on(r'^__cxa_free_exception$')
    def _(e, st, a, c): return ret(st)
    @on(r'^__cxa_throw$')
    def _(e, st, a, c):
        ti = a[1]
        nm = ti.o.name[1:] if isinstance(ti, PVal) and ti.o else '?'
        if nm.startswith('_ZTI'): nm = nm[4:]
        st.exc = (nm, a[0].o, None)
        return [Out('throw', st)]
    @on(r'^__cxa_rethrow$')
    def _(e, st, a, c): return [Out('throw', st)]
    @on(r'^__cxa_begin_catch$')
    def _(e, st, a, c): return ret(st, a[0])
    @on(r'^__cxa_end_catch$')
    def _(e, st, a, c): return ret(st)
    @on(r'^(std::terminate\(\)|__clang_call_terminate|abort|__assert_fail|_exit|exit)$')
    def _(e, st, a, c):
        h = getattr(e, 'stop_hook', None)
        if h and h(e, st, c): return [Out('stop', st)]
        e.check(st, False, 'the process is not terminated (%s)' % c.dem, c.ins)
        return [Out('stop', st)]
    @on(r'^std::__throw_([a-z_]*)\(.*\)$')
    def _(e, st, a, c):
        return [e.throw(st, {'length_error': 'St12length_error', 'out_of_range_fmt': 'St12out_of_range', 'out_of_range': 'St12out_of_range', 'bad_alloc': 'St9bad_alloc'}.get(re.search(r'__throw_([a-z_]*)', c.dem).group(1), 'St9exception'))]
    @on(r'^__cxa_(atexit|thread_atexit)$')
    def _(e, st, a, c): return ret(st, IVal(32, 0))
    @on(r'^__cxa_guard_(acquire|release|abort)$')
    def _(e, st, a, c): return ret(st, e.fint(st, 'guard', 32, False))
    @on(r'^llvm\.threadlocal\.address.*$')
    def _(e, st, a, c): return ret(st, a[0])
    @on(r'^llvm\.(dbg|lifetime|experimental|stacksave|stackrestore|assume|donothing|prefetch).*$')
    def _(e, st, a, c): return ret(st, NULL)
    @on(r'^llvm\.mem(cpy|move)\..*$|^mem(cpy|move)$')
    def _(e, st, a, c):
        e.memcpy(st, a[0], a[1], e.U(st, a[2]), c.ins); return ret(st, a[0])
    @on(r'^llvm\.memset\..*$|^memset$')
    def _(e, st, a, c):
        e.memset(st, a[0], IVal(8, modc(e.U(st, a[1]), 256), 0, 255), e.U(st, a[2]), c.ins); return ret(st, a[0])
    @on(r'^memcmp$|^strcmp$|^strncmp$')
    def _(e, st, a, c):
        if c.name == 'memcmp':
            n = e.U(st, a[2]); e.bounds(st, a[0], n, c.ins, 'read'); e.bounds(st, a[1], n, c.ins, 'read')
        return ret(st, e.fint(st, 'memcmp', 32, True))
    @on(r'^llvm\.(s|u)(add|sub|mul)\.with\.overflow\..*$')
    def _(e, st, a, c):
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)', c.name)
        n = int(m.group(3)); sg = m.group(1) == 's'
        x = e.S(st, a[0]) if sg else e.U(st, a[0]); y = e.S(st, a[1]) if sg else e.U(st, a[1])
        r = {'add': add, 'sub': sub, 'mul': mul}[m.group(2)](x, y)
        lo, hi = (-(1 << (n-1)), 1 << (n-1)) if sg else (0, 1 << n)
        ok = zand(cmpx('>=', r, lo), cmpx('<', r, hi))
        return ret(st, Agg([IVal(n, r), boolv(simp(znot(ok)) if not isinstance(ok, bool) else not ok)]))
    @on(r'^llvm\.(is\.constant|expect)\b.*$')
    def _(e, st, a, c): return ret(st, boolv(False) if 'is.constant' in c.name else a[0])
    @on(r'^llvm\.(ctlz|cttz|ctpop|bswap|abs|smax|smin|umax|umin|fshl|fshr|fabs|floor|ceil|fmuladd|pow|log2|round|trap|eh\.typeid\.for)\b.*$')
    def _(e, st, a, c):
        m = re.match(r'llvm\.([a-z0-9]+)', c.name); k = m.group(1)
        if c.name.startswith('llvm.eh.typeid'):
            p = a[0]; return ret(st, IVal(32, e.typeid(p.o.name[1:])))
        if k == 'ctlz':
            import lib_gmp
            v = e.U(st, a[0]); n = a[0].n
            if isc(v): return ret(st, IVal(n, n - v.bit_length()))
            b = lib_gmp.bitlen(e, st, v)
            return ret(st, IVal(n, sub(n, b), 0, n))
        if k == 'bswap':
            bs = e.bytes_of(st, a[0]); return ret(st, e.frombytes(bs[::-1]))
        if k == 'abs':
            x = e.S(st, a[0]); return ret(st, IVal(a[0].n, ite(cmpx('>=', x, 0), x, sub(0, x)), 0, 1 << (a[0].n - 1)))
        if k in ('smax', 'smin', 'umax', 'umin'):
            f = e.S if k[0] == 's' else e.U
            x, y = f(st, a[0]), f(st, a[1])
            cc = cmpx('>' if k[1:] == 'max' else '<', x, y)
            return ret(st, IVal(a[0].n, ite(cc, x, y)))
        if k in ('cttz', 'ctpop'):
            f = z3.Function(k, I_, I_); r = f(zi(e.U(st, a[0])))
            st.assume(z3.And(r >= 0, r <= a[0].n)); return ret(st, IVal(a[0].n, r, 0, a[0].n))
        if k == 'trap':
            e.check(st, False, 'no trap', c.ins); return [Out('stop', st)]
        if e.reals and k in ('ceil', 'floor', 'round', 'log2', 'fabs'): return fmath(e, st, k, a, c)
        if k in ('fabs', 'floor', 'ceil', 'log2', 'round'): return ret(st, FVal(z3.Function(k, F64S, F64S)(a[0].e)))
        if k == 'fmuladd': return ret(st, FVal(z3.Function(k, F64S, F64S, F64S, F64S)(a[0].e, a[1].e, a[2].e)))
        raise Unsupported(c.name)
    @on(r'^(.*std::log2.*|.*std::pow.*|.*std::log.*|log|pow|log2|exp2|sqrt|floor|ceil|.*std::max<double>.*|std::isfinite\(double\)|round)$')
    def _(e, st, a, c):
        m = re.match(r'^(?:.*std::)?(log2|pow|log|sqrt|floor|ceil|max<double>|isfinite)', c.dem)
        if e.reals and m: return fmath(e, st, m.group(1), a, c)
        if c.rt is not None and c.rt.k == 'ptr': return ret(st, a[0])
        if c.rt is not None and c.rt.k == 'int' and c.rt.a == 1: return ret(st, boolv(fresh('fin', z3.BoolSort())))
        return ret(st, FVal(fresh('dbl', F64S)))
    @on(r'^(unsigned (long|int|char)|int|long) const& std::(min|max)<.*>\(.*\)$')
    def _(e, st, a, c):
        m = re.match(r'^(.*?) const& std::(min|max)<', c.dem); t = m.group(1)
        n = 8*EL[t]; v0, v1 = e.load(st, a[0], INT(n), c.ins), e.load(st, a[1], INT(n), c.ins)
        f = e.U if t.startswith('unsigned') else e.S
        x, y = f(st, v0), f(st, v1)
        cc = cmpx('<' if m.group(2) == 'min' else '>', x, y)
        o = Obj('minmax', n // 8, 'stack'); st.mem[o] = OS({0: IVal(n, simp(ite(cc, x, y)))})
        return ret(st, PVal(o, 0))
    @on(r'^operator new(\[\])?\(unsigned long(, .*)?\)$|^malloc$')
    def _(e, st, a, c):
        n = e.U(st, a[0])
        o = Obj('heap', n, 'heap'); st.mem[o] = OS(); return ret(st, PVal(o, 0))
    @on(r'^operator delete(\[\])?\(void\*.*\)$|^free$')
    def _(e, st, a, c):
        p = a[0]
        if p.o is None: return ret(st)
        os = st.mem.get(p.o)
        if os is None or not os.live or p.o.kind not in ('heap',) or not (isc(p.off) and p.off == 0):
            if p.o.kind == 'opaqueobj': return ret(st)
            e.check(st, False, 'freed pointer is a live heap allocation', c.ins); return ret(st)
        os = os.copy(); os.live = False; st.mem[p.o] = os; return ret(st)
    # ---- output streams: no effect the specifications look at
    @on(r'^.*std::(basic_)?o?stream.*$|^std::ostream::.*$|^std::.*operator<< ?<.*$|^(printf|fprintf|puts|putchar|fflush|fputs|perror|snprintf)$|^std::basic_ios.*$|^.*std::endl.*$|^std::flush.*$')
    def _(e, st, a, c):
        if c.rt is not None and c.rt.k == 'int': return ret(st, e.fint(st, 'io', c.rt.a, True) if c.rt.a > 1 else boolv(fresh('io', z3.BoolSort())))
        return ret(st, a[0] if a else None)
    return L

def setdead(e, st, p, n):
    os = st.mem[p.o].copy()
    for k in list(os.cells):
        if p.off <= k < p.off + n: del os.cells[k]
    os.cells[p.off] = Dead(n); st.mem[p.o] = os

def cstr(e, st, p):
    if p.o is None or p.o not in st.mem: return None
    os = st.mem[p.o]; r = []
    if os.arr is not None or not isc(p.off): return None
    i = p.off
    while True:
        v = os.cells.get(i)
        if not isinstance(v, IVal) or not isc(v.e): return None
        if v.e == 0: return bytes(r)
        r.append(v.e % 256); i += 1
def strlit(b):
    arr = z3.K(I_, z3.IntVal(0))
    for i, x in enumerate(b): arr = z3.Store(arr, i, x)
    return Str(1, len(b), arr)

def install(eng):
    for rx, h in handlers(eng):
        def w(e, st, a, c, h=h):
            e.used_contracts.add(c.dem.split('(')[0][:90]); return h(e, st, a, c)
        eng.contracts.append((rx, w))

"""Byte encodings, checked conversions, seed-based verification."""
import z3
from vf import *
import ir, re
from lib_std import getvec, Str

def outbytes(e, s, p, n):
    r = []
    for i in range(n):
        v = e.load(s, PVal(p.o, i), ir.INT(8)); r.append(zi(e.U(s, v)))
    return r

def t_tobytes(n):
    """Int64ToBytes / Int32ToBytes: the big-endian bytes of the number, nothing else written"""
    mod = lower('core.cpp')
    f = find(mod, r'^Int%dToBytes\(' % n)
    e = engine(mod, True, 'Int%dToBytes' % n)
    st = State()
    v = u(st, 'input', n)
    o = Obj('result', n // 8, 'arg'); st.mem[o] = OS()
    p = PVal(o, 0)
    for x in e.exec_fn(f, [p, ival(n, v)], st):
        e.check(x.st, x.kind == 'ret', 'does not throw')
        bs = outbytes(e, x.st, p, n // 8)
        for i, b in enumerate(bs): e.check(x.st, b == (v / 256 ** (n // 8 - 1 - i)) % 256, 'byte %d is digit %d of the big-endian expansion' % (i, i))
    return e

def t_frombytes():
    """BytesToInt64: the big-endian value of eight bytes, nothing else read"""
    mod = lower('core.cpp')
    f = find(mod, r'^BytesToInt64\(')
    e = engine(mod, True, 'BytesToInt64')
    st = State()
    p = arg_buf(e, st, 'bytes', 8)
    bs = [e.U(st, e.load(st, PVal(p.o, i), ir.INT(8))) for i in range(8)]
    for x in e.exec_fn(f, [p], st):
        e.check(x.st, x.kind == 'ret', 'does not throw')
        w = 0
        for b in bs: w = w * 256 + zi(b)
        e.check(x.st, zeq(e.U(x.st, x.val), simp(w)), 'the value is the big-endian number of the bytes')
    return e

TY = {'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'bool': (1, 0), 'char': (8, 1),
      'long long': (64, 1), 'unsigned long long': (64, 0)}
def t_cast():
    """checked_cast<To>(From) for every pair of integral types: the value if it fits, overflow_error otherwise"""
    mod = lower('cast.cpp')
    n = 0
    for nm in list(mod.fns):
        d = mod.dem.get(nm, nm)
        m = re.match(r'^(.*?) checked_cast<(.*?), (.*?)>\((.*?)\)$', d)
        if not m or not mod.fns[nm].blocks: continue
        to, fr = TY[m.group(2)], TY[m.group(3)]
        n += 1
        e = engine(mod, True, 'checked_cast<%s, %s>' % (m.group(2), m.group(3)))
        st = State()
        v = z3.Int('value')
        lo, hi = (-(1 << (fr[0]-1)), (1 << (fr[0]-1)) - 1) if fr[1] else (0, (1 << fr[0]) - 1)
        st.assume(z3.And(v >= lo, v <= hi))
        tl, th = (-(1 << (to[0]-1)), (1 << (to[0]-1)) - 1) if to[1] else (0, (1 << to[0]) - 1)
        fits = z3.And(v >= tl, v <= th)
        for x in e.exec_fn(mod.fns[nm], [IVal(fr[0], v, lo, hi)], st):
            if x.kind == 'throw':
                e.check(x.st, x.st.exc[0] == 'St14overflow_error', 'the only exception is overflow_error')
                e.check(x.st, z3.Not(fits), 'a value that fits is not refused')
            else:
                e.check(x.st, fits, 'a value that does not fit is refused')
                r = e.S(x.st, x.val) if to[1] else e.U(x.st, x.val)
                e.check(x.st, zeq(r, v), 'the value is unchanged')
    e.check(State(), n == 64, 'all 64 instantiations were analysed (%d)' % n)
    return e

def t_seedcheck():
    """CreateDiscriminantAndCheck...: exactly ordinary verification for the discriminant of this seed and size"""
    mod = lower('core.cpp')
    f = find(mod, r'^CreateDiscriminantAndCheckProofOfTimeNWesolowski\(')
    e = engine(mod, True, 'CreateDiscriminantAndCheckProofOfTimeNWesolowski')
    st = State()
    n = u(st, 'seed_len'); st.assume(n < (1 << 31)); seed = z3.Array('seed', I_, I_)
    ps = arg_vec(e, st, 'seed', 1, n, seed)
    bits = u(st, 'size_bits', 32)
    ln, it, depth = u(st, 'proof_len'), u(st, 'iterations'), u(st, 'depth'); st.assume(ln < (1 << 62))
    px, pp = arg_buf(e, st, 'x_s', 100), arg_buf(e, st, 'proof_blob', ln)
    Dd = z3.Int('derived_D'); ans = z3.Bool('verifier_accepts'); vthrows = z3.Bool('verifier_throws')
    okreq = z3.And(bits > 0, bits <= 1024, bits % 8 == 0, n > 0)
    def create(en, s, a, c):
        v = getvec(en, s, a[1], c); L = en.S(s, a[2])
        en.check(s, zand(zeq(v.len, n)), 'the discriminant is derived from the whole seed', c.ins)
        j = z3.Int('any_j')
        en.check(s, z3.Implies(z3.And(j >= 0, j < zi(v.len)), z3.Select(v.arr, j) == z3.Select(seed, j)), 'the discriminant is derived from this seed', c.ins)
        en.check(s, zeq(L, bits), 'the discriminant is derived for the requested size', c.ins)
        good = z3.And(zi(L) > 0, zi(L) <= 1024, zi(L) % 8 == 0, zi(v.len) > 0)
        s2 = s.copy(); s2.assume(z3.Not(good)); out = []
        if en.solver.feasible(s2, True): out.append(en.throw(s2, 'St16invalid_argument'))
        s.assume(good); s.assume(z3.And(Dd < 0, Dd % 8 == 1))
        from lib_gmp import bitlen
        s.assume(bitlen(en, s, Dd) == zi(L))
        s.g['created'] = 1
        en.mpz_new(s, a[0], Dd, c.ins)
        return out + [Out('ret', s, None)]
    use(e, r'^CreateDiscriminant\(', create)
    def check(en, s, a, c):
        D = en.mpz_get(s, a[0], c.ins)
        en.check(s, zeq(D, Dd), 'the proof is verified against the derived discriminant', c.ins)
        en.check(s, a[1].o is px.o and same(a[1].off, 0) and a[2].o is pp.o and same(a[2].off, 0), 'the starting form and proof are passed on unchanged', c.ins)
        en.check(s, zand(zeq(en.U(s, a[3]), ln), zeq(en.U(s, a[4]), it), zeq(en.U(s, a[6]), depth)), 'length, iterations and depth are passed on unchanged', c.ins)
        from lib_gmp import bitlen
        db = en.U(s, a[5])
        en.check(s, z3.And(zi(db) > 0, zi(db) <= 1024), 'the declared size is one the verifier accepts', c.ins)
        s.g['verified'] = 1
        s2 = s.copy(); s2.assume(vthrows); s.assume(z3.Not(vthrows))
        return [en.throw(s2, 'St13runtime_error'), Out('ret', s, boolv(ans))]
    use(e, r'^CheckProofOfTimeNWesolowski\(', check)
    outs = e.exec_fn(f, [ps, ival(32, bits), px, pp, ival(64, ln), ival(64, it), ival(64, depth)], st)
    valid = z3.And(okreq, z3.Not(vthrows), ans)
    for o in outs:
        if o.kind == 'throw':
            e.check(o.st, o.st.exc[0] in ('St13runtime_error', 'St16invalid_argument'), 'refusal by a documented exception')
            e.check(o.st, z3.Not(valid), 'a valid proof is not refused by exception'); continue
        t = zb(e.truth(o.st, o.val))
        e.check(o.st, z3.Implies(t, z3.And(okreq, ans)), 'accepted => the request is valid and the verifier accepts')
        e.check(o.st, z3.Implies(valid, t), 'a valid request that the verifier accepts is accepted')
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zb(e.truth(o.st, o.val))), ('refusal', lambda o: o.kind == 'throw' or zb(znot(e.truth(o.st, o.val))))], 'seedcheck')
    return e

def hexd(v): return z3.If(v < 10, v + 48, v + 87)
def t_bytestostr():
    """BytesToStr: two lowercase hexadecimal digits per byte, in order"""
    mod = lower('core.cpp'); f = find(mod, r'^BytesToStr'); e = engine(mod, True, 'BytesToStr'); st = State()
    n = u(st, 'n'); st.assume(n < 1 << 40); A = z3.Array('in', I_, I_); p = arg_vec(e, st, 'in', 1, n, A); r = sret(st, 'text', 32)
    i = z3.Int('i!any'); st.assume(z3.ForAll([i], z3.And(z3.Select(A, i) >= 0, z3.Select(A, i) < 256)))
    # an ostringstream: number base, width of the next field (one use), fill character, text so far
    st.g['base'] = z3.IntVal(10); st.g['width'] = z3.IntVal(0); st.g['fill'] = z3.IntVal(32); st.g['text'] = z3.K(I_, z3.IntVal(0)); st.g['len'] = z3.IntVal(0)
    def new(en, s, a, c): s.g['base'], s.g['width'], s.g['fill'], s.g['len'] = z3.IntVal(10), z3.IntVal(0), z3.IntVal(32), z3.IntVal(0); return [Out('ret', s, None)]
    OSS = r'^std::__cxx11::basic_ostringstream<char.*>::'
    use(e, OSS + r'basic_ostringstream\(\)$', new); use(e, OSS + r'~basic_ostringstream\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    def manip(en, s, a, c):
        nm = getattr(a[1], 'name', None); k = {'_ZSt3hexRSt8ios_base': 16, '_ZSt3decRSt8ios_base': 10, '_ZSt3octRSt8ios_base': 8}.get(nm)
        if k is None: raise Unsupported('manipulator %s' % nm)
        s.g['base'] = z3.IntVal(k); return [Out('ret', s, a[0])]
    use(e, r'^std::basic_ostream<char.*>::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$', manip)
    use(e, r'^std::setw\(int\)$', lambda en, s, a, c: [Out('ret', s, a[0])]); use(e, r'^std::_Setfill<char> std::setfill<char>\(char\)$', lambda en, s, a, c: [Out('ret', s, a[0])])
    def setter(key):
        def h(en, s, a, c): s.g[key] = zi(en.U(s, a[1])); return [Out('ret', s, a[0])]
        return h
    use(e, r'^std::basic_ostream<char.*>& std::operator<< ?<char.*>\(.*, std::_Setw\)$', setter('width')); use(e, r'^std::basic_ostream<char.*>& std::operator<< ?<char.*>\(.*, std::_Setfill<char>\)$', setter('fill'))
    def put(en, s, a, c):
        v = zi(en.U(s, a[1])); t, L = s.g['text'], s.g['len']
        en.check(s, z3.And(s.g['base'] == 16, v >= 0, v < 256, z3.Or(v >= 16, z3.And(s.g['width'] == 2, s.g['fill'] == 48)), s.g['width'] <= 2), 'a byte is written as exactly two digits', c.ins)
        s.g['text'] = z3.Store(z3.Store(t, L, hexd(v / 16)), L + 1, hexd(v % 16)); s.g['len'] = simp(L + 2); s.g['width'] = z3.IntVal(0); return [Out('ret', s, a[0])]
    use(e, r'^std::basic_ostream<char.*>::operator<<\(int\)$', put)
    def out(en, s, a, c): en.put(s, a[0], Str(1, simp(s.g['len']), s.g['text'])); return [Out('ret', s, None)]
    use(e, OSS + r'str\(\) const$', out)
    j = z3.Int('any_j'); st.assume(z3.And(j >= 0, j < n)); T, L = ('ghost', 'text'), ('ghost', 'len')
    def digits(t): return z3.And(z3.Select(t, 2 * j) == hexd(z3.Select(A, j) / 16), z3.Select(t, 2 * j + 1) == hexd(z3.Select(A, j) % 16))
    def H(ctx): return [('two digits per byte so far', lambda v, k: zi(v.cell(L)) == 2 * zi(k)), ('byte j is written as its digits', lambda v, k: z3.Implies(j < zi(k), digits(v.cell(T)))), ('the width is used up', lambda v, k: v.cell(('ghost', 'width')) == 0)]
    e.loop_hints[''] = H
    outs = e.exec_fn(f, [r, p], st); cover(e, outs, [('a text', lambda o: o.kind == 'ret')], 'bytestostr')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        v = e.getbig(s, r, Str); e.check(s, zeq(v.len, simp(2 * n)), 'two characters per byte'); e.check(s, digits(v.arr), 'characters 2j and 2j+1 are the digits of byte j, high one first')
    return e

# ---------------------------------------------------------------- integers, bytes and text
from lib_gmp import BEINT, BYTE, bitlen
from specs.bindings import samebytes
def cstart(name): mod = lower('conv.cpp'); return mod, engine(mod, True, name), State()
def t_fromvec(kind):
    """integer from bytes (big-endian) or from 64-bit words (least significant first): exactly that number, the source unchanged"""
    rx = {'vec': r'^integer::integer\(std::vector<unsigned char.*\)$', 'buf': r'^integer::integer\(unsigned char const\*, unsigned long\)$', 'words': r'^integer::integer\(std::vector<unsigned long.*\)$'}[kind]
    mod, e, st = cstart('integer::integer(%s)' % kind); f = find(mod, rx); n = u(st, 'n'); st.assume(z3.And(n >= 1, n < 1 << 28)); A = z3.Array('in', I_, I_)
    r = sret(st, 'result', 16); es = 8 if kind == 'words' else 1
    outs = e.exec_fn(f, [r, arg_buf(e, st, 'in', n), ival(64, n)] if kind == 'buf' else [r, arg_vec(e, st, 'in', es, n, A)], st)
    A = z3.Array('in_in', I_, I_) if kind == 'buf' else A
    cover(e, outs, [('a number', lambda o: o.kind == 'ret')], 'fromvec')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        want = z3.Function('leint8', ARR, I_, I_, I_)(A, 0, n * 8) if kind == 'words' else BEINT(A, 0, n)
        v = e.mpz_get(s, r); e.check(s, zeq(v, want), 'the number the bytes write')
    return e
def t_tobytesvec():
    """to_bytes: the big-endian bytes of the number, as many as it needs, one for zero"""
    mod, e, st = cstart('integer::to_bytes'); f = find(mod, r'^integer::to_bytes\(\) const$'); v = z3.Int('v'); st.assume(v >= 0); p = arg_mpz(e, st, 'v', v); r = sret(st, 'result', 24)
    bl = bitlen(e, st, v); st.assume(zi(bl) < 1 << 30)
    outs = e.exec_fn(f, [r, p], st); cover(e, outs, [('bytes', lambda o: o.kind == 'ret')], 'tobytes')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        w = e.getbig(s, r, Vec); n = z3.If(v == 0, 1, (zi(bl) + 7) / 8); j = fresh('any_j'); s.assume(z3.And(j >= 0, j < n))
        e.check(s, zeq(w.len, n), 'as many bytes as the number needs'); e.check(s, z3.Implies(v > 0, z3.Select(w.arr, j) == BYTE(v, n - 1 - j)), 'byte j is digit n-1-j'); e.check(s, z3.Implies(v == 0, z3.Select(w.arr, j) == 0), 'zero is one zero byte')
        e.check(s, zeq(e.mpz_get(s, p), v), 'the number is unchanged')
    return e
def t_tovector():
    """to_vector: the 64-bit words of the number, least significant first, none for zero"""
    mod, e, st = cstart('integer::to_vector'); f = find(mod, r'^integer::to_vector\(\) const$'); v = z3.Int('v'); st.assume(v >= 0); p = arg_mpz(e, st, 'v', v); r = sret(st, 'result', 24); bl = bitlen(e, st, v); st.assume(zi(bl) < 1 << 30)
    outs = e.exec_fn(f, [r, p], st); cover(e, outs, [('words', lambda o: o.kind == 'ret')], 'tovector'); lb = z3.Function('limb8', I_, I_, I_)
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        w = e.getbig(s, r, Vec); n = (zi(bl) + 63) / 64; j = fresh('any_j'); s.assume(z3.And(j >= 0, j < n))
        e.check(s, zeq(w.len, n), 'as many words as the number needs'); e.check(s, z3.Select(w.arr, j) == lb(v, j), 'word j of the number'); e.check(s, zeq(e.mpz_get(s, p), v), 'the number is unchanged')
    return e
def t_append(kind):
    """VectorAppend, VectorAppendArray: the destination keeps its elements, followed by the source in order"""
    rx = {'vec': r'^void VectorAppend<unsigned char>\(', 'array': r'^void VectorAppendArray<unsigned char>\('}[kind]
    mod, e, st = cstart('VectorAppend(%s)' % kind); f = find(mod, rx); n, m = u(st, 'n'), u(st, 'm'); st.assume(z3.And(n < 1 << 40, m < 1 << 40)); A, B = z3.Array('dst', I_, I_), z3.Array('src', I_, I_)
    d = arg_vec(e, st, 'dst', 1, n, A); q = arg_vec(e, st, 'src', 1, m, B) if kind == 'vec' else arg_buf(e, st, 'src', m); B = B if kind == 'vec' else z3.Array('src_in', I_, I_)
    outs = e.exec_fn(f, [d, q] if kind == 'vec' else [d, q, ival(64, m)], st); cover(e, outs, [('appended', lambda o: o.kind == 'ret')], 'append')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        v = e.getbig(s, d, Vec); e.check(s, zeq(v.len, simp(n + m)), 'the sum of both lengths'); samebytes(e, s, v.arr, 0, A, 0, n, 'the destination comes first, unchanged'); samebytes(e, s, v.arr, n, B, 0, m, 'then the source, in order')
    return e
HEXN, HEXC = z3.Function('hex_digits', I_, I_), z3.Function('hex_digit', I_, I_, I_)       # of |v|
def t_totext():
    """to_string: sign, 0x, the hexadecimal digits; nothing else"""
    mod, e, st = cstart('integer::to_string'); f = find(mod, r'^integer::to_string(\[abi:cxx11\])?\(\) const$'); v = z3.Int('v'); p = arg_mpz(e, st, 'v', v); r = sret(st, 'result', 32); av = z3.If(v < 0, -v, v)
    nd = HEXN(av); st.assume(z3.And(nd >= 1, nd < 1 << 30)); neg = z3.If(v < 0, 1, 0); q = z3.Int('q!any'); st.assume(z3.ForAll([q], z3.And(HEXC(av, q) >= 48, HEXC(av, q) <= 102)))
    use(e, r'^__gmpz_sizeinbase$', lambda en, s, a, c: (en.check(s, zeq(en.S(s, a[1]), 16), 'digits in base 16', c.ins), [Out('ret', s, IVal(64, nd))])[1])
    def get_str(en, s, a, c):
        en.check(s, zeq(en.S(s, a[1]), 16), 'digits in base 16', c.ins); en.check(s, zeq(en.mpz_get(s, a[2], c.ins), v), 'of this number', c.ins); n = simp(nd + neg + 1)
        if not en.bounds(s, a[0], n, c.ins, 'write'): return [Out('ret', s, a[0])]
        if en.arr_state(s, a[0]) is None: en.to_array(s, a[0].o, 1, c.ins)
        x = en.arr_state(s, a[0]); j = z3.Int('j!str'); o = zi(en.elemidx(s, a[0], 1)[0])
        en.setarr(s, a[0], x, z3.Lambda([j], z3.If(z3.And(j >= o, j < o + n), z3.If(j == o + n - 1, 0, z3.If(z3.And(j == o, v < 0), 45, HEXC(av, j - o - neg))), z3.Select(x[1].arr, j)))); return [Out('ret', s, a[0])]
    use(e, r'^__gmpz_get_str$', get_str)
    def text(en, s, a, c):      # a string from characters: up to the terminating zero
        from lib_std import cstr, strlit
        lit = cstr(en, s, a[1])
        if lit is not None: en.put(s, a[0], strlit(lit)); return [Out('ret', s, None)]
        x = en.arr_state(s, a[1]); o = zi(en.elemidx(s, a[1], 1)[0]); m = simp(2 + nd + neg); j = fresh('any_j')
        en.bounds(s, a[1], simp(m + 1), c.ins, 'read'); en.check(s, z3.And(z3.Select(x[1].arr, o + m) == 0, z3.Implies(z3.And(j >= 0, j < m), z3.Select(x[1].arr, o + j) != 0)), 'the text ends after the digits', c.ins)
        en.put(s, a[0], Str(1, m, z3.Lambda([j], z3.Select(x[1].arr, o + j)))); return [Out('ret', s, None)]
    use(e, r'^std::__cxx11::basic_string<char.*>::basic_string<std::allocator<char> ?>\(char const\*, ', text)
    def substr(en, s, a, c):
        w = getvec(en, s, a[1], c, Str); k, n = en.U(s, a[2]), en.U(s, a[3])
        if not (isc(k) and k == 0 and isc(n)): raise Unsupported('substr')
        en.check(s, cmpx('<=', n, w.len), 'enough characters', c.ins); en.put(s, a[0], Str(1, n, w.arr)); return [Out('ret', s, None)]
    use(e, r'^std::__cxx11::basic_string<char.*>::substr\(', substr)
    def eq(en, s, a, c):
        w = getvec(en, s, a[0], c, Str); from_ = __import__('lib_std').cstr(en, s, a[1])
        if from_ is None or not isc(w.len): raise Unsupported('comparison of texts')
        return [Out('ret', s, boolv(z3.And(*[z3.Select(w.arr, i) == ch for i, ch in enumerate(from_)]) if w.len == len(from_) else False))]
    use(e, r'^bool std::operator==<char', eq)
    def at(en, s, a, c):
        w = getvec(en, s, a[0], c, Str); i = en.U(s, a[1]); s2 = s.copy(); bad = cmpx('>=', i, w.len); out = []
        if en.solver.feasible(s2, bad): s2.assume(bad); out.append(en.throw(s2, 'St12out_of_range'))
        return out + [Out('ret', s, PVal(en.vecdata(s, a[0].o, a[0].off, w), i))]
    use(e, r'^std::__cxx11::basic_string<char.*>::at\(unsigned long\)$', at)
    outs = e.exec_fn(f, [r, p], st); cover(e, outs, [('negative', lambda o: o.kind == 'ret' and v < 0), ('not negative', lambda o: o.kind == 'ret' and v >= 0)], 'totext')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        w = e.getbig(s, r, Str); a = lambda i: z3.Select(w.arr, i); j = fresh('any_j')
        e.check(s, zeq(w.len, simp(2 + nd + neg)), 'sign, 0x and digits'); e.check(s, z3.Implies(v < 0, a(0) == 45), 'minus for a negative number'); e.check(s, z3.And(a(neg) == 48, a(neg + 1) == 120), 'then 0x')
        e.check(s, z3.Implies(z3.And(j >= 0, j < nd), a(2 + neg + j) == HEXC(av, j)), 'then the digits'); e.check(s, zeq(e.mpz_get(s, p), v), 'the number is unchanged')
    return e
def t_fromtext():
    """integer from a text: the whole text is read, in the base its prefix says"""
    mod, e, st = cstart('integer::integer(string)'); f = find(mod, r'^integer::integer\(std::__cxx11::basic_string<char.*const&\)$'); n = u(st, 'n'); st.assume(n < 1 << 40); A = z3.Array('text', I_, I_)
    o = Obj('text', 32, 'arg'); st.mem[o] = OS(); e.put(st, PVal(o, 0), Str(1, n, A)); r = sret(st, 'result', 16)
    def set_str(en, s, a, c):
        x = en.arr_state(s, a[1]); en.check(s, x is not None and zeq(en.elemidx(s, a[1], 1)[0], 0), 'the text is read from its start', c.ins); samebytes(en, s, x[1].arr, 0, A, 0, n, 'the text is read unchanged', c.ins)
        en.check(s, zeq(en.S(s, a[2]), 0), 'in the base of its prefix', c.ins); en.mpz_set(s, a[0], z3.Int('number'), c.ins); return [Out('ret', s, IVal(32, 0))]
    use(e, r'^__gmpz_set_str$', set_str)
    for t in e.exec_fn(f, [r, PVal(o, 0)], st):
        e.check(t.st, t.kind == 'ret', 'does not throw')
        if t.kind == 'ret': e.check(t.st, zeq(e.mpz_get(t.st, r), z3.Int('number')), 'the number the text writes')
    return e

"""Language bindings: the C functions, the Python module's lambdas and the Rust functions over them."""
import z3, re
from vf import *
import ir
from lib_gmp import BEINT, bitlen, BYTE
from lib_std import getvec, Str
from forms import FormV, putf, getf, needf
from specs import group

DISC = z3.Function('derived_discriminant', ARR, I_, I_, I_)        # (seed bytes, length, bits)
def samebytes(e, s, arr1, o1, arr2, o2, n, what, ins=None):
    j = fresh('any_j')
    e.check(s, z3.Implies(z3.And(j >= 0, j < zi(n)), z3.Select(arr1, j + zi(o1)) == z3.Select(arr2, j + zi(o2))), what, ins)

def c_create(seed, n, bits_ok=None):
    """CreateDiscriminant(vector&, int): minus a number of exactly `length` bits, 1 modulo 8; invalid_argument for a size or seed it does not allow (P08)"""
    def h(en, s, a, c):
        v = getvec(en, s, a[1], c); L = en.S(s, a[2])
        en.check(s, zeq(v.len, n), 'the discriminant is derived from the whole seed', c.ins)
        samebytes(en, s, v.arr, 0, seed, 0, v.len, 'the discriminant is derived from this seed', c.ins)
        good = z3.And(zi(L) > 0, zi(L) <= 1024, zi(L) % 8 == 0, zi(v.len) > 0)
        s.g['bits'] = L
        out = []; s2 = s.copy(); s2.assume(z3.Not(good))
        if en.solver.feasible(s2, True): out.append(en.throw(s2, 'St16invalid_argument'))
        s.assume(good); Dd = DISC(seed, zi(n), zi(L))
        s.assume(z3.And(Dd < 0, Dd % 8 == 1, bitlen(en, s, Dd) == zi(L), bitlen(en, s, -Dd) == zi(L))); s.g['D'] = Dd
        en.mpz_new(s, a[0], Dd, c.ins)
        return out + [Out('ret', s, None)]
    return h

def t_c_create():
    mod = lower('capi.cpp'); f = find(mod, r'^create_discriminant_wrapper$')
    e = engine(mod, True, 'create_discriminant_wrapper'); st = State()
    n, bits = u(st, 'seed_size'), u(st, 'size_bits'); st.assume(n < 1 << 40)
    ps = arg_buf(e, st, 'seed', n); seed = z3.Array('seed_in', I_, I_)
    pr = arg_buf(e, st, 'result', z3.If(bits <= 1 << 32, bits / 8, 1 << 29))            # the caller provides size_bits/8 bytes
    use(e, r'^CreateDiscriminant\(', c_create(seed, n))
    outs = e.exec_fn(f, [ps, ival(64, n), ival(64, bits), pr], st)
    ok = z3.And(bits > 0, bits <= 1024, bits % 8 == 0, n > 0)
    cover(e, outs, [('success', lambda o: o.kind == 'ret' and zb(e.truth(o.st, o.val))), ('failure', lambda o: o.kind == 'ret' and zb(znot(e.truth(o.st, o.val))))], 'c_create')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'no exception crosses the C interface')
        if o.kind != 'ret': continue
        t = zb(e.truth(s, o.val)); e.check(s, t == ok, 'it succeeds exactly for a nonempty seed and an admitted size')
        w = e.arr_state(s, pr)[1].arr; j = fresh('any_i'); z0 = z3.Array('result_in', I_, I_)
        e.check(s, z3.Implies(z3.Not(t), z3.Select(w, j) == z3.Select(z0, j)), 'a refusal leaves the result alone')
        if e.solver.feasible(s, t):
            D = DISC(seed, n, bits); s.assume(t)
            s.assume(z3.And(j >= 0, j < bits / 8))
            e.check(s, z3.Select(w, j) == BYTE(simp(-D), bits / 8 - 1 - j), 'byte j of the result is digit size/8-1-j of minus the discriminant')
    return e

# ---- prove_wrapper, verify_n_wesolowski_wrapper, delete_byte_array
PROOFB = z3.Function('slow_proof_bytes', I_, I_, I_, ARR)          # (D, form, iterations)
def c_prove(T, path):
    """ProveSlow (P15): 200 bytes, empty only when the shutdown path is used; or a standard exception"""
    def h(en, s, a, c):
        D = en.mpz_get(s, a[1], c.ins); x = needf(en, s, a[2], c.ins, D)
        en.check(s, zeq(D, s.g['D']), 'the proof is for the derived discriminant', c.ins)
        en.check(s, zeq(x.cls, DESF(D, s)), 'the proof starts from the given form', c.ins)
        en.check(s, zeq(en.U(s, a[3]), T), 'the proof is for the requested iterations', c.ins)
        p = getvec(en, s, a[4], c, Str)
        if path is None: en.check(s, zeq(p.len, 0), 'no shutdown path', c.ins)
        else:
            en.check(s, zeq(p.len, path.len), 'the shutdown path is passed on', c.ins); samebytes(en, s, p.arr, 0, path.arr, 0, p.len, 'the shutdown path is passed on unchanged', c.ins)
        s2 = s.copy(); out = [en.throw(s2, 'St13runtime_error')]
        n = fresh('proof_len'); s.assume(n == 200 if path is None else z3.Or(n == 200, n == 0)); s.g['plen'] = n
        en.put(s, a[0], Vec(1, n, PROOFB(zi(D), zi(x.cls), zi(T)))); return out + [Out('ret', s, None)]
    return h
def DESF(D, s): return s.g['x']
def note_des(e):
    """DeserializeForm contract that also records the form and its bytes"""
    def h(en, s, a, c):
        src, n = a[2], en.U(s, a[3])
        outs = group.c_deserialize(en, s, a, c)
        for o in outs:
            if o.kind == 'ret': o.st.g['x'] = getf(en, o.st, a[0], c.ins).cls; o.st.g['xsrc'] = src
        return outs
    use(e, r'^DeserializeForm\(', h)

def t_c_prove():
    mod = lower('capi.cpp'); f = find(mod, r'^prove_wrapper$')
    e = engine(mod, True, 'prove_wrapper'); st = State()
    n, xn, bits, T = u(st, 'challenge_size'), u(st, 'x_s_size'), u(st, 'size_bits'), u(st, 'iterations'); st.assume(z3.And(n < 1 << 40, xn < 1 << 40))
    ps, px = arg_buf(e, st, 'challenge', n), arg_buf(e, st, 'x_s', xn); seed = z3.Array('challenge_in', I_, I_)
    use(e, r'^CreateDiscriminant\(', c_create(seed, n)); note_des(e); use(e, r'^ProveSlow\(', c_prove(T, None))
    outs = e.exec_fn(f, [ps, ival(64, n), px, ival(64, xn), ival(64, bits), ival(64, T)], st)
    isnull = lambda o: o.kind == 'ret' and o.val.v[0].o is None
    cover(e, outs, [('success', lambda o: o.kind == 'ret' and not isnull(o)), ('failure', isnull)], 'c_prove')
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'no exception crosses the C interface')
        if o.kind != 'ret': continue
        p, L = o.val.v
        if p.o is None: e.check(s, zeq(e.U(s, L), 0), 'a failure gives a null pointer and length 0'); continue
        e.check(s, z3.And(bits > 0, bits <= 1024, bits % 8 == 0, n > 0, xn == 100), 'a proof is returned only for admitted arguments')
        e.check(s, s.g.get('plen') is not None and zeq(e.U(s, L), s.g['plen']), 'the length is that of the proof')
        e.check(s, p.o.kind == 'heap' and same(p.off, 0), 'the bytes are a heap allocation the caller can release')
        if s.g.get('plen') is None: continue
        e.bounds(s, p, e.U(s, L), None, 'read'); a = e.arr_state(s, p)[1].arr
        samebytes(e, s, a, 0, PROOFB(s.g['D'], s.g['x'], T), 0, s.g['plen'], 'the bytes are the proof')
    return e

def t_c_verify():
    mod = lower('capi.cpp'); f = find(mod, r'^verify_n_wesolowski_wrapper$')
    e = engine(mod, True, 'verify_n_wesolowski_wrapper'); st = State()
    dn, ln, it, depth = u(st, 'disc_size'), u(st, 'proof_len'), u(st, 'iterations'), u(st, 'recursion'); st.assume(z3.And(dn < 1 << 40, ln < 1 << 40))
    pd, px, pp = arg_buf(e, st, 'disc', dn), arg_buf(e, st, 'x_s', 100), arg_buf(e, st, 'proof', ln)
    ans, thr = z3.Bool('verifier_accepts'), z3.Bool('verifier_throws')
    def check(en, s, a, c):
        want = BEINT(z3.Array('disc_in', I_, I_), zi(0), zi(dn))
        en.check(s, zeq(en.mpz_get(s, a[0], c.ins), simp(-want)), 'the discriminant is minus the big-endian number', c.ins)
        en.check(s, a[1].o is px.o and same(a[1].off, 0) and a[2].o is pp.o and same(a[2].off, 0), 'the starting form and proof are passed on unchanged', c.ins)
        en.check(s, zand(zeq(en.U(s, a[3]), ln), zeq(en.U(s, a[4]), it), zeq(en.U(s, a[6]), depth)), 'length, iterations and depth are passed on unchanged', c.ins)
        en.check(s, zeq(en.U(s, a[5]), simp(8 * dn)), 'the declared size is that of the discriminant bytes', c.ins)
        s.g['called'] = 1; s2 = s.copy(); s2.assume(thr); s.assume(z3.Not(thr))
        return [en.throw(s2, 'St13runtime_error'), Out('ret', s, boolv(ans))]
    use(e, r'^CheckProofOfTimeNWesolowski\(', check)
    outs = e.exec_fn(f, [pd, ival(64, dn), px, pp, ival(64, ln), ival(64, it), ival(64, depth)], st)
    for o in outs:
        e.check(o.st, o.kind == 'ret', 'no exception crosses the C interface')
        if o.kind != 'ret': continue
        e.check(o.st, zb(e.truth(o.st, o.val)) == z3.And(z3.Not(thr), ans), 'the answer is exactly that of the verifier, an exception being a refusal')
        e.check(o.st, o.st.g.get('called') == 1, 'the verifier decides')
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zb(e.truth(o.st, o.val))), ('refusal', lambda o: o.kind == 'ret' and zb(znot(e.truth(o.st, o.val))))], 'c_verify')
    return e

def t_c_delete():
    mod = lower('capi.cpp'); f = find(mod, r'^delete_byte_array$')
    for null in (False, True):
        e = engine(mod, True, 'delete_byte_array'); st = State()
        o = Obj('heap', 200, 'heap'); st.mem[o] = OS(); p = NULL if null else PVal(o, 0)
        for x in e.exec_fn(f, [p, ival(64, u(st, 'length'))], st):
            e.check(x.st, x.kind == 'ret', 'does not throw')
            if not null: e.check(x.st, not x.st.mem[o].live, 'the array is released')
    return e

# ---- the Python module: each lambda handed to m.def under contract, found through the name it is registered with
PYX = ['-I/usr/include/python3.12', '-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include']
PARSE = z3.Function('parsed_integer', ARR, I_, I_)                 # mpz_set_str: (text, length)
DEC = z3.Function('decimal_text', I_, ARR); DECL = z3.Function('decimal_text_length', I_, I_)
def pylower():
    import glob, os
    inc = [p for p in glob.glob('/opt/vp/venv/lib/python3*/site-packages/pybind11/include')] or PYX[1:]
    pyi = [p for p in sorted(glob.glob('/usr/include/python3*')) if os.path.exists(p + '/Python.h')]
    return lower('py.cpp', extra=['-I' + p for p in pyi + [x if not x.startswith('-I') else x[2:] for x in inc]])
def pyfn(mod, name):
    """the lambda that m.def registers under this name"""
    i = [k for k in mod.fns if re.search(r'pybind11_init__chiavdf', k) and k.startswith('_ZL')]
    if len(i) != 1: raise Unsupported('module initialiser')
    for m in re.finditer(r'@"?(_ZN8pybind117module_3def[^"(\s]*)"?\(([^\n]*)', '\n'.join(mod.fns[i[0]].body_lines)):
        q = re.search(r'ptr noundef @([\w.]+)', m.group(2))
        if not q: continue
        t = mod.gtext.get(q.group(1), '')
        if re.search(r'c"%s\\00"' % re.escape(name), t):
            lam = re.search(r'E(\d+\$_\d+)', m.group(1)).group(1)
            c = [k for k in mod.fns if k.startswith('_ZZL22pybind11_init__chiavdf') and re.match(r'_ZZL22pybind11_init__chiavdfRN8pybind117module_EENK' + re.escape(lam) + r'cl', k)]
            if len(c) == 1: return mod.fns[c[0]]
    raise Unsupported('python function %s is not registered with a lambda' % name)

def arg_str(e, st, name):
    n = u(st, name + '_len'); st.assume(n < 1 << 40); arr = z3.Array(name + '_in', I_, I_)
    o = Obj(name, 32, 'arg'); st.mem[o] = OS(); v = Str(1, n, arr); e.put(st, PVal(o, 0), v, 32); return PVal(o, 0), v
class PyB:
    """py::bytes argument: an object whose content is (arr, len)"""
def arg_bytes(e, st, name):
    n = u(st, name + '_len'); st.assume(n < 1 << 31); arr = z3.Array(name + '_in', I_, I_)
    o = Obj(name, 8, 'pyobj'); st.mem[o] = OS(); return PVal(o, 0), Str(1, n, arr)

def pyengine(name, what):
    mod = pylower(); f = pyfn(mod, name)
    e = engine(mod, True, 'python ' + name, budget=200); group.install(e); e.pyb = {}
    st = State(); st.g['gil'] = 1
    def held(en, s, c): en.check(s, s.g.get('gil') == 1, 'Python objects are used only while the interpreter lock is held', c.ins)
    def rel(en, s, a, c): held(en, s, c); s.g['gil'] = 0; return [Out('ret', s, None)]
    def acq(en, s, a, c): s.g['gil'] = 1; return [Out('ret', s, None)]
    use(e, r'^pybind11::gil_scoped_release::gil_scoped_release\(', rel); use(e, r'^pybind11::gil_scoped_release::~gil_scoped_release\(', acq)
    def text(en, s, a, c):
        held(en, s, c); v = en.pyb.get(a[1].o)
        if v is None: raise Unsupported('bytes of an unknown object')
        en.put(s, a[0], Str(1, v.len, v.arr)); return [Out('ret', s, None)]
    use(e, r'^std::__cxx11::basic_string<char.*>::basic_string<pybind11::bytes, void>', text)
    def mk(en, s, a, c):
        held(en, s, c); n = en.U(s, en.load(s, a[2], ir.INT(64), c.ins)) if isinstance(a[2], PVal) else en.U(s, a[2])
        if isc(n) and n == 0: v = Str(1, 0, z3.K(I_, z3.IntVal(0)))
        else:
            en.bounds(s, a[1], n, c.ins, 'read')
            aa = en.arr_state(s, a[1]); i = en.elemidx(s, a[1], 1)[0] if aa else 0
            if not aa: en.to_array(s, a[1].o, 1, c.ins); aa = en.arr_state(s, a[1]); i = en.elemidx(s, a[1], 1)[0]
            v = Str(1, n, en.splice(s, z3.K(I_, z3.IntVal(0)), 0, aa[1].arr, i, n))
        s.g.setdefault('made', {}); s.g['made'] = dict(s.g['made'], **{str(id(a[0].o)): v}); s.g['lastbytes'] = v
        return [Out('ret', s, None)]
    use(e, r'^pybind11::bytes::bytes<.*>\(char const\*, |^_ZN8pybind115bytesC[12]I.*PKcRK', mk)
    def mks(en, s, a, c):
        held(en, s, c); v = getvec(en, s, a[1], c, Str)
        s.g['made'] = dict(s.g.get('made', {}), **{str(id(a[0].o)): Str(1, v.len, v.arr)}); s.g['lastbytes'] = v
        return [Out('ret', s, None)]
    use(e, r'^pybind11::bytes::bytes\(std::__cxx11::basic_string', mks)
    use(e, r'^pybind11::(bytes|object|tuple|str|typing::Tuple<.*>)::~', lambda en, s, a, c: (held(en, s, c), [Out('ret', s, None)])[1])
    def mktuple(en, s, a, c):
        held(en, s, c)
        b = en.truth(s, en.load(s, a[1], ir.INT(8), c.ins)) if 'bool' in c.dem else None
        s.g['tuple'] = (b, [s.g.get('made', {}).get(str(id(p.o))) for p in a[1:]]); return [Out('ret', s, None)]
    use(e, r'^.*pybind11::make_tuple<', mktuple)
    use(e, r'^pybind11::tuple::tuple\(', lambda en, s, a, c: [Out('ret', s, None)])
    def setstr(en, s, a, c):
        p = a[1]; base = en.getbig(s, PVal(p.o, 0), Str) if False else None
        v = en.strof(s, p)
        if v is None: raise Unsupported('text of mpz_set_str')
        en.mpz_set(s, a[0], PARSE(v.arr, zi(v.len)), c.ins); return [Out('ret', s, IVal(32, fresh('ok')))]
    def parse(en, s, a, c):
        v = getvec(en, s, a[1], c, Str); en.mpz_new(s, a[0], PARSE(v.arr, zi(v.len)), c.ins); return [Out('ret', s, None)]
    use(e, r'^integer::integer\(std::__cxx11::basic_string', parse)
    def dec(en, s, a, c):
        v = en.mpz_get(s, a[1], c.ins); L = DECL(zi(v)); s.assume(z3.And(L >= 1, L < 1 << 40)); en.put(s, a[0], Str(1, L, DEC(zi(v)))); return [Out('ret', s, None)]
    use(e, r'^integer::to_string\[abi:cxx11\]\(\) const$|^integer::to_string\(\) const$', dec)
    lam = Obj('lambda', 1, 'arg'); st.mem[lam] = OS()
    return e, f, st, PVal(lam, 0)

STDEXC = ('St13runtime_error', 'St16invalid_argument', 'St12length_error', 'St14overflow_error')
def done(e, outs):
    for o in outs:
        e.check(o.st, o.st.g['gil'] == 1, 'the interpreter lock is held again when control returns to Python')
        if o.kind == 'throw': e.check(o.st, o.st.exc[0] in STDEXC, 'refusal is a standard exception that Python sees')

def verifier_call(e, st, D, xs, pf, it, dsb, depth, kind, B=None):
    """contract of a verifier entry point at its call from Python: everything is passed on unchanged"""
    ans, thr = z3.Bool('verifier_accepts'), z3.Bool('verifier_throws')
    def h(en, s, a, c):
        a = list(a); sr = a.pop(0) if kind in ('withb', 'getb') else None
        en.check(s, zeq(en.mpz_get(s, a[0], c.ins), D), 'the discriminant is the one given', c.ins); a.pop(0)
        if kind == 'withb': en.check(s, zeq(en.mpz_get(s, a[0], c.ins), B), 'the challenge is the one given', c.ins); a.pop(0)
        en.check(s, zeq(xs.len, 100), 'the starting form has 100 bytes', c.ins); en.bounds(s, a[0], 100, c.ins, 'read')
        same_content(en, s, a[0], xs, 100, 'the starting form is passed on unchanged', c)
        en.check(s, zeq(en.U(s, a[2]), pf.len), 'the proof length is passed on', c.ins); same_content(en, s, a[1], pf, pf.len, 'the proof is passed on unchanged', c)
        rest = [en.U(s, x) for x in a[3:]]
        want = [it, dsb, depth] if dsb is not None else [it, depth]
        en.check(s, zand(*[zeq(x, y) for x, y in zip(rest, want)]), 'iterations, size and depth are passed on', c.ins)
        en.check(s, s.g['gil'] == 0, 'the interpreter lock is released during the computation', c.ins)
        s.g['called'] = 1; s2 = s.copy(); s2.assume(thr); s.assume(z3.Not(thr)); out = [en.throw(s2, 'St13runtime_error')]
        if kind == 'check': return out + [Out('ret', s, boolv(ans))]
        if kind == 'getb': en.mpz_new(s, sr, z3.Int('the_challenge'), c.ins); return out + [Out('ret', s, None)]
        n = fresh('ylen'); s.assume(n == z3.If(ans, 100, 0)); s.g['ylen'] = n
        en.put(s, PVal(sr.o, add(sr.off, 0)), boolv(ans) if False else IVal(8, z3.If(ans, 1, 0), 0, 1), 1); en.put(s, PVal(sr.o, add(sr.off, 8)), Vec(1, n, z3.Array('y_bytes', I_, I_)))
        return out + [Out('ret', s, None)]
    return h, ans, thr
def same_content(e, s, p, v, n, what, c):
    e.bounds(s, p, n, c.ins, 'read')
    a = e.arr_state(s, p)
    if a is None:
        if isc(n) and n == 0: return
        raise Unsupported('content of ' + repr(p))
    i = e.elemidx(s, p, 1)[0]; samebytes(e, s, a[1].arr, i, v.arr, 0, n, what, c.ins)

def t_py_verify_n(withb=0):
    """verify_n_wesolowski (0), verify_n_wesolowski_with_b (1), get_b_from_n_wesolowski (2)"""
    kind = ['check', 'withb', 'getb'][withb]; name = ['verify_n_wesolowski', 'verify_n_wesolowski_with_b', 'get_b_from_n_wesolowski'][withb]
    e, f, st, lam = pyengine(name, kind)
    pd, d = arg_str(e, st, 'discriminant'); pb, b = arg_str(e, st, 'B'); px, x = arg_str(e, st, 'x_s'); pp, pf = arg_str(e, st, 'proof')
    it, dsb, depth = u(st, 'iterations'), u(st, 'disc_size_bits'), u(st, 'recursion')
    h, ans, thr = verifier_call(e, st, PARSE(d.arr, zi(d.len)), x, pf, it, dsb if kind == 'check' else None, depth, kind, PARSE(b.arr, zi(b.len)))
    use(e, {'check': r'^CheckProofOfTimeNWesolowski\(', 'withb': r'^CheckProofOfTimeNWesolowskiWithB\(', 'getb': r'^GetBFromProof\('}[kind], h)
    r = [] if kind == 'check' else [sret(st, 'ret', {'withb': 8, 'getb': 32}[kind])]
    ints = [ival(64, it)] + ([ival(64, dsb)] if kind == 'check' else []) + [ival(64, depth)]
    outs = e.exec_fn(f, r + [lam, pd] + ([pb] if kind == 'withb' else []) + [px, pp] + ints, st)
    done(e, outs)
    cover(e, outs, [('answer', lambda o: o.kind == 'ret'), ('refusal', lambda o: o.kind == 'throw')], name)
    for o in outs:
        s = o.st
        if o.kind == 'throw': e.check(s, z3.Or(x.len != 100, thr), 'an exception only for a starting form of the wrong length or one the verifier raises'); continue
        e.check(s, s.g.get('called') == 1, 'the verifier decides')
        if kind == 'check': e.check(s, zb(e.truth(s, o.val)) == ans, 'the answer is that of the verifier')
        if kind == 'getb':
            v = e.getbig(s, r[0], Str); e.check(s, zeq(v.len, DECL(z3.Int('the_challenge'))), 'the text is that of the challenge'); samebytes(e, s, v.arr, 0, DEC(z3.Int('the_challenge')), 0, v.len, 'the text is that of the challenge')
        if kind == 'withb':
            t = s.g.get('tuple'); e.check(s, t is not None and t[1][1] is not None, 'a pair of the answer and bytes is returned')
            if t is None or t[1][1] is None: continue
            e.check(s, zb(t[0]) == ans, 'the answer is that of the verifier'); e.check(s, zeq(t[1][1].len, s.g['ylen']), 'the output bytes are those of the verifier')
            samebytes(e, s, t[1][1].arr, 0, z3.Array('y_bytes', I_, I_), 0, s.g['ylen'], 'the output bytes are those of the verifier')
    return e

def t_py_create():
    e, f, st, lam = pyengine('create_discriminant', 'create')
    pc, ch = arg_bytes(e, st, 'challenge_hash'); e.pyb[pc.o] = ch; bits = u(st, 'size_bits', 32); sb = z3.If(bits >= 1 << 31, bits - (1 << 32), bits)
    use(e, r'^CreateDiscriminant\(', c_create(ch.arr, ch.len)); r = sret(st, 'ret', 32)
    outs = e.exec_fn(f, [r, lam, pc, ival(32, bits)], st); done(e, outs)
    ok = z3.And(sb > 0, sb <= 1024, sb % 8 == 0, ch.len > 0)
    for o in outs:
        s = o.st
        if o.kind == 'throw': e.check(s, z3.Not(ok), 'admitted arguments are not refused'); continue
        e.check(s, ok, 'a discriminant only for admitted arguments')
        v = e.getbig(s, r, Str); D = DISC(ch.arr, zi(ch.len), zi(sb)); e.check(s, zeq(v.len, DECL(D)), 'the text is that of the derived discriminant'); samebytes(e, s, v.arr, 0, DEC(D), 0, v.len, 'the text is that of the derived discriminant')
    cover(e, outs, [('success', lambda o: o.kind == 'ret'), ('refusal', lambda o: o.kind == 'throw')], 'create')
    return e

def t_py_seedverify():
    e, f, st, lam = pyengine('create_discriminant_and_verify_n_wesolowski', 'seed')
    pc, ch = arg_bytes(e, st, 'challenge_hash'); e.pyb[pc.o] = ch; px, x = arg_str(e, st, 'x_s'); pp, pf = arg_str(e, st, 'proof')
    bits, it, depth = u(st, 'size_bits', 32), u(st, 'iterations'), u(st, 'recursion')
    ans, thr = z3.Bool('verifier_accepts'), z3.Bool('verifier_throws')
    def h(en, s, a, c):
        v = getvec(en, s, a[0], c); en.check(s, zeq(v.len, ch.len), 'the whole seed is used', c.ins); samebytes(en, s, v.arr, 0, ch.arr, 0, v.len, 'the seed is passed on unchanged', c.ins)
        en.check(s, zeq(en.U(s, a[1]), bits), 'the size is passed on', c.ins)
        en.check(s, zeq(x.len, 100), 'the starting form has 100 bytes', c.ins); same_content(en, s, a[2], x, 100, 'the starting form is passed on unchanged', c)
        same_content(en, s, a[3], pf, pf.len, 'the proof is passed on unchanged', c)
        en.check(s, zand(zeq(en.U(s, a[4]), pf.len), zeq(en.U(s, a[5]), it), zeq(en.U(s, a[6]), depth)), 'length, iterations and depth are passed on', c.ins)
        s.g['called'] = 1; s2 = s.copy(); s2.assume(thr); s.assume(z3.Not(thr)); return [en.throw(s2, 'St13runtime_error'), Out('ret', s, boolv(ans))]
    use(e, r'^CreateDiscriminantAndCheckProofOfTimeNWesolowski\(', h)
    outs = e.exec_fn(f, [lam, pc, ival(32, bits), px, pp, ival(64, it), ival(64, depth)], st); done(e, outs)
    for o in outs:
        if o.kind == 'throw': e.check(o.st, z3.Or(x.len != 100, thr), 'an exception only for a starting form of the wrong length or one the verifier raises'); continue
        e.check(o.st, o.st.g.get('called') == 1, 'the verifier decides'); e.check(o.st, zb(e.truth(o.st, o.val)) == ans, 'the answer is that of the verifier')
    cover(e, outs, [('answer', lambda o: o.kind == 'ret'), ('refusal', lambda o: o.kind == 'throw')], 'seedverify')
    return e

def t_py_prove():
    e, f, st, lam = pyengine('prove', 'prove')
    pc, ch = arg_bytes(e, st, 'challenge_hash'); e.pyb[pc.o] = ch; px, x = arg_str(e, st, 'x_s'); ps, path = arg_str(e, st, 'shutdown_path')
    bits, T = u(st, 'size_bits', 32), u(st, 'iterations'); sb = z3.If(bits >= 1 << 31, bits - (1 << 32), bits)
    use(e, r'^CreateDiscriminant\(', c_create(ch.arr, ch.len)); note_des(e); use(e, r'^ProveSlow\(', c_prove(T, path))
    r = sret(st, 'ret', 8)
    outs = e.exec_fn(f, [r, lam, pc, px, ival(32, bits), ival(64, T), ps], st); done(e, outs)
    for o in outs:
        s = o.st
        if o.kind == 'throw': continue
        e.check(s, z3.And(sb > 0, sb <= 1024, sb % 8 == 0, ch.len > 0, x.len == 100), 'a proof only for admitted arguments')
        v = s.g.get('made', {}).get(str(id(r.o))); e.check(s, v is not None and s.g.get('plen') is not None, 'bytes are returned')
        if v is None or s.g.get('plen') is None: continue
        e.check(s, zeq(v.len, s.g['plen']), 'as many bytes as the proof has'); samebytes(e, s, v.arr, 0, PROOFB(s.g['D'], s.g['x'], T), 0, s.g['plen'], 'the bytes are the proof')
    cover(e, outs, [('answer', lambda o: o.kind == 'ret'), ('refusal', lambda o: o.kind == 'throw')], 'prove')
    return e

def t_py_verify():
    """verify_wesolowski: true exactly when the three encodings are valid forms and pi^B x^(2^T mod B) = y"""
    e, f, st, lam = pyengine('verify_wesolowski', 'verify')
    pd, d = arg_str(e, st, 'discriminant'); px, x = arg_str(e, st, 'x_s'); py, y = arg_str(e, st, 'y_s'); pp, pf = arg_str(e, st, 'proof_s'); T = u(st, 'iterations')
    D = PARSE(d.arr, zi(d.len)); bitlen(e, st, D); e.formD = D
    K = [BEINT(v.arr, zi(0), zi(100)) for v in (x, y, pf)]
    outs = e.exec_fn(f, [lam, pd, px, py, pp, ival(64, T)], st); done(e, outs)
    dv = [group.DV(D, z3.IntVal(0), k) for k in K]; X, Y, P = [group.DES(D, k) for k in K]
    wf = z3.And(D < 0, bitlen(e, st, D) <= 1024, x.len == 100, y.len == 100, pf.len == 100, *dv)
    B = group.GB(D, X, Y)
    from lib_gmp import POWM
    from forms import ISONE
    eqn = ISONE(D, simp(P * B + X * POWM(z3.IntVal(2), zi(T), B) - Y)); eqn2 = ISONE(D, simp(Y - P * B - X * POWM(z3.IntVal(2), zi(T), B)))     # the class of pi^B x^r / y is the identity
    for o in outs:
        s = o.st
        for v in (x, y, pf): s.assume(z3.And(group.key(e, s, _ptr(e, s, v), 100) == BEINT(v.arr, zi(0), zi(100))))
        if o.kind == 'throw': e.check(s, z3.Not(wf), 'well-formed arguments are not refused by an exception'); continue
        e.check(s, wf, 'an answer only for well-formed arguments')
        s.assume(eqn == eqn2)
        e.check(s, zb(e.truth(s, o.val)) == eqn, 'true exactly when the Wesolowski equation holds for the Fiat-Shamir challenge')
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zb(e.truth(o.st, o.val))), ('rejection', lambda o: o.kind == 'ret' and zb(znot(e.truth(o.st, o.val)))), ('refusal', lambda o: o.kind == 'throw')], 'verify')
    return e
def _ptr(e, s, v):
    o = e.newbuf(s, 'content', 1, 100, arr=v.arr); return PVal(o, 0)

def t_py_signed():
    """to_signed_bytes_be: a sign byte followed by the minimal big-endian magnitude"""
    mod = pylower(); f = find(mod, r'to_signed_bytes_be\(')
    e, _, st, lam = pyengine('bqfc_deserialize', 'signed'); e.cur = 'to_signed_bytes_be'
    v = z3.Int('value'); pv = arg_mpz(e, st, 'value', v); L = bitlen(e, st, v); st.assume(L < 1 << 32); r = sret(st, 'ret', 8)
    for o in e.exec_fn(f, [r, pv], st):
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        b = s.g.get('made', {}).get(str(id(r.o))); e.check(s, b is not None, 'bytes are returned')
        if b is None: continue
        m = simp(z3.If(v >= 0, v, -v)); n = (bitlen(e, s, v) + 7) / 8
        e.check(s, zeq(b.len, simp(z3.If(v == 0, 1, 1 + n))), 'as many bytes as the magnitude needs, plus one')
        e.check(s, z3.Select(b.arr, 0) == z3.If(v < 0, 1, 0), 'the first byte is the sign')
        j = fresh('any_j'); s.assume(z3.And(j >= 1, j <= n, v != 0))
        for sg in (v > 0, v < 0):
            s2 = s.copy(); s2.assume(sg)
            if e.solver.feasible(s2, True): e.check(s2, z3.Select(b.arr, j) == BYTE(simp(v if sg is not None and str(sg) == str(v > 0) else -v), simp(n - j)), 'byte j is digit n-j of the magnitude')
    return e

def t_py_deser():
    """bqfc_deserialize: the pair (a, b) of the decoded form, in signed big-endian form"""
    e, f, st, lam = pyengine('bqfc_deserialize', 'deser')
    pd, d = arg_str(e, st, 'discriminant'); px, x = arg_str(e, st, 'data'); strict = z3.Bool('strict')
    D = PARSE(d.arr, zi(d.len)); bitlen(e, st, D); e.formD = D; K = BEINT(x.arr, zi(0), zi(100))
    def des(en, s, a, c):
        en.check(s, zeq(en.mpz_get(s, a[1], c.ins), D), 'the discriminant is the one given', c.ins)
        sv = a[4]; t = en.truth(s, sv); en.check(s, zb(t) == strict, 'the strict flag is passed on', c.ins)
        outs = group.c_deserialize(en, s, a, c)
        for o in outs:
            if o.kind == 'ret': o.st.g['form'] = (a[0].o, a[0].off, getf(en, o.st, a[0], c.ins).cls)
        return outs
    use(e, r'^DeserializeForm\(', des)
    def tsb(en, s, a, c):
        fo = s.g.get('form'); ok = fo is not None and a[1].o is fo[0] and isc(a[1].off)
        en.check(s, ok, 'the coefficients are those of the decoded form', c.ins)
        s.g['made'] = dict(s.g.get('made', {}), **{str(id(a[0].o)): (a[1].off - fo[1]) // 16 if ok else None}); return [Out('ret', s, None)]
    use(e, r'to_signed_bytes_be\(', tsb)
    r = sret(st, 'ret', 8); outs = e.exec_fn(f, [r, lam, pd, px, boolv(strict)], st); done(e, outs)
    dv = group.DV(D, z3.If(strict, 1, 0), K); wf = z3.And(D < 0, bitlen(e, st, D) <= 1024, x.len == 100, dv)
    for o in outs:
        s = o.st; s.assume(group.key(e, s, _ptr(e, s, x), 100) == K)
        if o.kind == 'throw': e.check(s, z3.Not(wf), 'a valid encoding is not refused'); continue
        e.check(s, wf, 'an answer only for valid encodings of exactly 100 bytes')
        t = s.g.get('tuple'); e.check(s, t is not None and t[1] == [0, 1], 'the pair is (a, b) of the decoded form')
        e.check(s, zeq(s.g['form'][2], group.DES(D, K)), 'the form is the one the bytes describe')
    cover(e, outs, [('answer', lambda o: o.kind == 'ret'), ('refusal', lambda o: o.kind == 'throw')], 'deser')
    return e

# ---- the Rust crate
def rsfn(mod, name):
    c = [k for k in mod.fns if re.match(r'_RNvC\w*chiavdf%d%s$' % (len(name), name), k)]
    if len(c) != 1: raise Unsupported('rust function %s' % name)
    return mod.fns[c[0]]
def fat(e, st, name):
    n = u(st, name + '_len'); st.assume(n < 1 << 60); return [arg_buf(e, st, name, n), ival(64, n)], n
def is_arg(e, s, p, q): return isinstance(p, PVal) and p.o is q.o and same(p.off, q.off)

def t_rs_create():
    mod = lower_rust('rust_bindings/src/lib.rs'); f = rsfn(mod, 'create_discriminant'); e = engine(mod, True, 'rust create_discriminant'); st = State()
    sd, n = fat(e, st, 'seed'); rs, m = fat(e, st, 'result'); ans = z3.Bool('c_answer')
    def h(en, s, a, c):
        en.check(s, is_arg(en, s, a[0], sd[0]) and is_arg(en, s, a[3], rs[0]), 'the buffers are passed on', c.ins)
        en.check(s, zand(zeq(en.U(s, a[1]), n), zeq(en.U(s, a[2]), simp(8 * m))), 'the seed length and eight bits per result byte are passed on', c.ins); s.g['c'] = 1
        return [Out('ret', s, boolv(ans))]
    use(e, r'^create_discriminant_wrapper$', h)
    for o in e.exec_fn(f, sd + rs, st):
        e.check(o.st, o.kind == 'ret' and o.st.g.get('c') == 1, 'the C function decides')
        if o.kind == 'ret': e.check(o.st, zb(e.truth(o.st, o.val)) == ans, 'the answer is that of the C function')
    return e

def t_rs_verify():
    mod = lower_rust('rust_bindings/src/lib.rs'); f = rsfn(mod, 'verify_n_wesolowski'); e = engine(mod, True, 'rust verify_n_wesolowski'); st = State()
    d, dn = fat(e, st, 'discriminant'); x, xn = fat(e, st, 'x_s'); p, pn = fat(e, st, 'proof'); it, dep = u(st, 'iterations'), u(st, 'recursion'); ans = z3.Bool('c_answer')
    def h(en, s, a, c):
        en.check(s, is_arg(en, s, a[0], d[0]) and is_arg(en, s, a[2], x[0]) and is_arg(en, s, a[3], p[0]), 'the buffers are passed on', c.ins)
        en.bounds(s, a[2], 100, c.ins, 'read')
        en.check(s, zand(*[zeq(en.U(s, v), w) for v, w in zip([a[1]] + list(a[4:]), [dn, pn, it, dep])]), 'lengths and counters are passed on', c.ins); s.g['c'] = 1
        return [Out('ret', s, boolv(ans))]
    use(e, r'^verify_n_wesolowski_wrapper$', h)
    outs = e.exec_fn(f, d + x + p + [ival(64, it), ival(64, dep)], st)
    for o in outs:
        e.check(o.st, o.kind == 'ret', 'does not panic')
        if o.kind == 'ret': e.check(o.st, zb(e.truth(o.st, o.val)) == z3.And(xn == 100, ans), 'true exactly when the starting form has 100 bytes and the C function accepts')
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zb(e.truth(o.st, o.val)))], 'rs_verify')
    return e

def t_rs_prove():
    mod = lower_rust('rust_bindings/src/lib.rs'); f = rsfn(mod, 'prove'); e = engine(mod, True, 'rust prove'); st = State()
    ch, n = fat(e, st, 'challenge'); x, xn = fat(e, st, 'x_s'); bits, it = u(st, 'bits'), u(st, 'iterations'); fail = z3.Bool('c_fails'); L = u(st, 'proof_len'); st.assume(L < 1 << 40)
    buf = e.newbuf(st, 'proof', 1, L, arr=z3.Array('proof_bytes', I_, I_))
    def h(en, s, a, c):
        en.check(s, is_arg(en, s, a[0], ch[0]) and is_arg(en, s, a[2], x[0]), 'the buffers are passed on', c.ins)
        en.check(s, zand(*[zeq(en.U(s, a[i]), w) for i, w in ((1, n), (3, xn), (4, bits), (5, it))]), 'lengths, size and iterations are passed on', c.ins)
        s2 = s.copy(); s2.assume(fail); s.assume(z3.Not(fail)); s.g['out'] = 1; s2.g['out'] = 0
        return [Out('ret', s2, Agg([NULL, ival(64, 0)])), Out('ret', s, Agg([PVal(buf, 0), ival(64, L)]))]
    use(e, r'^prove_wrapper$', h)
    def dele(en, s, a, c):
        p = a[0].v[0] if isinstance(a[0], Agg) else a[0]; p = p.ptr if isinstance(p, IVal) and p.ptr is not None else p
        en.check(s, isinstance(p, PVal) and p.o is buf and s.g.get('freed') is None, 'the array returned by C is released once', c.ins); en.check(s, s.g.get('copied') == 1, 'the bytes are copied before the array is released', c.ins); s.g['freed'] = 1; return [Out('ret', s, None)]
    use(e, r'^delete_byte_array$', dele)
    V = Obj('vec', 1, 'opaqueobj')
    def tovec(en, s, a, c):
        en.check(s, a[1].o is buf and same(a[1].off, 0), 'the bytes are those of the array', c.ins); en.check(s, zeq(en.U(s, a[2]), L), 'the length is that of the array', c.ins)
        en.bounds(s, a[1], en.U(s, a[2]), c.ins, 'read'); s.g['copied'] = 1; s.mem[V] = OS()
        cap = fresh('cap'); s.assume(z3.And(cap >= 0, cap < 1 << 62)); s.g['cap'] = cap
        en.store(s, a[0], ival(64, cap)); en.store(s, PVal(a[0].o, add(a[0].off, 8)), PVal(V, 0)); en.store(s, PVal(a[0].o, add(a[0].off, 16)), ival(64, L)); return [Out('ret', s, None)]
    use(e, r'^.*(slice.*6to_vec|slice.*::to_vec).*$', tovec)
    r = sret(st, 'ret', 24); outs = e.exec_fn(f, [r] + ch + x + [ival(64, bits), ival(64, it)], st)
    for o in outs:
        s = o.st; e.check(s, o.kind == 'ret', 'does not panic')
        if o.kind != 'ret': continue
        cap = zi(e.U(s, e.load(s, r, ir.INT(64)))); none = simp(cap >= 1 << 63)     # the niche the compiler chose lies above every capacity
        if s.g.get('out') == 0: e.check(s, none, 'None when the C function fails'); continue
        e.check(s, z3.Not(none), 'Some when the C function succeeds'); e.check(s, s.g.get('freed') == 1, 'the C array is released')
        pv = e.load(s, PVal(r.o, 8), ir.PTR); e.check(s, isinstance(pv, PVal) and pv.o is V and zeq(e.U(s, e.load(s, PVal(r.o, 16), ir.INT(64))), L), 'the vector holds the copied proof')
    cover(e, outs, [('success', lambda o: o.st.g.get('out') == 1), ('failure', lambda o: o.st.g.get('out') == 0)], 'rs_prove')
    return e

"""Call-site contracts of the proof layer (each is itself verified by a task in this package)."""
import z3
from vf import *
from lib_gmp import BEINT, POWM, bitlen, bytes_to_int
import forms
from forms import FormV, ISONE, needf, putf, getf

DV = z3.Function('form_bytes_valid', I_, I_, I_, z3.BoolSort())   # (D, strict, 100 bytes as an integer)
DES = z3.Function('form_of_bytes', I_, I_, I_)                    # (D, 100 bytes as an integer)
GB = z3.Function('challenge', I_, I_, I_, I_)                     # (D, class x, class y)
SER = z3.Function('bytes_of_form', I_, I_, I_, ARR)               # (D, class, d_bits)
FORM = 100

def disc_ok(e, st, D, c, what):
    e.check(st, z3.And(zi(D) < 0, bitlen(e, st, D) <= 1024), what + ': discriminant is negative and at most 1024 bits', c.ins if c else None)

def key(e, st, p, n):
    return bytes_to_int(e, st, p, n, True)

def c_deserialize(e, st, a, c):
    D = e.mpz_get(st, a[1], c.ins); n = e.U(st, a[3]); strict = e.truth(st, a[4]) if a[4].n == 1 else simp(zi(e.U(st, a[4])) != 0)
    out = []
    bad = z3.Or(zi(D) >= 0, bitlen(e, st, D) > 1024)       # every form is refused for such a discriminant
    if e.solver.feasible(st, bad):
        s2 = st.copy(); s2.assume(bad); e.bounds(s2, a[2], n, c.ins, 'read'); out.append(e.throw(s2, 'St13runtime_error')); st.assume(z3.Not(bad))
    if not (isc(n) and n == FORM):
        bad = zi(n) != FORM
        if e.solver.feasible(st, bad):
            s2 = st.copy(); s2.assume(bad)
            e.bounds(s2, a[2], n, c.ins, 'read')
            out.append(e.throw(s2, 'St13runtime_error'))
            st.assume(z3.Not(bad))
    if not e.bounds(st, a[2], FORM, c.ins, 'read'): return out + [e.throw(st, 'St13runtime_error')]
    k = key(e, st, a[2], FORM)
    s = 1 if strict is True else 0 if strict is False else z3.If(strict, 1, 0)
    ok = DV(zi(D), zi(s), zi(k))
    s2 = st.copy(); s2.assume(z3.Not(ok))
    out.append(e.throw(s2, 'St13runtime_error'))
    st.assume(ok)
    putf(e, st, a[0], FormV(DES(zi(D), zi(k)), True, D))
    return out + [Out('ret', st, None)]

def gb(e, st, D, x, y):
    r = GB(zi(D), zi(x), zi(y))
    st.assume(z3.And(r >= 1 << 263, r < 1 << 264, r % 2 == 1))
    return r

def c_getb(e, st, a, c):
    D = e.mpz_get(st, a[1], c.ins)
    disc_ok(e, st, D, c, 'challenge')
    x, y = needf(e, st, a[2], c.ins, D), needf(e, st, a[3], c.ins, D)
    putf(e, st, a[2], FormV(x.cls, True, x.D)); putf(e, st, a[3], FormV(y.cls, True, y.D))
    e.mpz_new(st, a[0], gb(e, st, D, x.cls, y.cls), c.ins)
    return [Out('ret', st, None)]

def c_serialize(e, st, a, c):
    y = needf(e, st, a[1], c.ins)
    putf(e, st, a[1], FormV(y.cls, True, y.D))
    b = e.S(st, a[2])
    disc_ok(e, st, y.D, c, 'form serialization')
    e.check(st, zeq(b, bitlen(e, st, y.D)), 'form serialization: bit count is that of the discriminant', c.ins)
    e.put(st, a[0], Vec(1, FORM, SER(zi(y.D), zi(y.cls), zi(b))))
    return [Out('ret', st, None)]

def c_fastpowform(e, st, a, c):
    # sret, x, D, num_iterations, L, reducer
    D = e.mpz_get(st, a[2], c.ins); n = e.mpz_get(st, a[3], c.ins); L = e.mpz_get(st, a[4], c.ins)
    x = needf(e, st, a[1], c.ins, D)
    e.check(st, zi(D) < 0, 'exponentiation: discriminant is negative', c.ins)
    e.check(st, cmpx('>=', L, 1), 'exponentiation: L is positive', c.ins)
    out = []
    huge = bitlen(e, st, n) > (1 << 31) - 1
    st.assume(z3.Implies(z3.And(zi(n) < (1 << 4096), zi(n) > -(1 << 4096)), bitlen(e, st, n) <= 4096))   # definition of the bit length
    if e.solver.feasible(st, huge):
        s2 = st.copy(); s2.assume(huge); out.append(e.throw(s2, 'St14overflow_error')); st.assume(z3.Not(huge))
    if not e.solver.feasible(st, cmpx('<', n, 0)):
        v = mul(n, x.cls)
    else:   # a negative exponent gives some form of the discriminant, without any promise about which
        v = z3.If(zi(n) >= 0, zi(n) * zi(x.cls), fresh('negative_power'))
    # the fast reduction leaves b = -a alone, so the result need not be the canonical representative
    putf(e, st, a[0], FormV(v, False, D))
    return out + [Out('ret', st, None)]

def install(e, skip=()):
    for nm, rx, h in (('DeserializeForm', r'^DeserializeForm\(integer const&, unsigned char const\*, unsigned long, bool\)$', c_deserialize),
                      ('GetB', r'^GetB\(integer const&, form&, form&\)$', c_getb),
                      ('SerializeForm', r'^SerializeForm\(form&, int\)$', c_serialize),
                      ('FastPowFormNucomp', r'^FastPowFormNucomp\(', c_fastpowform)):
        if nm not in skip: use(e, rx, h)

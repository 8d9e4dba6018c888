"""Coefficient-level contracts of the form operations: normalisation, reduction, decoding of (a,b,D),
inverse, comparison."""
import z3
from vf import *
import ir, alg
import lib_gmp
from lib_gmp import bitlen

K = z3.Function('class', I_, I_, I_, I_)        # proper equivalence class of a triple
def disc(a, b, c): return zi(b) * zi(b) - 4 * zi(a) * zi(c)

def eng(name):
    mod = lower('forms.cpp')
    e = engine(mod, False, name)
    e.fallbacks.append(alg.fallback())
    return mod, e

def mpz3(e, st, names, vals):
    return [arg_mpz(e, st, n, v) for n, v in zip(names, vals)]
def get3(e, st, ps): return [e.mpz_get(st, p) for p in ps]

def formobj(e, st, name, vals):
    o = Obj(name, 48, 'arg'); st.mem[o] = OS()
    for i, v in enumerate(vals): e.mpz_new(st, PVal(o, 16*i), v)
    return PVal(o, 0)
def fget(e, st, p): return [e.mpz_get(st, PVal(p.o, add(p.off, 16*i))) for i in range(3)]

def pos(a, c): return z3.And(zi(a) > 0, zi(c) > 0)
def normal(a, b): return z3.And(-zi(a) < zi(b), zi(b) <= zi(a))
def reduced(a, b, c): return z3.And(normal(a, b), zi(a) <= zi(c), z3.Implies(zi(a) == zi(c), zi(b) >= 0))

def pos_lemma(e, st, D, A, B, C, what, lc='c'):
    """A > 0 and 4AC = B^2 - D > 0 give C > 0"""
    e.check(st, disc(A, B, C) == zi(D), what + ': the discriminant is preserved')
    # C <= 0 would make 4AC <= 0 < B*B - D
    st.assume(zi(B) * zi(B) >= 0)
    st.assume(z3.Implies(z3.And(zi(A) > 0, zi(C) <= 0), zi(A) * zi(C) <= 0))

def t_normalize():
    mod, e = eng('normalize')
    f = find(mod, r'^normalize\(integer&, integer&, integer&\)$')
    st = State(); a, b, c = z3.Ints('a b c'); D = z3.Int('D')
    st.assume(z3.And(a > 0, D == disc(a, b, c)))
    ps = mpz3(e, st, 'abc', (a, b, c))
    for o in e.exec_fn(f, ps, st):
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        A, B, C = get3(e, s, ps)
        r = e.fdiv(s, a - b, 2*a)
        e.check(s, zi(A) == a, 'a is unchanged')
        e.check(s, zi(B) == b + 2*a*r, 'b changes by 2a*floor((a-b)/2a)')
        s.assume(z3.And(2*a*r <= a - b, a - b < 2*a*r + 2*a))
        e.check(s, normal(A, B), '-a < b <= a')
        e.check(s, zi(C) == a*r*r + b*r + c, 'c is that of the substituted form')
        e.check(s, disc(A, B, C) == D, 'the discriminant is preserved')
        s.assume(z3.Implies(r >= 1, 2*a*r >= 2*a)); s.assume(z3.Implies(r <= -1, 2*a*r <= -2*a))
        e.check(s, z3.Implies(normal(a, b), r == 0), 'a normal form is left alone')
    return e

def t_reduce_step():
    mod, e = eng('reduce_impl')
    f = find(mod, r'^reduce_impl\(integer&, integer&, integer&\)$')
    st = State(); a, b, c = z3.Ints('a b c'); D = z3.Int('D')
    st.assume(z3.And(a > 0, c > 0, D == disc(a, b, c), D < 0))
    ps = mpz3(e, st, 'abc', (a, b, c))
    for o in e.exec_fn(f, ps, st):
        st_ = o.st; e.check(st_, o.kind == 'ret', 'does not throw')
        A, B, C = get3(e, st_, ps)
        s = e.fdiv(st_, c + b, 2*c)
        e.check(st_, zi(A) == c, 'new a is the old c')
        e.check(st_, zi(B) == 2*c*s - b, 'new b is 2cs - b')
        e.check(st_, zi(C) == c*s*s - b*s + a, 'new c is that of the substituted form')
        st_.assume(z3.And(2*c*s <= c + b, c + b < 2*c*s + 2*c))
        e.check(st_, normal(A, B), '-a < b <= a')
        pos_lemma(e, st_, D, A, B, C, 'step')
        e.check(st_, zi(C) > 0, 'c stays positive')
    return e

def c_normalize(e, st, a, c):
    A, B, C = [e.mpz_get(st, p, c.ins) for p in a]
    e.check(st, cmpx('>', A, 0), 'normalize: a is positive', c.ins)
    b2, c2 = fresh('nb'), fresh('nc')
    st.assume(z3.And(normal(A, b2), disc(A, b2, c2) == disc(A, B, C), K(zi(A), b2, c2) == K(zi(A), zi(B), zi(C)),
                     z3.Implies(normal(A, B), z3.And(b2 == zi(B), c2 == zi(C)))))
    e.mpz_set(st, a[1], b2, c.ins); e.mpz_set(st, a[2], c2, c.ins)
    return [Out('ret', st, None)]
def c_reduce_step(e, st, a, c):
    A, B, C = [zi(e.mpz_get(st, p, c.ins)) for p in a]
    e.check(st, z3.And(A > 0, C > 0), 'reduction step: a and c are positive', c.ins)
    b2, c2 = fresh('rb'), fresh('rc')
    st.assume(z3.And(normal(C, b2), disc(C, b2, c2) == disc(A, B, C), c2 > 0, K(C, b2, c2) == K(A, B, C)))
    e.mpz_set(st, a[0], C, c.ins); e.mpz_set(st, a[1], b2, c.ins); e.mpz_set(st, a[2], c2, c.ins)
    return [Out('ret', st, None)]

def red_hint(D, K0):
    def h(ctx):
        C = []
        big = ctx.locs(Mpz)
        if len(big) < 3: return C
        def tri(v): return [zi(v.cell(l).val) for l in big]
        import itertools
        for p in itertools.permutations(range(len(big)), 3) if len(big) <= 4 else []:
            C.append(('triple %s keeps class, discriminant and sign' % (p,), lambda v, k, p=p: (lambda t: z3.And(K(t[p[0]], t[p[1]], t[p[2]]) == K0, disc(t[p[0]], t[p[1]], t[p[2]]) == D, t[p[0]] > 0, t[p[2]] > 0))(tri(v))))
            C.append(('triple %s is normal' % (p,), lambda v, k, p=p: (lambda t: normal(t[p[0]], t[p[1]]))(tri(v))))
        return C
    return h

def t_reduce():
    """reduce(a,b,c): the reduced representative of the same class, for every positive definite triple"""
    mod, e = eng('reduce')
    f = find(mod, r'^reduce\(integer&, integer&, integer&\)$')
    use(e, r'^normalize\(integer&, integer&, integer&\)$', c_normalize)
    use(e, r'^reduce_impl\(integer&, integer&, integer&\)$', c_reduce_step)
    st = State(); a, b, c = z3.Ints('a b c'); D = z3.Int('D')
    st.assume(z3.And(a > 0, c > 0, D == disc(a, b, c), D < 0))
    K0 = z3.Int('K0'); st.assume(K0 == K(a, b, c))
    e.loop_hints[''] = red_hint(D, K0)
    ps = mpz3(e, st, 'abc', (a, b, c))
    # positivity of c after normalisation: 4ac = b*b - D
    def nrm(en, s, x, cc):
        r = c_normalize(en, s, x, cc)
        A, B, C = [zi(en.mpz_get(s, p)) for p in x]
        s.assume(B * B >= 0); s.assume(z3.Implies(z3.And(A > 0, C <= 0), A * C <= 0))
        return r
    use(e, r'^normalize\(integer&, integer&, integer&\)$', nrm)
    for o in e.exec_fn(f, ps, st):
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        A, B, C = get3(e, s, ps)
        e.check(s, K(zi(A), zi(B), zi(C)) == K0, 'the class is preserved')
        e.check(s, disc(A, B, C) == D, 'the discriminant is preserved')
        e.check(s, reduced(A, B, C), 'the result is reduced')
    return e

def t_is_reduced():
    mod, e = eng('form::is_reduced')
    f = find(mod, r'^form::is_reduced\(\)$')
    st = State(); a, b, c = z3.Ints('a b c')
    st.assume(z3.And(a > 0, c > 0))
    p = formobj(e, st, 'f', (a, b, c))
    for o in e.exec_fn(f, [p], st):
        e.check(o.st, zb(e.truth(o.st, o.val)) == reduced(a, b, c), 'true exactly for reduced forms')
        e.check(o.st, zand(*[zeq(x, y) for x, y in zip(fget(e, o.st, p), (a, b, c))]), 'the form is left alone')
    return e

def t_compare():
    mod, e = eng('form::operator==')
    f = find(mod, r'^form::operator==\(form const&\) const$')
    st = State(); v = z3.Ints('a b c'); w = z3.Ints('d e f')
    p, q = formobj(e, st, 'f', v), formobj(e, st, 'g', w)
    for o in e.exec_fn(f, [p, q], st):
        e.check(o.st, zb(e.truth(o.st, o.val)) == z3.And(*[x == y for x, y in zip(v, w)]), 'true exactly when all three coefficients agree')
    return e

def c_reduce(e, st, a, c):
    """contract of ::reduce / form::reduce (proved by t_reduce)"""
    ps = a if len(a) == 3 else [PVal(a[0].o, add(a[0].off, 16*i)) for i in range(3)]
    A, B, C = [zi(e.mpz_get(st, p, c.ins)) for p in ps]
    e.check(st, z3.And(A > 0, C > 0), 'reduction: a and c are positive', c.ins)
    e.check(st, disc(A, B, C) < 0, 'reduction: the discriminant is negative', c.ins)
    x, y, z = fresh('ra'), fresh('rb'), fresh('rc')
    st.assume(z3.And(K(x, y, z) == K(A, B, C), disc(x, y, z) == disc(A, B, C), reduced(x, y, z), x > 0, z > 0))
    for p, v in zip(ps, (x, y, z)): e.mpz_set(st, p, v, c.ins)
    st.g['reduced_from'] = (A, B, C)
    return [Out('ret', st, None)]

def t_from_abd():
    """form::from_abd: the reduced form of (a,b,(b^2-D)/4a); refuses a <= 0 and inexact c"""
    mod, e = eng('form::from_abd')
    f = find(mod, r'^form::from_abd\(integer const&, integer const&, integer const&\)$')
    use(e, r'^reduce\(integer&, integer&, integer&\)$', c_reduce)
    st = State(); a, b, D = z3.Ints('a b D'); st.assume(D < 0)
    r = sret(st, 'result', 48)
    ps = [arg_mpz(e, st, n, v) for n, v in (('a', a), ('b', b), ('D', D))]
    q = z3.Int('q')           # the quotient, when it exists
    st.assume(b * b >= 0)
    # definition: divisible <=> remainder is zero
    fq = e.fdiv(st, b*b - D, 4*a) if False else None
    outs = e.exec_fn(f, [r] + ps, st)
    cover(e, outs, [('a form', lambda o: o.kind == 'ret'), ('a refusal', lambda o: o.kind == 'throw')], 'from_abd')
    for o in outs:
        s = o.st
        if o.kind == 'throw':
            e.check(s, s.exc[0] == 'St13runtime_error', 'refusal is a runtime_error')
            s.assume(z3.And(a > 0, b*b - D == 4*a*q))
            # exact division has remainder 0
            fl = e.fdiv(s, b*b - D, 4*a)
            d = fresh('d'); s.assume(z3.And(d == q - fl, 4*a*d == 4*a*q - 4*a*fl, z3.Implies(d >= 1, 4*a*d >= 4*a), z3.Implies(d <= -1, 4*a*d <= -4*a)))
            e.check(s, False, 'a valid pair is not refused'); continue
        A, B, C = fget(e, s, r)
        e.check(s, a > 0, 'a non-positive leading coefficient is refused')
        A0, B0, C0 = s.g.get('reduced_from', (0, 0, 0))
        e.check(s, z3.And(zi(A0) == a, zi(B0) == b, 4*zi(A0)*zi(C0) == b*b - D), 'the reduced form comes from (a, b, (b^2-D)/4a)')
        e.check(s, disc(A, B, C) == D, 'the form has the given discriminant')
        e.check(s, reduced(A, B, C), 'the form is reduced')
        e.check(s, zand(*[zeq(e.mpz_get(s, p), v) for p, v in zip(ps, (a, b, D))]), 'the arguments are left alone')
    return e

def t_inverse():
    mod, e = eng('form::inverse')
    f = find(mod, r'^form::inverse\(\) const$')
    use(e, r'^reduce\(integer&, integer&, integer&\)$', c_reduce)
    st = State(); a, b, c = z3.Ints('a b c'); st.assume(z3.And(a > 0, c > 0, disc(a, b, c) < 0))
    r = sret(st, 'result', 48); p = formobj(e, st, 'f', (a, b, c))
    for o in e.exec_fn(f, [r, p], st):
        s = o.st; e.check(s, o.kind == 'ret', 'does not throw')
        A, B, C = fget(e, s, r)
        e.check(s, K(zi(A), zi(B), zi(C)) == K(a, -b, c), 'the result is the class of (a, -b, c)')
        e.check(s, reduced(A, B, C), 'the result is reduced')
        e.check(s, disc(A, B, C) == disc(a, b, c), 'same discriminant')
        e.check(s, zand(*[zeq(x, y) for x, y in zip(fget(e, s, p), (a, b, c))]), 'the operand is left alone')
    return e

def t_principal(which):
    """identity(D) and generator(D): from_abd(1,1,D) and from_abd(2,1,D)"""
    mod, e = eng('form::' + which)
    f = find(mod, r'^form::%s\(integer const&\)$' % which)
    st = State(); D = z3.Int('D')
    r = sret(st, 'result', 48); pD = arg_mpz(e, st, 'D', D)
    def fa(en, s, a, c):
        A, B, Dv = [en.mpz_get(s, x, c.ins) for x in a[1:4]]
        en.check(s, zand(zeq(A, 1 if which == 'identity' else 2), zeq(B, 1), zeq(Dv, D)), 'built from (%d, 1) and the discriminant' % (1 if which == 'identity' else 2), c.ins)
        for i in range(3): en.mpz_new(s, PVal(a[0].o, add(a[0].off, 16*i)), z3.Int('p%d' % i))
        s.g['fa'] = 1
        return [Out('ret', s, None)]
    use(e, r'^form::from_abd\(', fa)
    for o in e.exec_fn(f, [r, pD], st):
        e.check(o.st, o.kind == 'ret' and 'fa' in o.st.g, 'returns the form built')
        e.check(o.st, zand(*[zeq(x, z3.Int('p%d' % i)) for i, x in enumerate(fget(e, o.st, r))]), 'returns it unchanged')
    return e

# ---------------------------------------------------------------- the reference squaring (vdf_original.h)
KSQ = z3.Function('class_squared', I_, I_)
def vobj(e, mod, st):
    lay = mod.members('vdf_original'); o = Obj('vdf_original', lay[''], 'arg'); st.mem[o] = OS()
    for n, off in lay.items():
        if not n: continue
        for i in range(3 if n == 'f3' else 1): e.mpz_new(st, PVal(o, off + 16 * i), z3.Int('%s_before%d' % (n, i)))
    return o, lay
def orig(name):
    mod = lower('manager.cpp', extra=['-DCHIA_DISABLE_ASM']); e = engine(mod, False, 'vdf_original::' + name); e.fallbacks.append(alg.fallback()); st = State(); a, b, c = z3.Ints('a b c'); D = z3.Int('D'); st.assume(z3.And(a > 0, c > 0, D == disc(a, b, c), D < 0))
    o, lay = vobj(e, mod, st); return mod, e, st, a, b, c, D, o, lay, formobj(e, st, 'f1', (a, b, c)), find(mod, r'^vdf_original::%s\(vdf_original::form&\)$' % name)
def pos_c(s, A, C, B, D): s.assume(zi(B) * zi(B) >= 0); s.assume(z3.Implies(z3.And(zi(A) > 0, zi(C) <= 0), zi(A) * zi(C) <= 0))
def t_orig_normalize():
    mod, e, st, a, b, c, D, o, lay, pf, f = orig('normalize')
    for t in e.exec_fn(f, [PVal(o, 0), pf], st):
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw'); A, B, C = fget(e, s, pf); r = e.fdiv(s, a - b, 2 * a); same = z3.And(zi(A) == a, zi(B) == b, zi(C) == c)
        s.assume(z3.And(2*a*r <= a - b, a - b < 2*a*r + 2*a)); e.check(s, zi(A) == a, 'a is unchanged'); e.check(s, z3.Or(z3.And(same, normal(a, b)), z3.And(zi(B) == b + 2*a*r, zi(C) == a*r*r + b*r + c)), 'the form is moved by floor((a-b)/2a), or left alone when normal')
        e.check(s, normal(A, B), '-a < b <= a'); e.check(s, disc(A, B, C) == D, 'the discriminant is preserved')
    return e
def c_onorm(en, s, a, c):
    A, B, C = [zi(x) for x in fget(en, s, a[1])]; en.check(s, A > 0, 'normalised: a is positive', c.ins); b2, c2 = fresh('nb'), fresh('nc')
    s.assume(z3.And(normal(A, b2), disc(A, b2, c2) == disc(A, B, C), K(A, b2, c2) == K(A, B, C), z3.Implies(normal(A, B), z3.And(b2 == B, c2 == C)))); pos_c(s, A, c2, b2, None)
    for i, v in ((1, b2), (2, c2)): en.mpz_set(s, PVal(a[1].o, add(a[1].off, 16 * i)), v, c.ins)
    return [Out('ret', s, None)]
def t_orig_reduce():
    mod, e, st, a, b, c, D, o, lay, pf, f = orig('reduce'); K0 = z3.Int('K0'); st.assume(K0 == K(a, b, c)); use(e, r'^vdf_original::normalize\(', c_onorm)
    tri = lambda v: [zi(v.cell((pf.o, 16 * i)).val) for i in range(3)]
    def H(ctx): return [('class, discriminant and sign', lambda v, k: (lambda t: z3.And(K(*t) == K0, disc(*t) == D, t[0] > 0, t[2] > 0))(tri(v))), ('normal', lambda v, k: (lambda t: normal(t[0], t[1]))(tri(v)))]
    def ax(s, k):          # the step by s is a change of variables of determinant 1
        t = [zi(s.mem[pf.o].cells[16 * i].val) for i in range(3)]; q = E.FDIV(t[2] + t[1], 2 * t[2]); n = (t[2], 2 * t[2] * q - t[1], t[2] * q * q - t[1] * q + t[0])
        return [K(*n) == K(*t), disc(*n) == disc(*t), z3.Implies(t[2] > 0, z3.And(2*t[2]*q <= t[2] + t[1], t[2] + t[1] < 2*t[2]*q + 2*t[2])), n[1] * n[1] >= 0, z3.Implies(z3.And(n[0] > 0, n[2] <= 0), n[0] * n[2] <= 0)]
    H.axioms = ax; e.loop_hints[''] = H
    for t in e.exec_fn(f, [PVal(o, 0), pf], st):
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw'); A, B, C = fget(e, s, pf)
        e.check(s, K(zi(A), zi(B), zi(C)) == K0, 'the class is preserved'); e.check(s, disc(A, B, C) == D, 'the discriminant is preserved'); e.check(s, reduced(A, B, C), 'the result is reduced')
    return e
def t_orig_square():
    """the reference squaring: for gcd(a,b) = 1 the form (a^2, b - 2a mu, mu^2 - (b mu - c)/a), b mu = c mod a, which is the Dirichlet square, reduced"""
    mod, e, st, a, b, c, D, o, lay, pf, f = orig('square'); use(e, r'^vdf_original::normalize\(', c_onorm)
    st.assume(lib_gmp.GCD(b, a) == 1)
    def red(en, s, x, cc):
        en.check(s, x[1].o is o and zeq(x[1].off, lay['f3']), 'the result is what is reduced', cc.ins); A, B, C = [zi(v) for v in fget(en, s, x[1])]; mu, m = [zi(en.mpz_get(s, PVal(o, lay[k]))) for k in ('mu', 'm')]
        g, d, ee, _, _, _, _ = s.g['bezout'][-1]; en.check(s, g == 1, 'a and b have no common factor'); en.check(s, E.FDIV(c, g) == c, 'the quotient by the gcd'); j = E.FDIV(c * d, a)
        en.check(s, mu == c * d - a * j, 'the solution of b mu = c mod a'); W = -(c * ee + b * j); en.check(s, b * mu - c == a * W, 'b mu - c is a multiple of a')
        s.assume(z3.Implies(z3.And(b * mu - c == a * W, a > 0), E.FDIV(b * mu - c, a) == W)); en.check(s, m == W, 'the quotient is exact')
        en.check(s, A == a * a, 'the square has leading coefficient a^2'); en.check(s, B == b - 2 * a * mu, 'its b is that of f modulo 2a'); en.check(s, disc(A, B, C) == D, 'the square has the discriminant of its operand')
        pos_c(s, A, C, B, D); s.assume(a * a > 0); en.check(s, z3.And(A > 0, C > 0), 'the square is positive definite'); en.check(s, all(en.mpz_get(s, PVal(pf.o, 16 * i)).eq(v) for i, v in enumerate((a, b, c))), 'the operand is not changed before the square is there')
        s.g['sq'] = (A, B, C); n = [fresh(k) for k in ('ra', 'rb', 'rc')]; s.assume(z3.And(K(*n) == K(A, B, C), disc(*n) == disc(A, B, C), reduced(*n)))
        for i, v in enumerate(n): en.mpz_set(s, PVal(o, lay['f3'] + 16 * i), v)
        s.g['red'] = tuple(n); return [Out('ret', s, None)]
    use(e, r'^vdf_original::reduce\(', red)
    outs = e.exec_fn(f, [PVal(o, 0), pf], st); cover(e, outs, [('a square', lambda q: q.kind == 'ret' and z3.And(a > 3, b > 1))], 'square')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, t.val.o is o and zeq(t.val.off, lay['f3']), 'the form handed back is the squarer\'s own'); e.check(s, z3.And(*[zi(x) == y for x, y in zip(fget(e, s, t.val), s.g.get('red', (0, 0, 0)))]), 'it is the reduced square')
        e.check(s, z3.And(*[zi(x) == y for x, y in zip(fget(e, s, pf), (a, b, c))]), 'the operand is left alone')
    return e

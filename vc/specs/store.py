"""The checkpoint stores of the fast provers (callback.h): which form lands in which slot, and which slot a reader gets."""
import z3
from vf import *
import ir
from specs import group
from specs.group import *
from forms import FormV, getf, putf
from lib_gmp import bitlen
from lib_std import getvec

SWITCH, MAXIT = 91000000, 800000000      # the documented limits: capacity and protocol are stated for them
LASTP = MAXIT - 500000 + (1 << 15) + 200 # repeated_square stops there (at most one checkpoint interval and a round-up late)

def obj(e, mod, st, cls, **fields):
    lay = mod.members(cls)
    o = Obj(cls, lay[''], 'arg'); st.mem[o] = OS()
    put = lambda p, v: e.put(st, p, v) if hasattr(v, "size") else e.store(st, p, v, None)
    put(PVal(o, 0), NULL)          # vtable pointer: replaced where virtual calls are made
    for k, v in fields.items():
        if k not in lay: raise Unsupported('no member %s in %s' % (k, cls))
        p = PVal(o, lay[k])
        if callable(v): v(p)
        else: put(p, v)
    return o, (lambda k: PVal(o, lay[k]))
def i64(x): return ival(64, x)
def i32(x): return ival(32, x)
def forms_arr(e, st, name, n):
    o = Obj(name, mul(48, n)); A = z3.Array(name + '_before', I_, I_); st.mem[o] = OS(arr=A, es=48)
    return o, A
def arr_of(s, o): return s.mem[o].arr

def setform(e, data, ty, X, need_reduced=True):
    def h(en, s, a, c):
        en.check(s, zeq(en.U(s, a[1]), ty), 'the form type is handed on', c.ins)
        en.check(s, a[2].o is data.o and zeq(a[2].off, data.off), 'the current form is handed on', c.ins)
        if need_reduced: en.check(s, en.truth(s, a[4]), 'stored forms are reduced', c.ins)
        putf(en, s, a[3], FormV(X, True, en.formD), c.ins)
        return [Out('ret', s, None)]
    use(e, r'^WesolowskiCallback::SetForm\(', h)

def atomics(e):
    """std::atomic<T>: the cell it wraps"""
    def ty(c):
        return 64 if re.search(r'unsigned long|long', c.dem.split('>')[0]) else 8 if 'bool' in c.dem.split('>')[0] else 32
    use(e, r'^std::(__atomic_base|atomic)<[^>]*>::load\(.*\) const$|^std::(__atomic_base|atomic)<[^>]*>::operator (unsigned |)(long|int|bool)\(\) const$', lambda en, s, a, c: [Out('ret', s, en.load(s, a[0], INT(ty(c)), c.ins))])
    def store(en, s, a, c):
        en.store(s, a[0], a[1], c.ins); return [Out('ret', s, a[1])]
    use(e, r'^std::(__atomic_base|atomic)<[^>]*>::(store\(|operator=\((?!std))', store)
    def ctor(en, s, a, c): en.store(s, a[0], a[1], c.ins); return [Out('ret', s, None)]
    use(e, r'^std::(__atomic_base|atomic)<[^>]*>::(__atomic_base|atomic)\((?!std)[^)]+\)$', ctor)

def mutexes(e, on_lock=None):
    """the mutex is free when it is taken and held when it is released; on_lock: what other threads may have done meanwhile"""
    def lock(en, s, a, c):
        k = ('lock', a[0].o.id, a[0].off)
        en.check(s, not s.g.get(k), 'the mutex is not taken twice', c.ins); s.g[k] = True
        if on_lock: on_lock(en, s)
        return [Out('ret', s, None)]
    def unlock(en, s, a, c):
        k = ('lock', a[0].o.id, a[0].off)
        en.check(s, bool(s.g.get(k)), 'the mutex released is held', c.ins); s.g[k] = False
        return [Out('ret', s, None)]
    use(e, r'^std::mutex::lock\(\)$', lock); use(e, r'^std::mutex::unlock\(\)$', unlock)
def held(s): return any(v for k, v in s.g.items() if isinstance(k, tuple) and k[0] == 'lock')

def start(name, cls='TwoWesolowskiCallback'):
    mod = lower('fast.cpp')
    e = engine(mod, True, name); st = State(); e.formD = z3.Int('D'); st.assume(e.formD < 0)
    atomics(e)
    return mod, e, st
def data_arg(st):
    o = Obj('data', 48, 'arg'); st.mem[o] = OS(); return PVal(o, 0)

# ---------------------------------------------------------------- one proof
def t_one_iter():
    mod, e, st = start('OneWesolowskiCallback::OnIteration')
    f = find(mod, r'^OneWesolowskiCallback::OnIteration\(')
    it, W, kl, X, cap, r0 = u(st, 'iteration'), u(st, 'wanted'), u(st, 'kl', 32), z3.Int('X'), u(st, 'capacity'), z3.Int('result_before'); ty = u(st, 'type', 31)
    st.assume(z3.And(kl >= 1, it < (1 << 64) - 1, cap < 1 << 57, cap >= FDIVF(W, kl) + 1, z3.Or(W == 0, W >= 1)))
    st.assume(divdef(W, kl)); st.assume(divdef(it + 1, kl)); st.assume(z3.Implies(FDIVF(it + 1, kl) >= FDIVF(W, kl) + 1, kl * FDIVF(it + 1, kl) >= kl * FDIVF(W, kl) + kl))
    fo, A = forms_arr(e, st, 'forms', cap)
    o, at = obj(e, mod, st, 'OneWesolowskiCallback', forms=PVal(fo, 0), forms_capacity=i64(cap), wanted_iter=i64(W), kl=ival(32, kl), result=FormV(r0, True, e.formD))
    d = data_arg(st); setform(e, d, ty, X)
    outs = e.exec_fn(f, [PVal(o, 0), ival(32, ty, 0, (1 << 31) - 1), d, i64(it)], st)
    cover(e, outs, [('a stored checkpoint', lambda q: z3.And(it + 1 < W, kl * FDIVF(it + 1, kl) == it + 1)), ('the last iteration', lambda q: it + 1 == W), ('an ordinary iteration', lambda q: z3.And(it + 1 < W, kl * FDIVF(it + 1, kl) != it + 1)), ('a late iteration', lambda q: it >= W)], 'one_iter')
    p = it + 1; q = FDIVF(p, kl)
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        B = arr_of(s, fo)
        hit = z3.And(p <= W, kl * q == p)
        e.check(s, B == z3.If(hit, z3.Store(A, q, X), A), 'entry i becomes the form after i*kl squarings when that iteration comes; nothing else is touched')
        e.check(s, zeq(getf(e, s, at('result')).cls, z3.If(p == W, X, r0)), 'the result is the form after exactly the wanted number of squarings')
        for k, v in (('forms_capacity', cap), ('wanted_iter', W)): e.check(s, zeq(e.U(s, e.load(s, at(k), INT(64))), v), k + ' is left alone')
    return e
def FDIVF(a, b): return E.FDIV(zi(a), zi(b))
def divdef(a, b): return z3.And(zi(b) * FDIVF(a, b) <= zi(a), zi(a) < zi(b) * FDIVF(a, b) + zi(b), FDIVF(a, b) * zi(b) == zi(b) * FDIVF(a, b))

# ---------------------------------------------------------------- two-segment proofs
def slot(p, s): return z3.If(z3.Or(s == -1, p < s), p / 10, s / 10 + (p - s) / 100)
def stored(p, s): return z3.If(z3.Or(s == -1, p < s), p % 10 == 0, p % 100 == 0)
def encode(st, s, name='state'):
    """a recorded change of spacing at s: s+1 in the upper half, s/10 in the lower"""
    v = z3.Int(name); lo = z3.If(s == -1, 0, s / 10)
    st.assume(z3.And(v == (s + 1) * (1 << 32) + lo, v >= 0, v < 1 << 64, v / (1 << 32) == s + 1, v % (1 << 32) == lo))
    return v
def switch_ok(s): return z3.Or(s == -1, z3.And(s >= SWITCH, s <= SWITCH + (1 << 15) + 200, s % 100 == 0))
CAP = SWITCH // 10 + (MAXIT - SWITCH) // 100

def two(e, mod, st, s, cap=CAP):
    fo, A = forms_arr(e, st, 'forms', cap)
    o, at = obj(e, mod, st, 'TwoWesolowskiCallback', forms=PVal(fo, 0), forms_capacity=i64(cap), transition_state=i64(encode(st, s)), kl=ival(32, z3.If(s == -1, z3.IntVal(10), z3.IntVal(100)), 10, 100))
    return o, at, fo, A

def t_two_iter():
    mod, e, st = start('TwoWesolowskiCallback::OnIteration')
    f = find(mod, r'^TwoWesolowskiCallback::OnIteration\(')
    it, s_, X = u(st, 'iteration'), z3.Int('switch'), z3.Int('X'); ty = u(st, 'type', 31)
    st.assume(z3.And(switch_ok(s_), it < LASTP)); p = it + 1
    # the switch is made when the loop stands at s; later iterations are numbered from there
    st.assume(z3.Or(s_ == -1, p > s_)); st.assume(z3.Or(s_ != -1, p <= SWITCH + (1 << 15) + 200))
    o, at, fo, A = two(e, mod, st, s_)
    mutexes(e)
    d = data_arg(st); setform(e, d, ty, X)
    outs = e.exec_fn(f, [PVal(o, 0), ival(32, ty, 0, (1 << 31) - 1), d, i64(it)], st)
    cover(e, outs, [('an early checkpoint', lambda q: z3.And(s_ == -1, p % 10 == 0)), ('a late checkpoint', lambda q: z3.And(s_ > 0, p % 100 == 0)), ('an ordinary iteration', lambda q: p % 10 == 3)], 'two_iter')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw: every checkpoint has a slot')
        if t.kind != 'ret': continue
        e.check(s, arr_of(s, fo) == z3.If(stored(p, s_), z3.Store(A, slot(p, s_), X), A), 'the form lands in the slot of its iteration when that is a checkpoint; nothing else is touched')
        e.check(s, not held(s), 'the mutex is released')
    return e

def t_two_copy():
    mod, e, st = start('TwoWesolowskiCallback::GetFormCopy')
    f = find(mod, r'^TwoWesolowskiCallback::GetFormCopy\(')
    p, s_ = u(st, 'power'), z3.Int('switch'); cap = u(st, 'capacity'); st.assume(z3.And(switch_ok(s_), cap < 1 << 40))
    o, at, fo, A = two(e, mod, st, s_, cap)
    s2, A2 = z3.Int('switch_now'), z3.Array('forms_now', I_, I_)
    def meanwhile(en, s):       # other threads, while the mutex was free
        s.assume(switch_ok(s2)); s.mem[fo] = OS(arr=A2, es=48)
        en.store(s, at('transition_state'), i64(encode(s, s2, 'state_now'))); en.store(s, at('kl'), ival(32, z3.If(s2 == -1, z3.IntVal(10), z3.IntVal(100)), 10, 100))
        s.g['locked'] = True
    mutexes(e, meanwhile)
    r = sret(st, 'result', 48)
    outs = e.exec_fn(f, [r, PVal(o, 0), i64(p)], st)
    cover(e, outs, [('a copy', lambda q: q.kind == 'ret'), ('a refusal', lambda q: q.kind == 'throw')], 'two_copy')
    for t in outs:
        s = t.st
        e.check(s, not held(s), 'the mutex is released')
        e.check(s, bool(s.g.get('locked')), 'the store is read under the mutex')
        if t.kind == 'throw':
            e.check(s, s.exc[0] == 'St13runtime_error', 'a standard exception'); e.check(s, slot(p, s2) >= cap, 'only iterations beyond the store are refused'); continue
        e.check(s, slot(p, s2) < cap, 'iterations beyond the store are refused')
        e.check(s, zeq(getf(e, s, r).cls, z3.Select(A2, slot(p, s2))), 'the copy is the content of the slot of that iteration')
        e.check(s, arr_of(s, fo) == A2, 'the store is left alone')
    return e

def t_two_position():
    """GetPosition is the slot function; distinct checkpoints have distinct slots within the capacity; a checkpoint keeps its slot when the spacing changes"""
    mod, e, st = start('TwoWesolowskiCallback::GetPosition')
    f = find(mod, r'^TwoWesolowskiCallback::GetPosition\(')
    p, s_ = u(st, 'power'), z3.Int('switch'); st.assume(switch_ok(s_))
    o, at, fo, A = two(e, mod, st, s_)
    mutexes(e)
    outs = e.exec_fn(f, [PVal(o, 0), i64(p)], st)
    cover(e, outs, [('an early position', lambda q: s_ == -1), ('a late position', lambda q: p > s_)], 'two_position')
    q = u(st, 'other')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        v = zi(e.U(s, t.val))
        e.check(s, v == slot(p, s_), 'the slot of an iteration is a tenth of it before the spacing changes at s, and s/10 plus a hundredth of the rest from there on')
        e.check(s, not held(s), 'the mutex is released')
        lim = z3.And(p <= LASTP, z3.Or(s_ != -1, p <= SWITCH + (1 << 15) + 200))
        e.check(s, z3.Implies(lim, v < CAP), 'every iteration the loop can reach has a slot within the store')
        s.assume(z3.And(q >= 0, q < 1 << 64))
        e.check(s, z3.Implies(z3.And(stored(p, s_), stored(q, s_), p != q), v != slot(q, s_)), 'distinct checkpoints have distinct slots')
        e.check(s, z3.Implies(z3.And(s_ != -1, p <= s_), v == p / 10), 'checkpoints up to the change of spacing keep their slots')
    return e

def t_two_increase():
    mod, e, st = start('TwoWesolowskiCallback::IncreaseConstants')
    f = find(mod, r'^TwoWesolowskiCallback::IncreaseConstants\(')
    n = u(st, 'num_iters'); s0 = z3.IntVal(-1)
    o, at, fo, A = two(e, mod, st, s0)
    mutexes(e)
    outs = e.exec_fn(f, [PVal(o, 0), i64(n)], st)
    cover(e, outs, [('the change', lambda q: q.kind == 'ret'), ('a refusal', lambda q: q.kind == 'throw')], 'two_increase')
    for t in outs:
        s = t.st
        e.check(s, not held(s), 'the mutex is released')
        ts = e.U(s, e.load(s, at('transition_state'), INT(64)))
        if t.kind == 'throw':
            e.check(s, s.exc[0] == 'St14overflow_error', 'a standard exception'); e.check(s, n >= (1 << 32) - 1, 'only counts that do not fit are refused')
            e.check(s, zeq(ts, 0), 'a refused change leaves the store as it was'); continue
        e.check(s, n < (1 << 32) - 1, 'counts that do not fit are refused')
        e.check(s, zi(ts) == (n + 1) * (1 << 32) + n / 10, 'the change is recorded as the iteration and the first slot after it')
        e.check(s, zeq(e.U(s, e.load(s, at('kl'), INT(32))), 100), 'the spacing becomes 100')
        e.check(s, arr_of(s, fo) == A, 'stored forms are left alone')
    return e

def t_two_large():
    mod, e, st = start('TwoWesolowskiCallback::LargeConstants')
    f = find(mod, r'^TwoWesolowskiCallback::LargeConstants\(')
    s_ = z3.Int('switch'); st.assume(switch_ok(s_))
    o, at, fo, A = two(e, mod, st, s_)
    outs = e.exec_fn(f, [PVal(o, 0)], st)
    for t in outs:
        e.check(t.st, t.kind == 'ret', 'does not throw')
        if t.kind == 'ret': e.check(t.st, zb(e.truth(t.st, t.val)) == (s_ != -1), 'answers whether the spacing has changed')
    return e

# ---------------------------------------------------------------- constructors
def base_ctors(e):
    use(e, r'^vdf_original::vdf_original\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    use(e, r'^vdf_original::~vdf_original\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
def root_contract(e, D):
    L = z3.Int('L4')
    def root(en, s, a, c):
        v = en.mpz_get(s, a[1], c.ins); n = en.S(s, a[2])
        en.check(s, zand(zeq(v, simp(-zi(D))), zeq(n, 4)), 'the bound is the fourth root of the absolute discriminant', c.ins)
        s.assume(L >= 1); en.mpz_new(s, a[0], L, c.ins); return [Out('ret', s, None)]
    use(e, r'^root\(integer const&, int\)$', root)
    return L
def form_arrays(e, st):
    """new form[n]: a heap array of n forms behind its element count"""
    def new(en, s, a, c):
        n = en.U(s, a[0]); k = s.g.get('narrays', 0); s.g['narrays'] = k + 1
        o = Obj('forms%d' % k, simp(zi(n) - 8) if not isc(n) else n - 8, 'cookie'); s.g[('new', k)] = o
        s.mem[o] = OS(arr=z3.Array('fresh%d' % k, I_, I_), es=48)
        return [Out('ret', s, PVal(o, -8))]
    use(e, r'^operator new\[\]\(unsigned long\)$', new)
def blank(mod, st, cls):
    lay = mod.members(cls); o = Obj(cls, lay[''], 'arg'); st.mem[o] = OS()
    return o, (lambda k: PVal(o, lay[k]))

def base_checks(e, s, at, D, L):
    e.check(s, zeq(e.mpz_get(s, at('D')), D), 'the discriminant is kept'); e.check(s, zeq(e.mpz_get(s, at('L')), L), 'the reduction bound is the fourth root of |D|')

def t_one_ctor():
    mod, e, st = start('OneWesolowskiCallback::OneWesolowskiCallback')
    f = find(mod, r'^OneWesolowskiCallback::OneWesolowskiCallback\(')
    D = e.formD; W, x = u(st, 'wanted'), z3.Int('x'); st.assume(W < 1 << 56)
    o, at = blank(mod, st, 'OneWesolowskiCallback')
    pD = arg_mpz(e, st, 'D', D); pf = arg_form(e, st, 'f', FormV(x, True, D))
    base_ctors(e); L = root_contract(e, D); form_arrays(e, st)
    K_, L_ = z3.Ints('k l'); KL = z3.If(W >= 1 << 16, K_ * L_, 10)
    def params(en, s, a, c):
        en.check(s, zeq(en.U(s, a[0]), W), 'parameters are chosen for the iteration count', c.ins)
        en.check(s, W >= 1 << 16, 'the table of parameters applies', c.ins)
        s.assume(z3.And(K_ >= 1, K_ <= 40, L_ >= 1, L_ <= 1 << 20, K_ * L_ >= 1, K_ * L_ <= 40 << 20, K_ * L_ == L_ * K_))
        en.store(s, a[1], IVal(32, L_, 1, 1 << 20), c.ins); en.store(s, a[2], IVal(32, K_, 1, 40), c.ins)
        return [Out('ret', s, None)]
    use(e, r'^ApproximateParameters\(', params)
    for t_ in (10, K_ * L_, KL): st.assume(z3.Implies(zi(t_) >= 1, z3.And(divdef(W, t_), FDIVF(W, t_) >= 0, FDIVF(W, t_) <= W)))
    outs = e.exec_fn(f, [PVal(o, 0), pD, pf, i64(W)], st)
    cover(e, outs, [('a large count', lambda q: W >= 1 << 16), ('a small count', lambda q: W < 1 << 16)], 'one_ctor')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        cap, kl = [zi(e.U(s, e.load(s, at(k_), INT(n_)))) for k_, n_ in (('forms_capacity', 64), ('kl', 32))]
        e.check(s, kl == KL, 'the spacing is the product of the parameters'); s.assume(FDIVF(W, kl) == FDIVF(W, KL))
        e.check(s, cap >= FDIVF(W, kl) + 1, 'every checkpoint up to the wanted count has a slot'); e.check(s, cap < 1 << 57, 'the capacity is what was computed')
        p = e.load(s, at('forms'), PTR)
        e.check(s, p.o is s.g[('new', 0)] and isc(p.off) and p.off == 0, 'the store is the array that was allocated')
        e.check(s, p.o.size == 48 * cap, 'the array has as many forms as the capacity says')
        e.check(s, zeq(getf(e, s, PVal(p.o, 0)).cls, x), 'slot 0 is the input')
        e.check(s, zeq(e.U(s, e.load(s, at('wanted_iter'), INT(64))), W), 'the wanted count is kept')
        base_checks(e, s, at, D, L)
    return e

def t_two_ctor():
    mod, e, st = start('TwoWesolowskiCallback::TwoWesolowskiCallback')
    f = find(mod, r'^TwoWesolowskiCallback::TwoWesolowskiCallback\(')
    D = e.formD; x = z3.Int('x')
    o, at = blank(mod, st, 'TwoWesolowskiCallback')
    pD = arg_mpz(e, st, 'D', D); pf = arg_form(e, st, 'f', FormV(x, True, D))
    base_ctors(e); L = root_contract(e, D); form_arrays(e, st); atomics(e)
    outs = e.exec_fn(f, [PVal(o, 0), pD, pf], st)
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, zeq(e.U(s, e.load(s, at('forms_capacity'), INT(64))), CAP), 'the capacity is a tenth of the iterations before the change of spacing and a hundredth of those after it')
        p = e.load(s, at('forms'), PTR)
        e.check(s, p.o is s.g[('new', 0)] and isc(p.off) and p.off == 0 and same(p.o.size, 48 * CAP), 'the array has as many forms as the capacity says')
        e.check(s, zeq(getf(e, s, PVal(p.o, 0)).cls, x), 'slot 0 is the input')
        e.check(s, zeq(e.U(s, e.load(s, at('transition_state'), INT(64))), 0), 'no change of spacing is recorded')
        e.check(s, zeq(e.U(s, e.load(s, at('kl'), INT(32))), 10), 'the spacing is 10')
        base_checks(e, s, at, D, L)
    return e

# ---------------------------------------------------------------- n-segment proofs: one window of slots per segment length
SZ1, SZ2, WIN, NCHK = 6554, 21846, 20, 1 << 18
def f_begin(i): return 0 if i == 0 else WIN * (SZ1 + (i - 1) * SZ2)
def f_size(i): return SZ1 if i == 0 else SZ2
def f_len(i): return 1 << (16 + 2 * i)
def f_kl(i): return 10 if i == 0 else 12 << (2 * (i - 1))
def f_pos(x, i): return f_begin(i) + (x / f_len(i)) % WIN * f_size(i) + x % f_len(i) / f_kl(i)
def f_hit(x, i): return x % f_len(i) % f_kl(i) == 0
def f_cap(n): return WIN * (SZ1 + SZ2 * (n - 1))
def fast(e, mod, st, n, **kw):
    fo, A = forms_arr(e, st, 'forms', f_cap(n)); ch, C = forms_arr(e, st, 'checkpoints', NCHK)
    arr = z3.K(I_, z3.IntVal(0))
    for i in range(n): arr = z3.Store(arr, i, f_begin(i))
    o, at = obj(e, mod, st, 'FastAlgorithmCallback', forms=PVal(fo, 0), forms_capacity=i64(f_cap(n)), checkpoints=PVal(ch, 0), segments=i32(n), bucket_size1=i32(SZ1), bucket_size2=i32(SZ2), window_size=i32(WIN), buckets_begin=Vec(4, n, arr), **kw)
    return o, at, fo, A, ch, C

def t_fast_position(n, b):
    """GetPosition and GetForm"""
    mod, e, st = start('FastAlgorithmCallback::GetForm')
    f = find(mod, r'^FastAlgorithmCallback::GetForm\(')
    x, y = u(st, 'exponent'), u(st, 'other')
    o, at, fo, A, ch, C = fast(e, mod, st, n)
    outs = e.exec_fn(f, [PVal(o, 0), i64(x), i32(b)], st)
    cover(e, outs, [('a checkpoint', lambda q: z3.And(x > f_len(b), f_hit(x, b)))], 'fast_position')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        p = t.val; off = simp(zi(p.off))
        e.check(s, p.o is fo, 'the slot is in the store'); v = f_pos(x, b)
        e.check(s, off == 48 * v, 'the slot of an iteration is its offset in the segment, in steps of the spacing, in the window of its segment')
        e.check(s, z3.And(v >= f_begin(b), v < (f_begin(b + 1) if b + 1 < n else f_cap(n))), 'the slots of different segment lengths are disjoint and within the store')
        # two checkpoints, written as window, segment, step
        P_, kl, dec = f_len(b), f_kl(b), {}
        for z, nm in ((x, 'x'), (y, 'y')):
            w, k, j = z3.Ints('%s_window %s_segment %s_step' % (nm, nm, nm)); dec[nm] = (w, k, j)
            e.check(s, z3.Implies(z3.And(f_hit(z, b), z == P_ * (WIN * w + k) + kl * j, 0 <= k, k < WIN, 0 <= j, kl * j < P_), z3.And(z / P_ == WIN * w + k, z % P_ == kl * j)), 'the parts of an iteration')
        (w, k, j), (w2, k2, j2) = dec['x'], dec['y']
        t2 = State(); X_, Y_ = P_ * (WIN * w + k) + kl * j, P_ * (WIN * w2 + k2) + kl * j2
        for z, zw, zk, zj in ((X_, w, k, j), (Y_, w2, k2, j2)): t2.assume(z3.And(0 <= zk, zk < WIN, 0 <= zj, kl * zj < P_, zw >= 0))
        t2.assume(z3.And(X_ < Y_, Y_ < X_ + WIN * P_))
        e.check(t2, z3.And(j < f_size(b), j2 < f_size(b)), 'the steps of a segment fit its slots')
        e.check(t2, z3.Implies(k == k2, z3.Or(j != j2, w != w2)), 'different checkpoints differ in some part')
        e.check(t2, k * f_size(b) + j != k2 * f_size(b) + j2, 'a stored form is not overwritten before %d more segments have passed' % WIN)
    return e

def t_fast_iter(n, multi):
    mod, e, st = start('FastAlgorithmCallback::OnIteration', 'FastAlgorithmCallback')
    f = find(mod, r'^FastAlgorithmCallback::OnIteration\(')
    it, X, y0 = u(st, 'iteration'), z3.Int('X'), z3.Int('y_before'); ty = u(st, 'type', 31); st.assume(it < (1 << 64) - 1)
    p = it + 1
    o, at, fo, A, ch, C = fast(e, mod, st, n, multi_proc_machine=ival(8, multi), y_ret=FormV(y0, True, e.formD))
    d = data_arg(st); setform(e, d, ty, X)
    def getform(en, s, a, c):
        b = en.U(s, a[2]); x = zi(en.U(s, a[1]))
        if not isc(b): raise Unsupported('segment length is not concrete')
        en.check(s, 0 <= b < n, 'the segment length is one of those configured', c.ins)
        s.assume(z3.And(f_pos(x, b) >= 0, f_pos(x, b) < f_cap(n)))
        return [Out('ret', s, PVal(fo, 48 * f_pos(x, b)))]
    use(e, r'^FastAlgorithmCallback::GetForm\(', getform)
    e.unroll = dict(e.unroll); e.unroll[r'^FastAlgorithmCallback::OnIteration'] = 300
    outs = e.exec_fn(f, [PVal(o, 0), ival(32, ty, 0, (1 << 31) - 1), d, i64(it)], st)
    cover(e, outs, [('a segment end', lambda q: z3.And(q.kind == 'ret', p % (1 << 16) == 0)), ('an ordinary iteration', lambda q: p % 10 == 3), ('a refusal', lambda q: q.kind == 'throw')], 'fast_iter')
    F = A
    if not multi:
        for i in range(n): F = z3.If(f_hit(p, i), z3.Store(F, f_pos(p, i), X), F)
    for t in outs:
        s = t.st; end = p % (1 << 16) == 0; k = p / (1 << 16)
        if t.kind == 'throw':
            e.check(s, s.exc[0] == 'St13runtime_error', 'a standard exception'); e.check(s, z3.And(end, k >= NCHK), 'only iterations beyond the store are refused'); continue
        e.check(s, z3.Implies(end, k < NCHK), 'iterations beyond the store are refused')
        e.check(s, arr_of(s, fo) == F, 'the form lands in the slot of its iteration for every segment length that has a checkpoint there; nothing else is touched')
        e.check(s, arr_of(s, ch) == z3.If(end, z3.Store(C, k, X), C), 'entry k of the segment ends becomes the form after k*2^16 squarings')
        if multi: e.check(s, zeq(getf(e, s, at('y_ret')).cls, z3.If(p % (1 << 15) == 0, X, y0)), 'the resumption point is the form at the last multiple of 2^15')
    return e

def t_fast_ctor(n):
    mod, e, st = start('FastAlgorithmCallback::FastAlgorithmCallback')
    f = find(mod, r'^FastAlgorithmCallback::FastAlgorithmCallback\(')
    D = e.formD; x = z3.Int('x'); m = u(st, 'multi', 1)
    o, at = blank(mod, st, 'FastAlgorithmCallback')
    pD = arg_mpz(e, st, 'D', D); pf = arg_form(e, st, 'f', FormV(x, True, D))
    base_ctors(e); L = root_contract(e, D); form_arrays(e, st)
    outs = e.exec_fn(f, [PVal(o, 0), i32(n), pD, pf, ival(1, m, 0, 1)], st)
    for t in outs:
        s = t.st
        if n < 1:
            e.check(s, t.kind == 'throw' and s.exc[0] == 'St16invalid_argument', 'a store without segments is refused'); continue
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, zeq(e.U(s, e.load(s, at('forms_capacity'), INT(64))), f_cap(n)), 'the capacity is a window of slots for every segment length')
        p, q = e.load(s, at('forms'), PTR), e.load(s, at('checkpoints'), PTR)
        e.check(s, p.o is s.g[('new', 0)] and isc(p.off) and p.off == 0 and same(p.o.size, 48 * f_cap(n)), 'the array has as many forms as the capacity says')
        e.check(s, q.o is s.g[('new', 1)] and isc(q.off) and q.off == 0 and same(q.o.size, 48 * NCHK), 'there is room for the segment ends')
        v = e.getbig(s, at('buckets_begin'), Vec, None)
        e.check(s, zeq(v.len, n), 'one window per segment length')
        for i in range(n):
            e.check(s, zeq(z3.Select(v.arr, i), f_begin(i)), 'the windows are consecutive')
            e.check(s, zeq(getf(e, s, PVal(p.o, 48 * f_begin(i))).cls, x), 'slot 0 of every segment length is the input')
        e.check(s, zeq(getf(e, s, q).cls, x), 'entry 0 of the segment ends is the input')
        e.check(s, zeq(getf(e, s, at('y_ret')).cls, x), 'the resumption point starts as the input')
        for k, w in (('segments', n), ('bucket_size1', SZ1), ('bucket_size2', SZ2), ('window_size', WIN)): e.check(s, zeq(e.U(s, e.load(s, at(k), INT(32))), w), k + ' is set')
        e.check(s, zeq(e.U(s, e.load(s, at('multi_proc_machine'), INT(8))), m), 'the mode is kept')
        base_checks(e, s, at, D, L)
    return e

# ---------------------------------------------------------------- reading the current form (portable squaring path)
def t_setform(reduced):
    """SetForm(NL_FORM): the stored triple is the current one, handed to the reduction exactly when asked"""
    mod = lower('fast.cpp', extra=['-DCHIA_DISABLE_ASM'])
    e = engine(mod, False, 'WesolowskiCallback::SetForm'); st = State()
    f = find(mod, r'^WesolowskiCallback::SetForm\(')
    a, b, c = z3.Ints('a b c'); ra, rb, rc = z3.Ints('reduced_a reduced_b reduced_c')
    d = Obj('current', 48, 'arg'); st.mem[d] = OS(); g = Obj('slot', 48, 'arg'); st.mem[g] = OS()
    for o, vs in ((d, (a, b, c)), (g, z3.Ints('old_a old_b old_c'))):
        for i, v in enumerate(vs): e.mpz_new(st, PVal(o, 16 * i), v)
    rd = Obj('reducer', 16, 'arg'); st.mem[rd] = OS(); e.put(st, PVal(rd, 0), Opaque(16, 'reducer'))
    o, at = obj(e, mod, st, 'OneWesolowskiCallback', reducer=PVal(rd, 0))
    def red(en, s, ar, cc):
        for i, v in enumerate((a, b, c)): en.check(s, zeq(en.mpz_get(s, PVal(ar[1].o, add(ar[1].off, 16 * i)), cc.ins), v), 'the triple handed to the reduction is the current one', cc.ins)
        en.check(s, ar[1].o is g and isc(ar[1].off) and ar[1].off == 0, 'the stored form is what is reduced', cc.ins)
        for i, v in enumerate((ra, rb, rc)): en.mpz_set(s, PVal(ar[1].o, add(ar[1].off, 16 * i)), v, cc.ins)
        s.g['reduced'] = s.g.get('reduced', 0) + 1
        return [Out('ret', s, None)]
    use(e, r'^PulmarkReducer::reduce\(', red)
    outs = e.exec_fn(f, [PVal(o, 0), i32(nl_form(mod)), PVal(d, 0), PVal(g, 0), ival(1, reduced)], st)
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, s.g.get('reduced', 0) == (1 if reduced else 0), 'the form is reduced once exactly when asked')
        for i, (v, w) in enumerate(((a, ra), (b, rb), (c, rc))):
            e.check(s, zeq(e.mpz_get(s, PVal(g, 16 * i)), w if reduced else v), 'the stored form is ' + ('its reduction' if reduced else 'the current form'))
            e.check(s, zeq(e.mpz_get(s, PVal(d, 16 * i)), v), 'the current form is left alone')
    return e
def nl_form(mod):
    t = open(os.path.join(REPO, 'src', 'nudupl_listener.h')).read()
    return int(re.search(r'NL_FORM\s*(?:=)?\s*(\d+)', t).group(1))

# ---------------------------------------------------------------- intermediates filled in by other threads
SQ = z3.Function('squared', I_, I_)                              # SQ(0) = x, SQ(i+1) = 2 SQ(i)
FILL = z3.Function('filled', I_, ARR)                            # store after the first k iterations of the stretch
def t_fill(n):
    """FastStorage::CalculateIntermediatesInner"""
    mod, e, st = start('FastStorage::CalculateIntermediatesInner')
    f = find(mod, r'^FastStorage::CalculateIntermediatesInner\(')
    D = e.formD; x, L = z3.Ints('x L'); st.assume(L >= 1); i0 = u(st, 'iter_begin'); st.assume(i0 < (1 << 63))
    wo, wat, fo, A, ch, C = fast(e, mod, st, n)
    e.mpz_new(st, wat('D'), D); e.mpz_new(st, wat('L'), L)
    stop = u(st, 'stopped', 1)
    o, at = obj(e, mod, st, 'FastStorage', weso=PVal(wo, 0), stopped=ival(8, stop, 0, 1))
    py = arg_form(e, st, 'y', FormV(x, True, D))
    def getform(en, s, a, c):
        b = en.U(s, a[2]); q = zi(en.U(s, a[1]))
        if not isc(b): raise Unsupported('segment length is not concrete')
        s.assume(z3.And(f_pos(q, b) >= 0, f_pos(q, b) < f_cap(n)))
        return [Out('ret', s, PVal(fo, 48 * f_pos(q, b)))]
    use(e, r'^FastAlgorithmCallback::GetForm\(', getform)
    def sf(en, s, a, c):
        putf(en, s, a[3], FormV(needf(en, s, a[2], c.ins).cls, False, D), c.ins); en.check(s, zeq(en.U(s, a[1]), nl_form(mod)), 'the form is handed over as a form', c.ins)
        return [Out('ret', s, None)]
    use(e, r'^WesolowskiCallback::SetForm\(', sf)
    def addi(en, s, a, c):
        en.check(s, zeq(en.U(s, a[1]), i0), 'the stretch reported is the one that was filled', c.ins); s.g['reported'] = s.g.get('reported', 0) + 1; s.g['at_report'] = arr_of(s, fo)
        return [Out('ret', s, None)]
    use(e, r'^FastStorage::AddIntermediates\(', addi)
    def H(ctx):
        if len(e.loopstack) != 1: return []
        C_ = []
        for loc in ctx.locs(FormV): C_.append(('the class after k squarings', (loc, 0), lambda k: SQ(zi(k))))
        C_.append(('the store after k iterations', ((fo, 'arr'), 0), lambda k: FILL(zi(k))))
        C_.append(('at most 2^15 rounds', lambda v, k: zi(k) <= 1 << 15))
        return C_
    def ax(s, k):
        k = zi(k); F = FILL(k); p = i0 + k
        for i in range(n): F = z3.If(f_hit(p, i), z3.Store(F, f_pos(p, i), SQ(k)), F)
        return [FILL(0) == A, FILL(k + 1) == F, SQ(0) == x, SQ(k + 1) == 2 * SQ(k)]
    H.axioms = ax; e.loop_hints[''] = H; e.unroll_depth = {2: 300}
    outs = e.exec_fn(f, [PVal(o, 0), py, i64(i0)], st)
    cover(e, outs, [('a finished stretch', lambda q: q.kind == 'ret' and q.st.g.get('reported') == 1)], 'fill')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        if not s.g.get('reported'): e.check(s, stop == 1, 'the stretch is reported unless stopped'); continue
        e.check(s, s.g.get('reported') == 1, 'the stretch is reported once')
        e.check(s, s.g.get('at_report') is not None and s.g['at_report'] == FILL(1 << 15), 'the store holds every checkpoint of the 2^15 iterations when the stretch is reported')
    return e

def t_add():
    """FastStorage::AddIntermediates marks the half segment that was filled, and wakes the proving side when the segment is complete"""
    mod, e, st = start('FastStorage::AddIntermediates')
    f = find(mod, r'^FastStorage::AddIntermediates\(')
    it = u(st, 'iter'); st.assume(z3.And(it % (1 << 15) == 0, it < 1 << 34))
    bo = Obj('flags', 1 << 19, 'arg'); A = z3.Array('flags_before', I_, I_); st.mem[bo] = OS(arr=A, es=1)
    q = z3.Int('q'); h = it / (1 << 15)
    for i in (h, h - 1, h + 1): st.assume(z3.And(z3.Select(A, i) >= 0, z3.Select(A, i) <= 1))
    o, at = obj(e, mod, st, 'FastStorage', intermediates_stored=PVal(bo, 0))
    mutexes(e)
    def notify(en, s, a, c): s.g['woken'] = True; return [Out('ret', s, None)]
    use(e, r'^std::condition_variable::notify_(one|all)\(\)$', notify)
    outs = e.exec_fn(f, [PVal(o, 0), i64(it)], st)
    cover(e, outs, [('a completed segment', lambda t: t.st.g.get('woken') is True), ('half a segment', lambda t: t.st.g.get('woken') is None)], 'add')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, arr_of(s, bo) == z3.Store(A, h, 1), 'the half segment is marked; nothing else is touched')
        other = z3.If(h % 2 == 0, h + 1, h - 1)
        e.check(s, (z3.Select(A, other) != 0) == z3.BoolVal(bool(s.g.get('woken'))), 'the proving side is woken exactly when the other half was there already')
        e.check(s, not held(s), 'the mutex is released')
        if s.g.get('woken'):
            ev = e.load(s, e.gptr(s, 'new_event'), INT(8)); e.check(s, e.truth(s, ev), 'an event is recorded')
    return e

def t_finished():
    """FastStorage::GetFinishedSegment: everything before the iteration it returns is filled"""
    mod, e, st = start('FastStorage::GetFinishedSegment')
    f = find(mod, r'^FastStorage::GetFinishedSegment\(')
    i0 = u(st, 'from'); st.assume(z3.And(i0 % (1 << 16) == 0, i0 < 1 << 34)); m0 = i0 / (1 << 16)
    bo = Obj('flags', 1 << 19, 'arg'); A = z3.Array('flags', I_, I_); st.mem[bo] = OS(arr=A, es=1)
    # the last pair of flags is never set: the store is sized so
    i = z3.Int('i'); st.assume(z3.ForAll([i], z3.And(z3.Select(A, i) >= 0, z3.Select(A, i) <= 1)))
    st.assume(z3.Select(A, (1 << 19) - 1) == 0)
    o, at = obj(e, mod, st, 'FastStorage', intermediates_stored=PVal(bo, 0), intermediates_iter=i64(i0))
    FULL = z3.Function('all_filled', I_, z3.BoolSort())          # segments m0 .. m0+k-1 are filled
    def H(ctx):
        return [('filled so far', lambda v, k: FULL(zi(k))), ('within the store', lambda v, k: m0 + zi(k) <= NCHK - 1)]
    H.axioms = lambda s, k: [FULL(0), FULL(zi(k) + 1) == z3.And(FULL(zi(k)), z3.Select(A, 2 * (m0 + zi(k))) != 0, z3.Select(A, 2 * (m0 + zi(k)) + 1) != 0)]
    e.loop_hints[''] = H
    ks = []
    e.loop_exit_hook = lambda en, fn, hdr, k, out: out.st.g.__setitem__('rounds', k)
    outs = e.exec_fn(f, [PVal(o, 0)], st)
    cover(e, outs, [('a result', lambda q: q.kind == 'ret')], 'finished')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        k = zi(s.g['rounds']); v = zi(e.U(s, t.val))
        e.check(s, v == i0 + (1 << 16) * k, 'the result is the start of a segment')
        e.check(s, FULL(k), 'every segment before it is filled')
        e.check(s, z3.Not(z3.And(z3.Select(A, 2 * (m0 + k)) != 0, z3.Select(A, 2 * (m0 + k) + 1) != 0)), 'it stops at the first segment that is not')
        e.check(s, zeq(e.U(s, e.load(s, at('intermediates_iter'), INT(64))), v), 'the position is remembered')
        e.check(s, arr_of(s, bo) == A, 'the flags are left alone')
    return e

"""The squaring loop (vdf.h): repeated_square and the two portable batches under it."""
import z3
from vf import *
import ir
from specs import group
from specs.group import *
from specs.store import i64, held, mutexes
from specs.segments import SQN
from forms import FormV, getf, putf, needf
from lib_std import getvec, Str
import eng as E
STEP, BATCH, CAP = 1 << 15, 10000, 16190000

def t_main(cfg):
    """repeated_square: squarings are done and reported once each, in order and without gaps, from 0 on; the published count never runs
    ahead of the reports nor 2^15 behind; checkpoints, change of spacing and wake-ups happen at the right counts"""
    mod = lower('manager.cpp', extra=['-DCHIA_DISABLE_ASM'] if cfg == 'portable' else []); e = engine(mod, True, 'repeated_square'); st = State(); D = z3.Int('D'); st.assume(D < 0); e.formD = D; group.install(e)
    f = find(mod, r'^repeated_square\('); L = z3.Int('L'); st.assume(L >= 1); T = u(st, 'iterations'); st.assume(T < 1 << 62); mx = lambda a, b: z3.If(a >= b, a, b)
    cl = mod.members('FastAlgorithmCallback'); wo = Obj('weso', cl[''], 'arg'); st.mem[wo] = OS(); vo = Obj('vdf_original', None, 'arg'); st.mem[vo] = OS(); e.store(st, PVal(wo, cl['vdfo']), PVal(vo, 0), None)
    so = Obj('stop_signal', 1, 'arg'); st.mem[so] = OS(); fs = Obj('fast_storage', None, 'arg'); st.mem[fs] = OS(); multi = z3.Bool('with_storage')
    fast, two = z3.Bool('n_segment'), z3.Bool('two_level'); st.assume(z3.And(z3.Not(z3.And(fast, two)), z3.Implies(multi, fast), z3.Implies(z3.Or(fast, two), T == 0)))
    for n, v in (('fast_algorithm', fast), ('two_weso', two)): e.store(st, e.gptr(st, n), ival(8, z3.If(v, 1, 0), 0, 1), None)
    G = st.g; G['next'] = z3.IntVal(0); G['pub'] = z3.IntVal(0); G['stop'] = z3.BoolVal(False); G['switch'] = z3.IntVal(-1); G['told'] = z3.IntVal(-1); G['sent'] = z3.IntVal(-1)
    def y(s): n = s.g['next']; putf(e, s, PVal(wo, cl['y_ret']), FormV(SQN(simp(n - n % STEP)), True, D))
    y(st); x = SQN(z3.IntVal(0)); pf = arg_form(e, st, 'f', FormV(x, True, D)); pD, pL = arg_mpz(e, st, 'D', D), arg_mpz(e, st, 'L', L)
    use(e, r'^std::atomic<bool>::operator bool\(\) const$', lambda en, s, a, c: (lambda v: (s.assume(z3.Implies(s.g['stop'], v)), s.g.__setitem__('stop', v), [Out('ret', s, boolv(v))])[2])(fresh('stop', z3.BoolSort())))
    def passed_on(en, s, ins=None):
        P = s.g['pub']; en.check(s, z3.Implies(z3.And(fast, z3.Not(multi), P > 0), s.g['told'] >= P - P % 65536), 'the event loop is woken for every 2^16 squarings published', ins); en.check(s, z3.Implies(z3.And(fast, multi, P > 0), s.g['sent'] >= P - P % STEP), 'every checkpoint passed is submitted', ins)
    def publish(en, s, a, c):
        en.check(s, a[0].o is wo and a[0].off == cl['iterations'], 'the count published is that of the store', c.ins); v = zi(en.S(s, a[1]))
        en.check(s, z3.And(v >= s.g['pub'], v <= s.g['next']), 'the published count grows and never runs ahead of the reports', c.ins); passed_on(en, s, c.ins); s.g['pub'] = v; return [Out('ret', s, a[1])]
    use(e, r'^std::__atomic_base<long>::operator=\(long\)$|^std::(__atomic_base|atomic)<[^>]*>::store\(', publish)
    def room(en, s, n, c):
        S = s.g['switch']; en.check(s, z3.Implies(two, z3.If(S == -1, n <= 10 * (CAP - 1), S / 10 + (n - S) / 100 <= CAP - 1)), 'the two-level store has room for every checkpoint reported', c.ins)
        en.check(s, z3.Implies(two, z3.If(S == -1, n < 91000000 + STEP + BATCH, n < 799500000 + STEP + BATCH)), 'the change of spacing and the end come in time', c.ins)
    def batch(q):                # one of the batches: its arguments by position
        def h(en, s, a, c):
            F, b, n, l = (a[i] for i in q[:4]); b, n = zi(en.U(s, b)), zi(en.U(s, n)); v = needf(en, s, F, c.ins, D); s.assume(b + n < 1 << 62)      # fewer than 2^62 squarings in one run
            if q[4] is not None: en.check(s, a[q[4]].o is vo, 'with the squarer of the store', c.ins)
            for k, w in zip(q[5], (D, L)):
                if 'original' not in c.dem: en.check(s, zeq(en.mpz_get(s, a[k], c.ins), w), 'over the discriminant and its root', c.ins)
            en.check(s, l.o is wo, 'squarings are reported to the store', c.ins); en.check(s, zeq(v.cls, SQN(b)), 'the batch starts from the form after its first count', c.ins)
            en.check(s, z3.And(b >= 0, b <= s.g['next']), 'no squaring is left out of the reports', c.ins); room(en, s, b + n, c); out = []
            if 'fast' in c.dem:
                r = fresh('done'); s2 = s.copy(); k = fresh('reported'); s2.assume(z3.And(k >= s2.g['next'], k <= mx(s2.g['next'], b + n))); s2.g['next'] = k
                yk = fresh('y_class'); putf(en, s2, PVal(wo, cl['y_ret']), FormV(yk, True, D)); out.append(Out('ret', s2, i64((1 << 64) - 1)))     # bad state found: f is unchanged
                s.assume(z3.And(r >= 0, r <= n)); n = r
            s.g['next'] = simp(mx(s.g['next'], b + n)); s.g['at'] = simp(b + n); putf(en, s, F, FormV(SQN(simp(b + n)), True, D)); y(s)
            return out + [Out('ret', s, i64(n) if 'fast' in c.dem else None)]
        return h
    use(e, r'^repeated_square_original\(', batch((1, 4, 5, 6, 0, (2, 3)))); use(e, r'^repeated_square_nudupl\(', batch((0, 3, 4, 6, None, (1, 2)))); use(e, r'^repeated_square_fast\(', batch((1, 4, 5, 6, None, (2, 3))))
    use(e, r'^square_state_type::~?square_state_type\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    def submit(en, s, a, c):
        en.check(s, a[0].o is fs, 'the segment storage', c.ins); n = zi(en.U(s, a[2])); v = needf(en, s, a[1], c.ins, D); en.check(s, zeq(v.cls, SQN(n)), 'the checkpoint submitted is the form after that count', c.ins)
        en.check(s, z3.And(n % STEP == 0, n == s.g['sent'] + z3.If(s.g['sent'] == -1, 1, STEP)), 'checkpoints are submitted every 2^15, none left out', c.ins); s.g['sent'] = n; return [Out('ret', s, None)]
    use(e, r'^FastStorage::SubmitCheckpoint\(', submit)
    def gt(en, s, a, c): k = a[1].o.name; en.check(s, not s.g.get(('lock', k)), 'the mutex is not taken twice', c.ins); s.g[('lock', k)] = True; s.g[('guard', a[0].o.id)] = k; return [Out('ret', s, None)]
    def gd(en, s, a, c): s.g[('lock', s.g[('guard', a[0].o.id)])] = False; return [Out('ret', s, None)]
    use(e, r'^std::lock_guard<std::mutex>::lock_guard\(', gt); use(e, r'^std::lock_guard<std::mutex>::~lock_guard\(', gd)
    ev = e.gptr(st, 'new_event')
    def notify(en, s, a, c):
        en.check(s, zeq(en.U(s, en.load(s, ev, ir.INT(8))), 1), 'the event is set before the event loop is woken', c.ins); s.g['told'] = simp(s.g['pub'] - s.g['pub'] % 65536); return [Out('ret', s, None)]
    use(e, r'^std::condition_variable::notify_all\(\)$', notify)
    use(e, r'^TwoWesolowskiCallback::LargeConstants\(\)$', lambda en, s, a, c: [Out('ret', s, boolv(simp(s.g['switch'] != -1)))])
    def inc(en, s, a, c):
        n = zi(en.U(s, a[1])); en.check(s, z3.And(n % 100 == 0, n == s.g['next'], s.g['switch'] == -1, n >= 91000000), 'the spacing changes once, at a multiple of 100 that is the count reported', c.ins); s.g['switch'] = n; return [Out('ret', s, None)]
    use(e, r'^TwoWesolowskiCallback::IncreaseConstants\(unsigned long\)$', inc)
    use(e, r'^void generic::print<', lambda en, s, a, c: [Out('ret', s, None)])
    g = lambda v, k: v.cell(('ghost', k))
    def H(ctx):
        loc = {o.name: (o, 0) for o in ctx.entry.mem if o.name in ('%num_iterations', '%last_checkpoint')}
        if len(loc) != 2: return []
        ni, lc = loc['%num_iterations'], loc['%last_checkpoint']; N = lambda v: zi(v.cell(ni).e); C = lambda v: zi(v.cell(lc).e)
        R = [('everything counted is reported', lambda v, k: z3.And(N(v) == g(v, 'next'), N(v) >= 0)), ('the form after the count', lambda v, k: v.cell((pf.o, 0)).cls == SQN(N(v))),
             ('the form reported last at a multiple of 2^15', lambda v, k: v.cell((wo, cl['y_ret'])).cls == SQN(N(v) - N(v) % STEP)),
             ('the next checkpoint', lambda v, k: z3.And(C(v) % STEP == 0, C(v) >= 0, z3.Or(z3.And(C(v) == 0, N(v) == 0), z3.And(N(v) < C(v), C(v) <= N(v) + STEP)))),
             ('the published count', lambda v, k: z3.And(g(v, 'pub') <= N(v), g(v, 'pub') >= 0, z3.Or(C(v) == 0, g(v, 'pub') >= C(v) - STEP))),
             ('the last checkpoint submitted', lambda v, k: z3.Implies(z3.And(fast, multi), g(v, 'sent') == z3.If(C(v) == 0, -1, C(v) - STEP))),
             ('woken for every 2^16 published', lambda v, k: z3.Implies(z3.And(fast, z3.Not(multi), C(v) > 0), g(v, 'told') >= g(v, 'pub') - g(v, 'pub') % 65536)),
             ('not all done yet', lambda v, k: z3.Or(T == 0, N(v) <= T)),
             ('the change of spacing', lambda v, k: z3.Implies(two, z3.And(z3.If(g(v, 'switch') == -1, z3.Or(g(v, 'pub') < 91000000, C(v) == 0), z3.And(g(v, 'switch') % 100 == 0, g(v, 'switch') >= 91000000, g(v, 'switch') < 91000000 + STEP + BATCH + 100, g(v, 'switch') <= N(v)))))),
             ('the end is not reached', lambda v, k: z3.Implies(two, z3.And(g(v, 'pub') < 799500000, N(v) - g(v, 'pub') < STEP)))]
        return R
    e.loop_hints[''] = H
    fsp = PVal(fs, 0)
    outs = []
    for w in (True, False):
        s = st.copy(); s.assume(multi if w else z3.Not(multi)); outs += e.exec_fn(f, [i64(T), pf, pD, pL, PVal(wo, 0), fsp if w else PVal(None, 0), PVal(so, 0)], s)
    cover(e, outs, [('done', lambda t: t.kind == 'ret' and z3.And(T > 0, T < t.st.g['next'])), ('stopped', lambda t: t.kind == 'ret' and t.st.g['stop']), ('the end of the two-level store', lambda t: t.kind == 'ret' and z3.And(two, t.st.g['next'] > 799500000, z3.Not(t.st.g['stop'])))], 'loop')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, not held(s), 'no lock is left held'); e.check(s, z3.Or(s.g['stop'], z3.And(T > 0, s.g['pub'] > T), z3.And(two, s.g['pub'] >= 799500000)), 'it ends when stopped, when the requested count has been passed and published, or when the two-level store is full')
    return e

# ---------------------------------------------------------------- the batches
def raw(name):
    mod = lower('manager.cpp', extra=['-DCHIA_DISABLE_ASM']); e = engine(mod, False, name); st = State(); st.assume(z3.Int('D') < 0); return mod, e, st
def triple(e, s, p): return [e.mpz_get(s, PVal(p.o, add(p.off, 16 * i))) for i in range(3)]
def same3(x, y): return z3.And(*[zi(a) == zi(b) for a, b in zip(x, y)])
KEYS = ('a', 'b', 'c')
def current(s): return [s.g[k] for k in KEYS]
def step(e, s, q, double):
    """a new triple: that of the doubled class, or another one of the same class"""
    t = [fresh('n' + k) for k in KEYS]; s.assume(t[0] > 0)
    for i, (k, v) in enumerate(zip(KEYS, t)): e.mpz_set(s, PVal(q.o, add(q.off, 16 * i)), v); s.g[k] = v
    if double: s.g['n'] = simp(s.g['n'] + 1)
def t_batch(which):
    """one batch: each squaring is done once and reported, with the form after it and its own count, before the next"""
    mod, e, st = raw('repeated_square_' + which); f = find(mod, r'^repeated_square_%s\(' % which); D, L = z3.Ints('D L'); base, n = u(st, 'base'), u(st, 'iterations'); st.assume(z3.And(L >= 1, base + n < 1 << 62))
    a = [z3.Int(k + '0') for k in KEYS]; st.assume(a[0] > 0)
    fo = Obj('f', 48, 'arg'); st.mem[fo] = OS(); pf = PVal(fo, 0)
    for i, v in enumerate(a): e.mpz_new(st, PVal(fo, 16 * i), v)
    for k, v in zip(KEYS, a): st.g[k] = v
    st.g['n'] = z3.IntVal(0); st.g['told'] = z3.IntVal(0)
    pD, pL = arg_mpz(e, st, 'D', D), arg_mpz(e, st, 'L', L);
    lo = Obj('listener', None, 'arg'); st.mem[lo] = OS(); e.store(st, PVal(lo, 0), PVal(e.gptr(st, '_ZTV21FastAlgorithmCallback').o, 16), None)
    def report(en, s, a, c):
        en.check(s, a[0].o is lo, 'the listener given', c.ins); en.check(s, zeq(en.U(s, a[1]), 2), 'reported as a form', c.ins); en.check(s, same3(triple(en, s, a[2]), current(s)), 'the form reported is the one after the squaring', c.ins)
        en.check(s, z3.And(s.g['n'] == s.g['told'] + 1, zeq(en.U(s, a[3]), base + s.g['told'])), 'each squaring is reported once, with its own count', c.ins); s.g['told'] = simp(s.g['told'] + 1); return [Out('ret', s, None)]
    use(e, r'^FastAlgorithmCallback::OnIteration\(', report)
    def nd(en, s, a, c):
        en.check(s, same3(triple(en, s, a[1]), current(s)), 'the current form is squared', c.ins); en.check(s, z3.And(zeq(en.mpz_get(s, a[2], c.ins), D), zeq(en.mpz_get(s, a[3], c.ins), L)), 'over the discriminant and its root', c.ins)
        step(en, s, a[0], True); return [Out('ret', s, None)]
    use(e, r'^nudupl_form\(', nd)
    def red(en, s, a, c): en.check(s, same3(triple(en, s, a[1]), current(s)), 'the current form is reduced', c.ins); step(en, s, a[1], False); return [Out('ret', s, None)]
    use(e, r'^(WesolowskiCallback|PulmarkReducer)::reduce\(form&\)$', red)
    use(e, r'^PulmarkReducer::~?PulmarkReducer\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    cls = mod.members('vdf_original') if which == 'original' else None
    vd = Obj('vdfo', None, 'arg'); st.mem[vd] = OS(); wo = Obj('weso', None, 'arg'); st.mem[wo] = OS()
    if which == 'original':
        f3 = PVal(vd, cls['f3'])
        for i in range(3): e.mpz_new(st, PVal(vd, cls['f3'] + 16 * i), z3.Int('f3_%d' % i))
        def sq(en, s, a, c): en.check(s, a[0].o is vd, 'with the squarer given', c.ins); en.check(s, same3(triple(en, s, a[1]), current(s)), 'the current form is squared', c.ins); step(en, s, f3, True); return [Out('ret', s, f3)]
        use(e, r'^vdf_original::square\(', sq)
    p1 = 1 if which == 'original' else 0           # the squarer hands back a form of its own from the first squaring on: that one is taken apart
    if p1: e.peel = (r'^repeated_square_original',)
    def H(ctx):
        R = [('counts', lambda v, k: z3.And(v.cell(('ghost', 'n')) == zi(k) + p1, zi(k) + p1 <= n)), ('reports', lambda v, k: z3.Implies(listens, v.cell(('ghost', 'told')) == zi(k) + p1)), ('a is positive', lambda v, k: v.cell(('ghost', 'a')) > 0)]
        src = (lambda k: PVal(fo, 0)) if which != 'original' else (lambda k: f3)
        R += [('the form is the current one', lambda v, k: same3([v.cell((src(k).o, src(k).off + 16 * i)).val for i in range(3)], [v.cell(('ghost', q)) for q in KEYS]))]
        return R
    e.loop_hints[''] = H; outs = []
    for has in (True, False):
        for w in ((True, False) if which == 'nudupl' else (True,)):
            s = st.copy(); listens = z3.BoolVal(has); pl = PVal(lo, 0) if has else PVal(None, 0)
            args = [PVal(vd, 0), pf, pD, pL, i64(base), i64(n), pl] if which == 'original' else [pf, pD, pL, i64(base), i64(n), PVal(wo, 0) if w else PVal(None, 0), pl]
            for t in e.exec_fn(f, args, s): t.st.g['has'] = listens; outs.append(t)
    cover(e, outs, [('none', lambda q: n == 0), ('many', lambda q: n > 5)], 'batch')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, same3(triple(e, s, pf), current(s)), 'the form left is the one after all of them'); e.check(s, z3.And(s.g['n'] == n, z3.Implies(s.g['has'], s.g['told'] == n)), 'all squarings asked for were done and reported')
    return e

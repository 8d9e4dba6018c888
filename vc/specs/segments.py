"""The segment provers and the assembly of their proofs (prover_impl.hpp, provers.h, vdf.h)."""
import z3
from vf import *
import ir
from specs import group
from specs.group import *
from specs.store import obj, blank, i64, i32, start, atomics, SWITCH, MAXIT, LASTP, f_kl, f_hit, f_len, root_contract, forms_arr
from forms import FormV, getf, putf, needf
from lib_gmp import bitlen, BYTE
from lib_std import getvec, Str

SQN = z3.Function('class_after', I_, I_)                # SQN(p): the class after p squarings of the input; SQN(p+1) = 2 SQN(p)
QUO = z3.Function('quotient_power', I_, I_, I_, I_)     # (T, B, x): the class of x^floor(2^T/B)

# ---------------------------------------------------------------- constructors and the questions GenerateProof asks
def seg_at(e, mod, st, p, s0, ln, x, y):
    m = mod.members('Segment'); q = lambda n: PVal(p.o, p.off + m[n])
    e.store(st, q('start'), i64(s0), None); e.store(st, q('length'), i64(ln), None); e.store(st, q('is_empty'), ival(8, 0), None)
    putf(e, st, q('x'), FormV(x, True, e.formD)); putf(e, st, q('y'), FormV(y, True, e.formD)); putf(e, st, q('proof'), FormV(None))
def seg_arg(e, mod, st, s0, ln, x, y):
    o = Obj('segment', mod.members('Segment')[''], 'arg'); st.mem[o] = OS(); seg_at(e, mod, st, PVal(o, 0), s0, ln, x, y); return PVal(o, 0)
def getseg(e, mod, s, p):
    m = mod.members('Segment'); q = lambda n: PVal(p.o, p.off + m[n])
    return zi(e.U(s, e.load(s, q('start'), INT(64)))), zi(e.U(s, e.load(s, q('length'), INT(64)))), getf(e, s, q('x')), getf(e, s, q('y'))

def t_ctor(cls, b=0):
    """the prover works on its segment with the spacing of the store that feeds it"""
    mod, e, st = start(cls + '::' + cls)
    f = find(mod, r'^%s::%s\(' % (cls, cls))
    D = e.formD; x, y = z3.Ints('x y'); s0, T = u(st, 'start'), u(st, 'length')
    o, at = blank(mod, st, cls)
    sg = seg_arg(e, mod, st, s0, T, x, y); pD = arg_mpz(e, st, 'D', D)
    src = Obj('source', 1 << 20, 'arg'); st.mem[src] = OS()
    sig = Obj('stop', 1, 'arg'); st.mem[sig] = OS(); e.store(st, PVal(sig, 0), ival(8, u(st, 'stop', 1), 0, 1), None)
    K_, L_ = z3.Ints('k l')
    def params(en, s, a, c):
        en.check(s, zeq(en.U(s, a[0]), T), 'parameters are chosen for the length of the segment', c.ins)
        en.check(s, T >= 1 << 16, 'the table of parameters applies', c.ins)
        s.assume(z3.And(K_ >= 1, K_ <= 40, L_ >= 1, L_ <= 1 << 20))
        en.store(s, a[1], IVal(32, L_, 1, 1 << 20), c.ins); en.store(s, a[2], IVal(32, K_, 1, 40), c.ins)
        return [Out('ret', s, None)]
    use(e, r'^ApproximateParameters\(', params)
    use(e, r'^std::(thread|condition_variable|mutex)::(thread|condition_variable|mutex)\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    args = [PVal(o, 0), sg, pD, PVal(src, 0)]
    if cls == 'InterruptableProver': st.assume(T == f_len(b))
    else: args.append(PVal(sig, 0))
    outs = e.exec_fn(f, args, st)
    cover(e, outs, [('a prover', lambda q: q.kind == 'ret')], 'ctor')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        i = lambda n, w: zi(e.U(s, e.load(s, at(n), INT(w))))
        g = getseg(e, mod, s, at('segm'))
        e.check(s, z3.And(g[0] == s0, g[1] == T, zeq(g[2].cls, x), zeq(g[3].cls, y)), 'the segment is kept'); e.check(s, i('num_iterations', 64) == T, 'the iteration count is the length of the segment')
        e.check(s, zeq(e.mpz_get(s, at('D')), D), 'the discriminant is kept'); e.check(s, i('is_finished', 8) == 0, 'no proof yet')
        k, l = i('k', 32), i('l', 32)
        if cls == 'OneWesolowskiProver':
            e.check(s, z3.If(T >= 1 << 16, z3.And(k == K_, l == L_), z3.And(k == 10, l == 1)), 'block parameters are those of the store')
        elif cls == 'TwoWesolowskiProver':
            e.check(s, z3.And(k == 10, l == z3.If(T < 10000000, 1, 10)), 'checkpoints are taken every 10 iterations, every 100 for segments from ten million on'); e.check(s, i('done_iterations', 64) == s0, 'positions count from the start of the segment')
        else:
            e.check(s, z3.And(k >= 10, k <= 12, l >= 1, k * l == f_kl(b)), 'the spacing is that of the store for this length'); e.check(s, i('done_iterations', 64) == s0, 'positions count from the start of the segment'); e.check(s, zeq(e.S(s, e.load(s, at('bucket'), INT(32))), b), 'the window is that of this length')
        fld = 'intermediates' if cls == 'OneWesolowskiProver' else 'weso'
        p = e.load(s, at(fld), PTR); e.check(s, p.o is src and isc(p.off) and p.off == 0, 'the store is the one given')
    return e

def t_getform(cls, b=0):
    """checkpoint i of the segment is the form k*l*i iterations after its start"""
    mod, e, st = start(cls + '::GetForm')
    f = find(mod, r'^%s::GetForm\(' % cls)
    D = e.formD; s0, i, k, l, KL = u(st, 'start'), u(st, 'i'), u(st, 'k', 6), u(st, 'l', 20), z3.Int('kl')
    st.assume(z3.And(k >= 1, l >= 1, KL == k * l, i * k * l == i * KL, s0 + i * KL < 1 << 62, i * KL >= 0, i * k >= 0, i * k <= i * KL, i < 1 << 40))
    r = sret(st, 'result', 48); X = z3.Function('stored_at', I_, I_); want = s0 + i * KL
    if cls == 'OneWesolowskiProver':
        src, A = forms_arr(e, st, 'forms', 1 << 45)
        o, at = obj(e, mod, st, cls, intermediates=PVal(src, 0)); exp = z3.Select(A, i)
    else:
        src = Obj('source', 1 << 20, 'arg'); st.mem[src] = OS(); fl = dict(bucket=ival(32, b)) if cls == 'InterruptableProver' else {}
        o, at = obj(e, mod, st, cls, weso=PVal(src, 0), done_iterations=i64(s0), k=ival(32, k), l=ival(32, l), **fl); exp = X(want)
    def copy(en, s, a, c):
        q = zi(en.U(s, a[2])); en.check(s, q == want, 'the form k*l*i iterations after the start is asked for', c.ins); en.check(s, a[1].o is src, 'from the store of this prover', c.ins)
        putf(en, s, a[0], FormV(X(q), True, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^TwoWesolowskiCallback::GetFormCopy\(', copy)
    def getf2(en, s, a, c):
        q = zi(en.U(s, a[1])); en.check(s, q == want, 'the form k*l*i iterations after the start is asked for', c.ins); en.check(s, a[0].o is src, 'from the store of this prover', c.ins)
        en.check(s, zeq(en.S(s, a[2]), b), 'from the window of this segment length', c.ins)
        w = Obj('slot', 48, 'arg'); s.mem[w] = OS(); putf(en, s, PVal(w, 0), FormV(X(q), True, D)); return [Out('ret', s, PVal(w, 0))]
    use(e, r'^FastAlgorithmCallback::GetForm\(', getf2)
    if cls == 'InterruptableProver': st.assume(z3.And(KL == f_kl(b), s0 % f_len(b) == 0, i * KL < f_len(b)))
    outs = e.exec_fn(f, [r, PVal(o, 0), i64(i)], st)
    cover(e, outs, [('a form', lambda q: q.kind == 'ret')], 'getform')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind == 'ret': e.check(s, zeq(getf(e, s, r).cls, exp), 'the form handed back is that checkpoint')
    if cls == 'InterruptableProver':
        M = z3.Int('m'); st.assume(z3.And(s0 == f_len(b) * M, M >= 0)); e.check(st, f_hit(want, b), 'lemma: the iteration asked for is one the store keeps for this segment length')
    return e

def t_steps(cls):
    """PerformExtraStep tells whether to go on; OnFinish announces the proof"""
    mod, e, st = start(cls + '::PerformExtraStep')
    stop, fin, fully = u(st, 'stop', 1), u(st, 'finished', 1), u(st, 'fully', 1)
    if cls == 'InterruptableProver': o, at = obj(e, mod, st, cls, is_finished=ival(8, fin, 0, 1), is_fully_finished=ival(8, fully, 0, 1), is_paused=ival(8, 0))
    else:
        sig = Obj('stop', 1, 'arg'); st.mem[sig] = OS(); e.store(st, PVal(sig, 0), ival(8, stop, 0, 1), None)
        o, at = obj(e, mod, st, cls, is_finished=ival(8, fin, 0, 1), stop_signal=PVal(sig, 0))
    from specs.store import mutexes, held
    mutexes(e)
    def wait(en, s, a, c): s.g['waited'] = True; return [Out('ret', s, None)]
    use(e, r'^void std::condition_variable::wait<InterruptableProver::', wait)
    def notify(en, s, a, c): s.g['woken'] = s.g.get('woken', 0) + 1; s.g['then'] = zi(en.U(s, en.load(s, at('is_finished'), INT(8)))); return [Out('ret', s, None)]
    use(e, r'^std::condition_variable::notify_(one|all)\(\)$', notify)
    s1 = st.copy()
    f = find(mod, r'^%s::PerformExtraStep\(\)$' % cls)
    for t in e.exec_fn(f, [PVal(o, 0)], st):
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        v = zi(e.U(s, t.val))
        if cls == 'InterruptableProver':
            e.check(s, (v != 0) == (fin == 0), 'the proof goes on unless the prover was stopped'); e.check(s, bool(s.g.get('waited')) or fin == 1, 'a paused prover waits'); e.check(s, not held(s), 'the mutex is released')
        else: e.check(s, (v != 0) == (stop == 0), 'the proof goes on until the stop signal')
    f = find(mod, r'^%s::OnFinish\(\)$' % cls)
    for t in e.exec_fn(f, [PVal(o, 0)], s1):
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, zi(e.U(s, e.load(s, at('is_finished'), INT(8)))) == 1, 'the proof is marked finished')
        if cls == 'InterruptableProver':
            e.check(s, zi(e.U(s, e.load(s, at('is_fully_finished'), INT(8)))) == 1, 'the prover is marked as done')
            ev = zi(e.U(s, e.load(s, e.gptr(s, 'new_event'), INT(8)))); w = s.g.get('woken', 0)
            e.check(s, z3.Implies(fully == 0, z3.And(ev == 1, z3.BoolVal(w == 1))), 'the event loop is told, after the mark is set'); e.check(s, not held(s), 'the mutex is released')
            if w: e.check(s, s.g['then'] == 1, 'the mark is set before the event loop is woken')
    return e

# ---------------------------------------------------------------- assembly
def world(e, mod, st, T0):
    """the squaring loop runs in another thread: iterations only grow, and the stop flag, once set, stays set"""
    st.g['stop'] = z3.BoolVal(False); st.g['reached'] = z3.IntVal(0)
    so = Obj('stop_signal', 1, 'arg'); st.mem[so] = OS(); e.store(st, PVal(so, 0), ival(8, 0), None)
    cls = {'one': 'OneWesolowskiCallback', 'two': 'TwoWesolowskiCallback'}[T0]; lay = mod.members(cls)
    wo = Obj('weso', lay[''], 'arg'); st.mem[wo] = OS(); wat = lambda n: PVal(wo, lay[n])
    def load(en, s, a, c):
        if a[0].o is so:
            v = fresh('stop', z3.BoolSort()); s.assume(z3.Implies(s.g['stop'], v)); s.g['stop'] = v; return [Out('ret', s, boolv(v))]
        if a[0].o is wo and a[0].off == lay['iterations']:
            v = fresh('iterations'); s.assume(z3.And(v >= 0, v < 1 << 62, v >= s.g['reached'])); s.g['reached'] = v; return [Out('ret', s, ival(64, v))]
        raise Unsupported('atomic')
    use(e, r'^std::(__atomic_base|atomic)<[^>]*>::load\(.*\) const$|^std::(__atomic_base|atomic)<[^>]*>::operator (unsigned |)(long|int|bool)\(\) const$', load)
    use(e, r'^void std::this_thread::sleep_for<', lambda en, s, a, c: [Out('ret', s, None)])
    use(e, r'^std::mutex::(lock|unlock)\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    use(e, r'^std::lock_guard<std::mutex>::(~?)lock_guard\(', lambda en, s, a, c: [Out('ret', s, None)])
    use(e, r'^Proof::hex', lambda en, s, a, c: (en.put(s, a[0], Str(1, fresh('hexlen'), fresh('hex', ARR))), [Out('ret', s, None)])[1])
    return PVal(so, 0), wo, wat
def getproof(e, mod, s, p):
    m = mod.members('Proof'); q = lambda n: PVal(p.o, p.off + m[n])
    return e.getbig(s, q('y'), Vec, None), e.getbig(s, q('proof'), Vec, None), q('witness_type')
def chk(D, a, b): return GB(zi(D), zi(a), zi(b))

def readable(s_, power): return z3.If(z3.Or(s_ == -1, power < s_), power % 10 == 0, power % 100 == 0)
def provers(e, mod, st, cls, D, sig, wo, spaced):
    """contracts of the prover object (t_ctor, power.t_generate, t_steps)"""
    def ctor(en, s, a, c):
        s0, T, x, y = getseg(en, mod, s, a[1])
        en.check(s, zeq(en.mpz_get(s, a[2], c.ins), D), 'the prover gets the discriminant', c.ins); en.check(s, a[4].o is sig.o, 'the prover gets the stop signal', c.ins)
        en.check(s, z3.And(zeq(x.D, D), zeq(y.D, D)) if not isinstance(zeq(x.D, D), bool) else zand(zeq(x.D, D), zeq(y.D, D)), 'the segment ends are forms of the discriminant', c.ins)
        en.check(s, zand(zeq(x.cls, SQN(s0)), zeq(y.cls, SQN(s0 + T))), 'the segment runs from the form at its start to the form after its length', c.ins)
        spaced(en, s, s0, T, a[3], c)
        n = s.g.get('provers', 0); s.g['provers'] = n + 1; s.g[('prover', a[0].o.id)] = (T, x.cls, y.cls); s.g[('done', a[0].o.id)] = z3.BoolVal(False); s.g[('ran', a[0].o.id)] = False
        return [Out('ret', s, None)]
    use(e, r'^%s::%s\(' % (cls, cls), ctor)
    def run(en, s, a, c):          # in this thread
        k = a[0].o.id; s2 = s.copy(); s2.g['stop'] = z3.BoolVal(True)
        s.g[('done', k)] = z3.BoolVal(True); s.g[('ran', k)] = True
        return [Out('ret', s, None), Out('ret', s2, None)]
    def spawn(en, s, a, c): s.g[('ran', a[0].o.id)] = True; return [Out('ret', s, None)]
    use(e, r'^Prover::GenerateProof\(\)$', run)
    use(e, r'^%s::start\(\)$' % cls, run if cls.startswith('One') else spawn)
    def fin(en, s, a, c):
        k = a[0].o.id; v = fresh('finished', z3.BoolSort())
        s.assume(z3.Implies(s.g[('done', k)], v))
        if not s.g[('ran', k)]: s.assume(z3.Not(v))
        s.g[('done', k)] = v; return [Out('ret', s, boolv(v))]
    use(e, r'^Prover::IsFinished\(\)$', fin)
    def get(en, s, a, c):
        k = a[1].o.id; T, x, y = s.g[('prover', k)]
        en.check(s, z3.Implies(z3.Not(s.g['stop']), s.g[('done', k)]), 'the proof is taken only when it is finished', c.ins)
        putf(en, s, a[0], FormV(z3.If(s.g[('done', k)], QUO(zi(T), chk(D, x, y), zi(x)), fresh('unfinished')), True, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^Prover::GetProof\(\)$', get)
    use(e, r'^%s::(stop\(\)|~%s\(\))$' % (cls, cls), lambda en, s, a, c: [Out('ret', s, None)])

def bits264(e, st, *terms):
    for t in terms: st.assume(z3.And(t >= 1 << 263, t < 1 << 264, t % 2 == 1, bitlen(e, st, t) == 264))

def t_one():
    """ProveOneWesolowski: y and the proof of x -> y over the wanted iterations, or an empty proof when stopped"""
    mod, e, st = start('ProveOneWesolowski'); group.install(e)
    f = find(mod, r'^ProveOneWesolowski\(')
    D = e.formD; st.assume(z3.And(bitlen(e, st, D) <= 1024, bitlen(e, st, D) >= 1)); T = u(st, 'iters'); st.assume(T < 1 << 48)
    sig, wo, wat = world(e, mod, st, 'one'); db = bitlen(e, st, D)
    fo, A = forms_arr(e, st, 'forms', 1 << 45); e.store(st, wat('forms'), PVal(fo, 0), None)
    # OnIteration (P20) sets the result at the wanted iteration, before the loop publishes that it was reached
    putf(e, st, wat('result'), FormV(SQN(T), True, D))
    x = SQN(z3.IntVal(0)); pD = arg_mpz(e, st, 'D', D); pf = arg_form(e, st, 'f', FormV(x, True, D)); r = sret(st, 'result', 56)
    def spaced(en, s, s0, n, src, c):
        en.check(s, zand(zeq(s0, 0), zeq(n, T)), 'the segment is the whole run', c.ins); en.check(s, src.o is fo and isc(src.off) and src.off == 0, 'checkpoints come from the store', c.ins)
        en.check(s, s.g['reached'] >= T, 'the store is read only after the squaring loop has got there', c.ins)
    provers(e, mod, st, 'OneWesolowskiProver', D, sig, wo, spaced)
    B = chk(D, x, SQN(T)); bits264(e, st, B)
    outs = e.exec_fn(f, [r, i64(T), pD, pf, PVal(wo, 0), sig], st)
    full = lambda q: q.kind == 'ret' and not same(getproof(e, mod, q.st, r)[0].len, 0)
    cover(e, outs, [('a proof', full), ('a stop', lambda q: q.kind == 'ret' and same(getproof(e, mod, q.st, r)[0].len, 0)), ('a stop while the proof is computed', lambda q: q.kind == 'ret' and same(getproof(e, mod, q.st, r)[0].len, 0) and q.st.g.get('provers') == 1)], 'one')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        yv, pv, wt = getproof(e, mod, s, r)
        if same(yv.len, 0):
            e.check(s, s.g['stop'], 'an empty proof only when stopped'); e.check(s, zeq(pv.len, 0), 'nothing is left of a stopped proof'); continue
        i = fresh('i'); s.assume(z3.And(i >= 0, i < 100))
        e.check(s, zand(zeq(yv.len, 100), zeq(pv.len, 100)), 'output and proof have 100 bytes each')
        e.check(s, z3.Select(yv.arr, i) == z3.Select(SER(D, SQN(T), zi(db)), i), 'the output encodes x^(2^T)')
        e.check(s, z3.Implies(z3.Not(s.g['stop']), z3.Select(pv.arr, i) == z3.Select(SER(D, QUO(T, B, x), zi(db)), i)), 'the proof encodes x^floor(2^T/B)')
        e.check(s, zeq(e.U(s, e.load(s, wt, INT(8))), 0), 'the witness type is 0')
    return e

def t_two(depth):
    """ProveTwoWeso at the given depth: the proofs of the segments [done, done + iterations1], ... so that checking from the input on accepts"""
    mod, e, st = start('ProveTwoWeso'); group.install(e)
    f = find(mod, r'^ProveTwoWeso\(')
    D = e.formD; st.assume(z3.And(bitlen(e, st, D) <= 1024, bitlen(e, st, D) >= 1)); T, d0 = u(st, 'iters'), u(st, 'done'); db = bitlen(e, st, D)
    sig, wo, wat = world(e, mod, st, 'two')
    def pre(dp, done, n):
        return z3.And(n >= 0, done >= 0, done + n <= LASTP, done % 100 == 0, z3.Implies(done + n >= SWITCH, n >= (90000000, 30000000, 10000000)[dp]), done == 0 if dp == 0 else True)
    st.assume(pre(depth, d0, T))
    x = SQN(d0); pD = arg_mpz(e, st, 'D', D); px = arg_form(e, st, 'x', FormV(x, True, D)); r = sret(st, 'result', 56)
    I1 = T * 2 / 3 - (T * 2 / 3) % 100
    L4 = root_contract(e, D)
    sw = z3.Int('switch')
    def kept(s, p):      # whatever the moment of the spacing change, and before it too
        return z3.And(z3.Implies(z3.And(sw >= SWITCH, sw % 100 == 0), readable(sw, p)), p % 10 == 0)
    def copy(en, s, a, c):
        q = zi(en.U(s, a[2])); en.check(s, a[1].o is wo, 'the form comes from the store', c.ins)
        en.check(s, kept(s, q), 'the iteration asked for is one the store keeps, before and after the change of spacing', c.ins)
        en.check(s, s.g['reached'] >= q, 'the store is read only after the squaring loop has got there', c.ins)
        putf(en, s, a[0], FormV(SQN(q), True, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^TwoWesolowskiCallback::GetFormCopy\(', copy)
    def spaced(en, s, s0, n, src, c):
        en.check(s, src.o is wo, 'checkpoints come from the store', c.ins)
        j = fresh('j'); kl = z3.If(n < 10000000, 10, 100); s2 = s.copy(); s2.assume(z3.And(j >= 0, j * kl < n))
        en.check(s2, kept(s2, s0 + j * kl), 'every checkpoint of the segment is one the store keeps, before and after the change of spacing', c.ins)
        en.check(s, s.g['reached'] >= s0 + n, 'the segment lies within what the squaring loop has done', c.ins)
    provers(e, mod, st, 'TwoWesolowskiProver', D, sig, wo, spaced)
    def rso(en, s, a, c):
        y = needf(en, s, a[1], c.ins, D); n = zi(en.U(s, a[5]))
        if isinstance(a[6], PVal): en.check(s, a[6].o is None, 'nothing is recorded', c.ins)
        m = y.cls
        if not (z3.is_app(m) and m.decl().eq(SQN)): raise Unsupported('squaring of another form')
        putf(en, s, a[1], FormV(SQN(simp(m.arg(0) + n)), True, D), c.ins); return [Out('ret', s, None)]      # t_original: n squarings
    use(e, r'^repeated_square_original\(', rso)
    use(e, r'^vdf_original::~?vdf_original\(\)$', lambda en, s, a, c: [Out('ret', s, None)])
    PY, PP = z3.Array('inner_y', I_, I_), z3.Array('inner_proof', I_, I_); n_in = 100 + 141 * (1 - depth)
    def rec(en, s, a, c):
        m = mod.members('Proof'); q = lambda n: PVal(a[0].o, a[0].off + m[n])
        n, done, dp = zi(en.U(s, a[3])), zi(en.U(s, a[4])), en.S(s, a[6])
        en.check(s, zeq(en.mpz_get(s, a[1], c.ins), D), 'the discriminant is handed on', c.ins); en.check(s, zand(zeq(dp, depth + 1)), 'one level further', c.ins)
        en.check(s, zeq(needf(en, s, a[2], c.ins, D).cls, SQN(done)), 'the rest starts from the form where the first segment ends', c.ins)
        en.check(s, pre(depth + 1, done, n), 'the rest meets the requirements of its level', c.ins); en.check(s, done + n == d0 + T, 'the rest ends where the whole ends', c.ins)
        en.check(s, a[5].o is wo and a[7].o is sig.o, 'store and stop signal are handed on', c.ins)
        s2 = s.copy(); s2.g['stop'] = z3.BoolVal(True); s.g['inner'] = (done, n)
        for ss, ln in ((s, (100, n_in)), (s2, (0, 0))):
            en.put(ss, q('y'), Vec(1, ln[0], PY)); en.put(ss, q('proof'), Vec(1, ln[1], PP))
        return [Out('ret', s, None), Out('ret', s2, None)]
    e.skip_self = True
    use(e, r'^ProveTwoWeso\(', rec)
    y1 = SQN(simp(d0 + I1)); B = chk(D, x, y1); bits264(e, st, B, chk(D, x, SQN(simp(d0 + T))))
    outs = e.exec_fn(f, [r, pD, px, i64(T), i64(d0), PVal(wo, 0), ival(32, depth), sig], st)
    empty = lambda q: q.kind == 'ret' and same(getproof(e, mod, q.st, r)[0].len, 0)
    cover(e, outs, [('a proof', lambda q: q.kind == 'ret' and not empty(q)), ('a stop', empty), ('a long run', lambda q: z3.And(zb(q.kind == 'ret'), T + d0 > SWITCH)), ('a short run', lambda q: T + d0 < 1000)], 'two')
    for t in outs:
        s = t.st
        e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        yv, pv, wt = getproof(e, mod, s, r)
        if same(yv.len, 0):
            e.check(s, s.g['stop'], 'an empty proof only when stopped'); e.check(s, zeq(pv.len, 0), 'nothing is left of a stopped proof'); continue
        i = fresh('i'); s.assume(z3.And(i >= 0, i < 100)); run = z3.Not(s.g['stop'])
        if depth == 2:
            e.check(s, zand(zeq(yv.len, 100), zeq(pv.len, 100)), 'output and proof have 100 bytes each')
            e.check(s, z3.Select(yv.arr, i) == z3.Select(SER(D, SQN(simp(d0 + T)), zi(db)), i), 'the output encodes the form after all iterations')
            e.check(s, z3.Implies(run, z3.Select(pv.arr, i) == z3.Select(SER(D, QUO(T, chk(D, x, SQN(simp(d0 + T))), x), zi(db)), i)), 'the proof is that of the last segment')
            continue
        e.check(s, z3.Implies(run, zeq(yv.len, 100)), 'the output is that of the rest'); e.check(s, z3.Implies(run, z3.Select(yv.arr, i) == z3.Select(PY, i)), 'the output is that of the rest, unchanged')
        e.check(s, zeq(pv.len, n_in + 141), 'one segment of 141 bytes is added'); j = fresh('j'); s.assume(z3.And(j >= 0, j < n_in))
        e.check(s, z3.Select(pv.arr, j) == z3.Select(PP, j), 'the proof of the rest comes first, unchanged')
        for m_ in range(8): e.check(s, z3.Select(pv.arr, n_in + m_) == I1 / (1 << (8 * (7 - m_))) % 256, 'then the iteration count of the first segment, big-endian')
        h = fresh('h'); s.assume(z3.And(h >= 0, h < 33))
        for m_ in range(33): e.check(s, z3.Select(pv.arr, n_in + 8 + m_) == BYTE(B, z3.IntVal(32 - m_)), 'then its challenge, big-endian')
        e.check(s, z3.Implies(run, z3.Select(pv.arr, n_in + 41 + i) == z3.Select(SER(D, QUO(I1, B, x), zi(db)), i)), 'then its proof')
        e.check(s, s.g['inner'][0] == d0 + I1 and True, 'the rest starts after the first segment')
        if depth == 0: e.check(s, zeq(e.U(s, e.load(s, wt, INT(8))), 2), 'the witness type is 2')
    return e

# ---------------------------------------------------------------- the prover with two threads
def nudupl_contract(e, D):
    def nd(en, s, a, c):
        v = needf(en, s, a[1], c.ins, D); en.check(s, zeq(en.mpz_get(s, a[2], c.ins), D), 'doubling with the discriminant of the form', c.ins); en.check(s, cmpx('>=', en.mpz_get(s, a[3], c.ins), 1), 'the reduction bound is positive', c.ins)
        putf(en, s, a[0], FormV(2 * zi(v.cls), False, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^nudupl_form\(', nd)
SQ2 = z3.Function('class_doubled', I_, I_)          # SQ2(0) = x, SQ2(k+1) = 2 SQ2(k)
def probe(e, mod, st, D):
    cls = 'ProbeProver'; lay = mod.members(cls); po = Obj(cls, lay[''], 'arg'); st.mem[po] = OS(); at = lambda n, d=0: PVal(po, lay[n] + d)
    vt = e.gptr(st, '_ZTV%d%s' % (len(cls), cls)); e.store(st, PVal(po, 0), PVal(vt.o, 16), None); e.mpz_new(st, at('D'), D)
    return po, at
def t_squaren():
    """SquareFormN squares the form cnt times"""
    mod, e, st = start('ParallelProver::SquareFormN'); group.install(e)
    f = find(mod, r'^ParallelProver::SquareFormN\(')
    D = e.formD; x, L = z3.Ints('x L'); n = u(st, 'cnt'); st.assume(L >= 1)
    po, at = probe(e, mod, st, D); e.mpz_new(st, at('L'), L); pf = arg_form(e, st, 'f', FormV(x, True, D)); rd = Obj('reducer', 16, 'arg'); st.mem[rd] = OS(); e.put(st, PVal(rd, 0), Opaque(16, 'reducer'))
    nudupl_contract(e, D)
    def H(ctx): return [('the class after k squarings', (loc, 0), lambda k: SQ2(zi(k))) for loc in ctx.locs(FormV)] + [('at most n rounds', lambda v, k: zi(k) <= n)]
    H.axioms = lambda s, k: [SQ2(0) == x, SQ2(zi(k) + 1) == 2 * SQ2(zi(k))]
    e.loop_hints[''] = H; st.assume(SQ2(0) == x)
    outs = e.exec_fn(f, [PVal(po, 0), pf, i64(n), PVal(rd, 0)], st)
    cover(e, outs, [('many', lambda q: n > 5), ('none', lambda q: n == 0)], 'squaren')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind == 'ret': e.check(s, zeq(getf(e, s, pf).cls, SQ2(n)), 'the form is squared cnt times')
    return e
def t_parallel():
    """ParallelProver::GenerateProof: the two parts cover every digit row once, and their product is the proof"""
    mod, e, st = start('ParallelProver::GenerateProof'); group.install(e)
    f = find(mod, r'^ParallelProver::GenerateProof\(')
    D = e.formD; st.assume(bitlen(e, st, D) <= 1024); x, y = z3.Ints('x y'); l = u(st, 'l', 20); st.assume(l >= 1)
    po, at = probe(e, mod, st, D); sg = mod.members('Segment')
    putf(e, st, at('segm', sg['x']), FormV(x, True, D)); putf(e, st, at('segm', sg['y']), FormV(y, True, D)); e.store(st, at('l'), ival(32, l), None)
    for n in 'BL': e.mpz_new(st, at(n), 0)
    putf(e, st, at('id'), FormV(None)); putf(e, st, at('proof'), FormV(None))
    for i in (0, 1): putf(e, st, at('x_vals', 48 * i), FormV(None))
    L4 = root_contract(e, D); B = chk(D, x, y); PART = z3.Function('rows_sum', I_, I_, I_)      # PART(start, len): sum over len rows below start, times 2^(k(start-len)) (power.t_generate('part'))
    def part(en, s, a, c):
        i, hi, n = en.U(s, a[1]), zi(en.U(s, a[2])), zi(en.U(s, a[3]))
        if not isc(i): raise Unsupported('thread number')
        en.check(s, zor(i == 0, i == 1), 'one of the two results', c.ins); en.check(s, z3.And(n >= 0, n <= hi, hi <= l), 'rows within the table', c.ins); en.check(s, hi >= 1, 'a first row to start below', c.ins)
        en.check(s, zand(zeq(en.mpz_get(s, at('B')), B), zeq(en.mpz_get(s, at('L')), L4), zeq(getf(en, s, at('id')).cls, 0)), 'challenge, bound and identity are set before the parts start', c.ins)
        s.g['parts'] = s.g.get('parts', ()) + ((i, hi, n),); putf(en, s, at('x_vals', 48 * i), FormV(PART(hi, n), True, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^ParallelProver::ProvePart\(', part)
    def thread(en, s, a, c):         # the part that runs beside; its result is there once it is joined
        v = [en.load(s, p, INT(8 if j == 2 else 32)) if j else None for j, p in enumerate([None] + list(a[2:]))] if False else None
        vals = [en.S(s, en.load(s, p, INT(32))) for p in a[3:6]]; pr = en.load(s, a[2], PTR)
        fn = en.load(s, a[1], PTR) if not isinstance(a[1], FnPtr) else a[1]
        en.check(s, isinstance(fn, FnPtr) and 'ProofThread' in mod.demangle(fn.name) if hasattr(mod, 'demangle') else isinstance(fn, FnPtr) and 'ProofThread' in fn.name, 'the thread runs a part of the proof', c.ins)
        en.check(s, pr.o is po, 'of this prover', c.ins); s.g['thread'] = tuple(vals); return [Out('ret', s, None)]
    use(e, r'^std::thread::thread<void \(&?\(?.*|^_ZNSt6threadC[12]I.*|^std::thread::thread<', thread)
    def join(en, s, a, c):
        i, hi, n = s.g['thread']; return part(en, s, [None, ival(8, i), ival(32, hi), ival(32, n)], c)
    use(e, r'^std::thread::join\(\)$', join)
    use(e, r'^std::thread::~thread\(\)$', lambda en, s, a, c: (en.check(s, len(s.g.get('parts', ())) == 2, 'the thread is joined', c.ins), [Out('ret', s, None)])[1])
    def nuc(en, s, a, c):
        p, q = needf(en, s, a[1], c.ins, D), needf(en, s, a[2], c.ins, D); en.check(s, zand(zeq(en.mpz_get(s, a[3]), D), zeq(en.mpz_get(s, a[4]), L4)), 'composition with discriminant and bound', c.ins)
        putf(en, s, a[0], FormV(add(p.cls, q.cls), False, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^nucomp_form\(', nuc)
    def extra(en, s, a, c): v = fresh('go_on', z3.BoolSort()); s.g['asked'] = v; return [Out('ret', s, boolv(v))]
    use(e, r'^ProbeProver::PerformExtraStep\(', extra)
    def finish(en, s, a, c): s.g['finished'] = s.g.get('finished', 0) + 1; s.g['then'] = getf(en, s, at('proof')).cls; return [Out('ret', s, None)]
    use(e, r'^ProbeProver::OnFinish\(', finish)
    outs = e.exec_fn(f, [PVal(po, 0)], st)
    cover(e, outs, [('a proof', lambda q: q.kind == 'ret' and q.st.g.get('finished') == 1), ('one row', lambda q: l == 1), ('an odd number of rows', lambda q: l == 5)], 'parallel')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        ps = sorted(s.g.get('parts', ()), key=lambda p: p[0])
        e.check(s, [p[0] for p in ps] == [0, 1], 'both results are computed, once each')
        if not s.g.get('finished'): e.check(s, znot(s.g['asked']), 'without an interruption the proof is finished'); continue
        (_, h0, n0), (_, h1, n1) = ps
        e.check(s, z3.And(zi(h0) == l, zi(h0) - zi(n0) == zi(h1), zi(h1) - zi(n1) == 0), 'the parts cover rows l-1 down to 0, each once')
        e.check(s, zand(zeq(getf(e, s, at('proof')).cls, PART(zi(h0), zi(n0)) + PART(zi(h1), zi(n1))), s.g['finished'] == 1), 'the proof is the product of the parts'); e.check(s, zeq(s.g['then'], getf(e, s, at('proof')).cls), 'it is there when its completion is announced')
        v = getf(e, s, at('proof')); e.check(s, v.red if isinstance(v.red, bool) else v.red, 'the proof is reduced')
    return e

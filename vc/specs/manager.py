"""The manager of n-segment proofs (ProverManager in vdf.h, Segment in util.h)."""
import z3
from vf import *
import ir
from specs import group
from specs.group import *
from specs.store import obj, blank, i64, i32, atomics, mutexes, held, root_contract, form_arrays
from specs.segments import SQN, QUO, getseg, seg_arg, provers, getproof, chk, bits264
from forms import FormV, getf, putf, needf
from lib_gmp import bitlen, BYTE
from lib_std import getvec, Str
import eng as E
import alg

SLOTS = 1 << 18          # checkpoints kept, one every 2^16 iterations (P20)
SH = 1 << 40             # a segment in the assembled list: start * 2^40 + length
ENC = lambda s, n: simp(zi(s) * SH + zi(n))
FST, LEN = lambda v: v / SH, lambda v: v % SH
SZ = z3.Function('segment_size', I_, I_)         # SZ(i) = 2^(16+2i)
AL = z3.Function('aligned', I_, I_, z3.BoolSort())   # AL(p, i): SZ(i) divides p

def start(name):
    mod = lower('manager.cpp', extra=['-DCHIA_DISABLE_ASM'])
    e = engine(mod, True, name); st = State(); e.formD = z3.Int('D'); st.assume(e.formD < 0)
    return mod, e, st

# ---------------------------------------------------------------- Segment
def u_(s): v = fresh('was_new'); s.assume(z3.And(v >= 0, v <= 1)); return v
def two_segments(e, mod, st):
    r = []
    for n in ('this', 'other'):
        s0, ln, em = u(st, n + '_start'), u(st, n + '_length'), u(st, n + '_empty', 1)
        p = seg_arg(e, mod, st, s0, ln, z3.Int(n + '_x'), z3.Int(n + '_y')); e.store(st, PVal(p.o, mod.members('Segment')['is_empty']), ival(8, em, 0, 1), None)
        r.append((p, s0, ln, em))
    return r
def t_worse():
    """the order in which segments are proved: shorter ones first, of equal length the earlier, none is the worst"""
    mod, e, st = start('Segment::IsWorseThan'); f = find(mod, r'^Segment::IsWorseThan\(')
    (p, s0, l0, e0), (q, s1, l1, e1) = two_segments(e, mod, st)
    st.assume(z3.Implies(e0 == 0, e1 == 0))       # callers compare with an empty segment only on the left
    outs = e.exec_fn(f, [p, q], st)
    cover(e, outs, [('worse', lambda t: z3.And(e0 == 0, l0 == l1, s0 > s1)), ('none yet', lambda t: z3.And(e0 == 1, e1 == 0))], 'worse')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        v = zi(e.U(s, t.val)) % 2 == 1
        e.check(s, v == z3.If(e0 == 1, e1 == 0, z3.Or(l0 > l1, z3.And(l0 == l1, s0 > s1))), 'longer is worse, then later, and no segment is worse than any')
    return e
def t_bucket(i):
    """segments of length 2^(16+2i) belong to bucket i; asking leaves the segment as it was"""
    mod, e, st = start('Segment::GetSegmentBucket'); f = find(mod, r'^Segment::GetSegmentBucket\(')
    s0 = u(st, 'start'); x, y = z3.Ints('x y'); p = seg_arg(e, mod, st, s0, 1 << (16 + 2 * i), x, y)
    for t in e.exec_fn(f, [p], st):
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        g = getseg(e, mod, s, p)
        e.check(s, zeq(e.S(s, t.val), i), 'the bucket of this length'); e.check(s, zand(zeq(g[0], s0), zeq(g[1], 1 << (16 + 2 * i)), zeq(g[2].cls, x), zeq(g[3].cls, y)), 'the segment is left as it was')
    return e

# ---------------------------------------------------------------- Prove
def t_prove():
    """an assembled proof consists of at most 64 finished segments, each starting where the one before ends, the first at 0 and
    the last ending at the iteration asked for; nothing is returned only when the manager is stopped"""
    mod, e, st = start('ProverManager::Prove'); group.install(e)
    f = find(mod, r'^ProverManager::Prove\(unsigned long\)$')
    D = e.formD; db = bitlen(e, st, D); st.assume(z3.And(db <= 1024, db >= 1))
    T = u(st, 'iteration'); st.assume(z3.And(T >= 1, T < SLOTS << 16)); base = simp(T - T % 65536)
    n = u(st, 'segment_count', 31); st.assume(z3.And(n >= 1, n <= 8))
    lay = mod.members('ProverManager'); mo = Obj('manager', lay[''], 'arg'); st.mem[mo] = OS(); at = lambda k, d=0: PVal(mo, lay[k] + d)
    cl = mod.members('FastAlgorithmCallback'); wo = Obj('weso', cl[''], 'arg'); st.mem[wo] = OS()
    ck = Obj('checkpoints', 48 * SLOTS); A = z3.Array('checkpoint', I_, I_); st.mem[ck] = OS(arr=A, es=48); e.store(st, PVal(wo, cl['checkpoints']), PVal(ck, 0), None)
    e.store(st, at('weso'), PVal(wo, 0), None); e.store(st, at('segment_count'), ival(32, n, 1, 8), None); e.mpz_new(st, at('D'), D)
    st.g['stop'] = z3.BoolVal(False); st.g['gen'] = z3.IntVal(0); st.g['vdf'] = z3.IntVal(0)
    put8 = lambda s, k, v: e.store(s, at(k), i64(v), None)
    # the other threads: iterations only grow, a stop stays, checkpoint j is set before iteration 2^16 j is announced (P20)
    def world(s):
        v = fresh('vdf_iteration'); s.assume(z3.And(v >= s.g['vdf'], v < 1 << 63, z3.Implies(v >= base, z3.Select(A, simp(T / 65536)) == SQN(base)))); s.g['vdf'] = v
        m = fresh('max_proving'); s.assume(z3.And(m >= 0, m < 1 << 63)); put8(s, 'max_proving_iteration', m)
        s.g['gen'] = fresh('gen')
    world(st)
    def load(en, s, a, c):
        if a[0].o is mo and a[0].off == lay['stopped']:
            v = fresh('stop', z3.BoolSort()); s.assume(z3.Implies(s.g['stop'], v)); s.g['stop'] = v; return [Out('ret', s, boolv(v))]
        if a[0].o is mo and a[0].off == lay['vdf_iteration']: return [Out('ret', s, i64(s.g['vdf']))]
        if a[0].o is wo and a[0].off == cl['iterations']: return [Out('ret', s, en.fint(s, 'now', 64, False))]
        raise Unsupported('atomic')
    use(e, r'^std::(__atomic_base|atomic)<[^>]*>::load\(.*\) const$|^std::(__atomic_base|atomic)<[^>]*>::operator (unsigned |)(long|int|bool)\(\) const$', load)
    # locks: what the mutex protects may have changed when it is taken; a guard releases what it took
    def take(en, s, m, c):
        en.check(s, not s.g.get(('lock', m)), 'the mutex is not taken twice', c.ins); s.g[('lock', m)] = True; world(s)
    def drop(en, s, m, c): en.check(s, bool(s.g.get(('lock', m))), 'the mutex released is held', c.ins); s.g[('lock', m)] = False
    def gtake(en, s, a, c): take(en, s, a[1].off, c); s.g[('guard', a[0].o.id)] = a[1].off; return [Out('ret', s, None)]
    def gdrop(en, s, a, c):
        k = ('guard', a[0].o.id); m = s.g.get(k)
        if m is not None: drop(en, s, m, c); s.g[k] = None
        elif 'unlock()' in c.dem: en.check(s, False, 'the lock released is held', c.ins)
        return [Out('ret', s, None)]
    use(e, r'^std::(lock_guard|unique_lock)<std::mutex>::(lock_guard|unique_lock)\(', gtake); use(e, r'^std::(lock_guard|unique_lock)<std::mutex>::(~(lock_guard|unique_lock)|unlock)\(\)$', gdrop)
    def wait(en, s, a, c):
        m = s.g.get(('guard', a[1].o.id)); en.check(s, m is not None and bool(s.g.get(('lock', m))), 'waiting with the mutex held', c.ins); world(s); return [Out('ret', s, None)]
    use(e, r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$', wait)
    def sleep(en, s, a, c): en.check(s, not held(s), 'no lock is held while sleeping', c.ins); return [Out('ret', s, None)]
    use(e, r'^void std::this_thread::sleep_for<', sleep)
    PM, LM = lay['proof_mutex'], lay['last_segment_mutex']
    def pend(en, s, a, c):
        en.check(s, a[0].o is mo and a[0].off in (lay['pending_iters'], lay['pending_iters_last_sg']), 'a list of requests', c.ins)
        last = a[0].off == lay['pending_iters_last_sg']; en.check(s, bool(s.g.get(('lock', LM if last else PM))), 'the list of requests is used with its mutex held', c.ins)
        en.check(s, zeq(en.U(s, en.load(s, a[1], INT(64))), base if last else T), 'the request is for the iteration asked for', c.ins)
        return [Out('ret', s, Agg([PVal(mo, 0), ival(8, u_(s), 0, 1)]) if 'insert' in c.dem else i64(1))]
    use(e, r'^std::set<unsigned long.*>::(insert|erase)\(unsigned long( const&|&&)\)$', pend)
    use(e, r'^Proof::hex', lambda en, s, a, c: (en.put(s, a[0], Str(1, fresh('hexlen'), fresh('hex', ARR))), [Out('ret', s, None)])[1])
    L4 = root_contract(e, D); form_arrays(e, st)
    def free(en, s, a, c):
        if a[0].o is not None: en.check(s, a[0].o.kind == 'cookie' and isc(a[0].off) and a[0].off == -8 and not s.g.get(('freed', a[0].o.id)), 'the recalculated forms are freed once', c.ins); s.g[('freed', a[0].o.id)] = True
        return [Out('ret', s, None)]
    use(e, r'^operator delete\[\]\(void\*\)$', free)
    # finished segments: bucket i holds at position p the segment of length SZ(i) from p*SZ(i) on, or a placeholder
    SIZE, EMPTY = z3.Function('finished_size', I_, I_, I_), z3.Function('placeholder', I_, I_, I_, z3.BoolSort())
    def safe(en, s, c): en.check(s, bool(s.g.get(('lock', PM))), 'finished segments are read with their mutex held', c.ins)
    def size_ax(s, i):
        v = E.p2i(s, e, i) if hasattr(E, 'p2i') else e.p2(s, simp(16 + 2 * zi(i)))
        s.assume(z3.And(SZ(zi(i)) == zi(v), SZ(zi(i)) >= 65536))
    def bucket(en, s, a, c):
        en.check(s, a[0].o is mo and a[0].off == lay['done_segments'], 'the finished segments', c.ins); safe(en, s, c)
        i = en.U(s, a[1]); en.check(s, z3.And(zi(i) >= 0, zi(i) < n), 'a bucket below their number', c.ins)
        o = Obj('bucket', 24, 'arg'); s.mem[o] = OS(); en.put(s, PVal(o, 0), Opaque(24, 'bucket', (zi(i),))); return [Out('ret', s, PVal(o, 0))]
    use(e, r'^std::vector<std::vector<Segment.*>::operator\[\]\(unsigned long\)$', bucket)
    def bk(s, p):
        os = s.mem.get(p.o); v = os.cells.get(p.off) if os is not None and isc(p.off) else None
        return v.data[0] if isinstance(v, Opaque) and v.what == 'bucket' else None
    def size(en, s, a, c):
        i = bk(s, a[0])
        if i is None: return [Out('ret', s, IVal(64, getvec(en, s, a[0], c).len, 0, 1 << 62))]
        safe(en, s, c); v = SIZE(s.g['gen'], i); s.assume(z3.And(v >= 0, v < 1 << 40)); return [Out('ret', s, i64(v))]
    use(e, r'^std::vector<Segment, [^()]*>::size\(\) const$', size)
    m = mod.members('Segment')
    def newseg(en, s, s0, ln, empty):
        o = Obj('segment', m[''], 'arg'); s.mem[o] = OS(); q = lambda k: PVal(o, m[k])
        en.store(s, q('start'), i64(s0), None); en.store(s, q('length'), i64(ln), None); en.store(s, q('is_empty'), ival(8, z3.If(empty, 1, 0), 0, 1) if not isinstance(empty, bool) else ival(8, int(empty)), None)
        x, y = SQN(zi(s0)), SQN(simp(zi(s0) + zi(ln))); ok = not isinstance(empty, bool)
        pr = QUO(zi(ln), chk(D, x, y), x)
        if ok: k_ = fresh('garbage'); x, y, pr = [z3.If(empty, k_, v) for v in (x, y, pr)]
        putf(en, s, q('x'), FormV(x, True, D)); putf(en, s, q('y'), FormV(y, True, D)); putf(en, s, q('proof'), FormV(pr, True, D)); return PVal(o, 0)
    def item(en, s, a, c):
        i = bk(s, a[0]); p = en.U(s, a[1])
        if i is not None:
            safe(en, s, c); en.check(s, zi(p) < SIZE(s.g['gen'], i), 'a position below the size of its bucket', c.ins); size_ax(s, i)
            s0 = fresh('segment_start'); s.assume(z3.And(s0 == zi(p) * SZ(i), s0 >= 0)); return [Out('ret', s, newseg(en, s, s0, SZ(i), EMPTY(s.g['gen'], i, zi(p))))]
        v = getvec(en, s, a[0], c); en.check(s, zand(cmpx('>=', p, 0), cmpx('<', p, v.len)), 'a segment of the list', c.ins)
        w = z3.Select(v.arr, zi(p)); s0, ln = fresh('start_of'), fresh('length_of'); s.assume(z3.And(s0 == FST(w), ln == LEN(w)))
        B = chk(D, SQN(FST(w)), SQN(simp(FST(w) + LEN(w)))); s.assume(z3.And(SQN(s0) == SQN(FST(w)), SQN(simp(s0 + ln)) == SQN(simp(FST(w) + LEN(w)))))
        bits264(en, s, B, chk(D, SQN(s0), SQN(simp(s0 + ln)))); s.assume(s0 + ln < 1 << 40); s.assume(ln >= 0); s.assume(s0 >= 0); s.assume(ln < 1 << 40)
        return [Out('ret', s, newseg(en, s, s0, ln, False))]
    use(e, r'^std::vector<Segment, [^()]*>::operator\[\]\(unsigned long\)$', item)
    use(e, r'^std::vector<Segment, [^()]*>::vector\(\)$', lambda en, s, a, c: (en.put(s, a[0], Vec(m[''], 0, z3.K(I_, z3.IntVal(0)), kind='segment')), [Out('ret', s, None)])[1])
    def clear(en, s, a, c): v = getvec(en, s, a[0], c); en.put(s, a[0], Vec(v.es, 0, v.arr, kind='segment')); return [Out('ret', s, None)]
    use(e, r'^std::vector<Segment, [^()]*>::clear\(\)$', clear)
    def append(en, s, a, c):
        v = getvec(en, s, a[0], c); s0, ln, x, y = getseg(en, mod, s, a[1]); em = zi(en.U(s, en.load(s, PVal(a[1].o, add(a[1].off, m['is_empty'])), INT(8))))
        pr = getf(en, s, PVal(a[1].o, add(a[1].off, m['proof'])))
        en.check(s, em % 2 == 0, 'only finished segments are taken', c.ins); en.check(s, zand(zeq(x.cls, SQN(s0)), zeq(y.cls, SQN(simp(s0 + ln)))), 'a segment taken runs from the form at its start to the form after its length', c.ins)
        if pr.cls is None: en.check(s, False, 'the segment has its proof', c.ins); return []
        en.check(s, pr.cls == QUO(ln, chk(D, x.cls, y.cls), x.cls), 'the proof of the segment is that of its own challenge', c.ins); en.check(s, z3.And(s0 >= 0, s0 + ln < SH, ln >= 1), 'a segment within the run', c.ins)
        en.put(s, a[0], Vec(v.es, add(v.len, 1), z3.Store(v.arr, zi(v.len), ENC(s0, ln)), kind='segment')); return [Out('ret', s, a[1])]
    use(e, r'^.*std::vector<Segment, [^()]*>::emplace_back<Segment&>\(Segment&\)$', append)
    def gone(en, s, a, c): v = getvec(en, s, a[0], c); s.g['list'] = (zi(v.len), v.arr); return [Out('ret', s, None)]
    use(e, r'^std::vector<Segment, [^()]*>::~vector\(\)$', gone)
    J = z3.Int('J'); st.assume(z3.And(J >= 0, J < 6554))
    def spaced(en, s, s0, ln, src, c):
        en.check(s, zand(zeq(s0, base), zeq(ln, simp(T % 65536))), 'the last segment runs from the last multiple of 2^16 to the iteration asked for', c.ins)
        os = s.mem.get(src.o); en.check(s, os is not None and os.arr is not None and isc(src.off) and src.off == 0, 'checkpoints come from the recalculated forms', c.ins)
        if os is not None and os.arr is not None: en.check(s, z3.Implies(10 * J < ln, z3.Select(os.arr, J) == SQN(base + 10 * J)), 'checkpoint J of the last segment is the form 10 J iterations after its start', c.ins)
    provers(e, mod, st, 'OneWesolowskiProver', D, PVal(mo, lay['stopped']), wo, spaced)
    def nd(en, s, a, c):
        v = needf(en, s, a[1], c.ins, D); en.check(s, zand(zeq(en.mpz_get(s, a[2], c.ins), D), zeq(en.mpz_get(s, a[3], c.ins), L4)), 'doubling with discriminant and bound', c.ins)
        w = v.cls; putf(en, s, a[0], FormV(simp(2 * zi(w)), False, D), c.ins); return [Out('ret', s, None)]
    use(e, r'^nudupl_form\(', nd)
    # ---- invariants
    KK, BB = z3.Int('K'), z3.Int('b'); st.assume(z3.And(KK >= 0, KK < 64, BB >= 0, BB < 141))
    def wanted(w):         # byte b of an earlier segment: iteration count, challenge, proof
        s0, ln = FST(w), LEN(w); x = SQN(s0); B = chk(D, x, SQN(s0 + ln)); r = z3.Select(SER(D, QUO(ln, B, x), zi(db)), BB - 41)
        for j in range(40, 7, -1): r = z3.If(BB == j, BYTE(B, z3.IntVal(40 - j)), r)
        for j in range(7, -1, -1): r = z3.If(BB == j, ln / (1 << (8 * (7 - j))) % 256, r)
        return r
    def named(ctx, nm): return [l for l in ctx.locs(IVal) if getattr(l[0], 'name', '') == '%' + nm]
    def cell(v, loc):
        c = v.cell(loc)
        if not isinstance(c, IVal): raise TypeError
        return zi(c.e)

    def H(ctx):
        C = []; nm = {getattr(l[0], 'name', ''): l for l in ctx.locs(IVal)}
        segs = [l for l in ctx.locs(Vec) if ctx.entry_cell(l).kind == 'segment']; out = [l for l in ctx.locs(Vec) if ctx.entry_cell(l).kind == 'int' and ctx.entry_cell(l).es == 1]
        fl = ctx.locs(FormV); allv = lambda k: [(l, c) for l, c in ctx.allcells(k)]
        C.append(('the checkpoint is set once the iterations are announced', lambda v, k: z3.Implies(v.cell(('ghost', 'vdf')) >= base, z3.Select(A, simp(T / 65536)) == SQN(base))))
        for l in fl: C.append(('the class after k squarings', (l, 0), lambda k: SQN(simp(base + zi(k)))))
        for o_ in [l for l in ctx.mod if l[1] == 'arr']:
            C.append(('checkpoint J of the last segment is set', lambda v, k, l=o_: z3.Implies(10 * J < zi(k), z3.Select(v.cell(l), J) == SQN(base + 10 * J))))
        P = {o.name: (o, 0) for o in ctx.entry.mem if getattr(o, 'name', None)}
        for l in segs:
            g = lambda v, l=l: (zi(v.cell(l).len), v.cell(l).arr)
            C.append(('at most one segment per count', lambda v, k, l=l: g(v, l)[0] >= 0))
            C.append(('each segment starts where the one before ends', lambda v, k, l=l: z3.Implies(z3.And(J >= 1, J < g(v, l)[0]), FST(z3.Select(g(v, l)[1], J)) == FST(z3.Select(g(v, l)[1], J - 1)) + LEN(z3.Select(g(v, l)[1], J - 1)))))
            C.append(('the first segment starts at 0', lambda v, k, l=l: z3.Implies(g(v, l)[0] >= 1, FST(z3.Select(g(v, l)[1], 0)) == 0)))
            C.append(('the list is empty', lambda v, k, l=l: g(v, l)[0] == 0))
            if '%proved_iters' in P:
                pl = P['%proved_iters']
                C.append(('the last segment ends where the list ends', lambda v, k, l=l: z3.And(z3.Implies(g(v, l)[0] >= 1, FST(z3.Select(g(v, l)[1], g(v, l)[0] - 1)) + LEN(z3.Select(g(v, l)[1], g(v, l)[0] - 1)) == cell(v, pl)), z3.Implies(g(v, l)[0] == 0, cell(v, pl) == 0))))
                if '%blobs' in P: C.append(('the count of segments', lambda v, k, l=l: z3.And(g(v, l)[0] == cell(v, P['%blobs']), 65536 * g(v, l)[0] <= cell(v, pl))))
        for l in out:
            src = [c for o, os in ctx.entry.mem.items() for c in os.cells.values() if isinstance(c, Vec) and c.kind == 'segment']
            v0 = ctx.entry_cell(l)
            if len(src) != 1: continue
            n0, a0 = zi(src[0].len), src[0].arr; n1 = z3.If(n0 >= 1, n0 - 1, 0)
            C.append(('141 bytes per segment', lambda v, k, l=l: zi(v.cell(l).len) == 100 + 141 * zi(k)))
            C.append(('the proof of the last segment comes first', lambda v, k, l=l: z3.Implies(BB < 100, z3.Select(v.cell(l).arr, BB) == z3.Select(v0.arr, BB))))
            C.append(('the earlier segments follow, latest first', lambda v, k, l=l: z3.Implies(KK < zi(k), z3.Select(v.cell(l).arr, 100 + 141 * KK + BB) == wanted(z3.Select(a0, n0 - 2 - KK)))))
            for x in ctx.locs(IVal):
                if re.match(r'^%i\d*$', getattr(x[0], 'name', '')): C.append(('from the last but one down ' + x[0].name, lambda v, k, x=x: z3.And(zi(k) >= 0, zi(k) <= n0 - 1, n0 <= 64, n0 >= 1, cell(v, x) == z3.If(n0 - 2 - zi(k) >= 0, n0 - 2 - zi(k), (1 << 32) + n0 - 2 - zi(k)))))
        if '%proved_iters' in P:
            pl = P['%proved_iters']
            C.append(('not beyond the iteration', lambda v, k: z3.And(cell(v, pl) >= 0, cell(v, pl) <= T)))
            if '%valid_proof' in P:
                ok = lambda v: cell(v, P['%valid_proof']) % 2 == 1
                C.append(('complete up to the last multiple of 2^16', lambda v, k: z3.And(z3.Implies(ok(v), z3.And(cell(v, pl) == base)), z3.Implies(z3.Not(ok(v)), cell(v, pl) == 0))))
                for l in segs: C.append(('at most 63 segments, none until it is complete', lambda v, k, l=l: z3.And(z3.Implies(ok(v), v.cell(l).len <= 63), z3.Implies(z3.Not(ok(v)), zi(v.cell(l).len) == 0))))
            C.append(('nothing proved', lambda v, k: cell(v, pl) == 0))
            ii = [(o, 0) for o in ctx.entry.mem if getattr(o, 'name', '').startswith('%i') and not getattr(o, 'name', '').startswith('%it') and not getattr(o, 'name', '').startswith('%in')]
            for l in ii:
                C.append(('whole segments of the next size ' + l[0].name, lambda v, k, l=l: z3.And(AL(cell(v, pl), cell(v, l) + 1), cell(v, l) >= -1, cell(v, l) < n)))
                if '%position' in P:
                    C.append(('whole segments of this size ' + l[0].name, lambda v, k, l=l: z3.And(AL(cell(v, pl), cell(v, l)), cell(v, l) >= 0, cell(v, P['%position']) * SZ(cell(v, l)) == cell(v, pl))))
        def guard(fn):
            def g(v, k):
                try: return fn(v, k)
                except (TypeError, AttributeError) as x: return z3.BoolVal(False)
            return g
        return [x if isinstance(x[1], tuple) else (x[0], guard(x[1])) for x in C]
    def ax(s, k):
        k = zi(k); R = [SQN(simp(base + k + 1)) == 2 * SQN(simp(base + k)), SQN(simp(base + k)) == SQN(base + k)]
        cells = {o.name: os.cells.get(0) for o, os in s.mem.items() if getattr(o, 'name', '').startswith('%') and os.arr is None}
        p = cells.get('%proved_iters')
        if isinstance(p, IVal):
            p = zi(p.e)
            for nm, c in cells.items():
                if not re.match(r'^%i\d*$', nm) or not isinstance(c, IVal): continue
                i = zi(c.e); v = zi(e.p2(s, simp(16 + 2 * i))); q = E.FDIV(p, v)
                R += [SZ(i) == v, SZ(i) >= 65536, z3.Implies(AL(p, i + 1), AL(p, i)), AL(0, i + 1), AL(0, i), AL(0, i - 1), z3.Implies(AL(p, i), z3.And(p == SZ(i) * q, q >= 0)), z3.Implies(AL(p, i), AL(p + SZ(i), i)), z3.Implies(z3.And(AL(p, i), i >= 0), p % 65536 == 0), z3.Implies(AL(p, 0), p % 65536 == 0)]
        return R
    H.axioms = ax
    e.loop_hints[''] = H
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    r = sret(st, 'result', 56)
    outs = e.exec_fn(f, [r, PVal(mo, 0), i64(T)], st)
    empty = lambda q: q.kind == 'ret' and same(getproof(e, mod, q.st, r)[0].len, 0)
    cover(e, outs, [('a proof', lambda q: q.kind == 'ret' and not empty(q)), ('a stop', empty)], 'manager')
    for t in outs:
        s = t.st; e.check(s, t.kind == 'ret', 'does not throw')
        if t.kind != 'ret': continue
        e.check(s, not held(s), 'every lock is released')
        yv, pv, wt = getproof(e, mod, s, r)
        if same(yv.len, 0): e.check(s, s.g['stop'], 'an empty proof only when stopped'); e.check(s, zeq(pv.len, 0), 'nothing is left of a stopped proof'); continue
        ln, arr = s.g['list']
        e.check(s, z3.And(ln >= 1, ln <= 64), 'at most 64 segments')
        e.check(s, z3.Implies(ln >= 1, FST(z3.Select(arr, 0)) == 0), 'the first segment starts at the input')
        e.check(s, z3.Implies(z3.And(J >= 1, J < ln), FST(z3.Select(arr, J)) == FST(z3.Select(arr, J - 1)) + LEN(z3.Select(arr, J - 1))), 'each segment starts where the one before ends')
        e.check(s, FST(z3.Select(arr, ln - 1)) + LEN(z3.Select(arr, ln - 1)) == T, 'the last segment ends at the iteration asked for')
        e.check(s, zeq(yv.len, 100), 'the output has 100 bytes'); i = fresh('i'); s.assume(z3.And(i >= 0, i < 100))
        e.check(s, z3.Select(yv.arr, i) == z3.Select(SER(D, SQN(T), zi(db)), i), 'the output encodes the form after all iterations')
        w = z3.Select(arr, ln - 1); e.check(s, zi(pv.len) == 100 + 141 * (ln - 1), 'the proof has 141 bytes per further segment')
        e.check(s, z3.Implies(BB < 100, z3.Select(pv.arr, BB) == z3.Select(SER(D, QUO(LEN(w), chk(D, SQN(FST(w)), SQN(FST(w) + LEN(w))), SQN(FST(w))), zi(db)), BB)), 'the proof of the last segment comes first')
        e.check(s, z3.Implies(KK < ln - 1, z3.Select(pv.arr, 100 + 141 * KK + BB) == wanted(z3.Select(arr, ln - 2 - KK))), 'then iteration count, challenge and proof of each earlier segment, latest first')
        e.check(s, zi(e.U(s, e.load(s, wt, INT(8)))) == ln - 1, 'the witness type is the number of further segments')
    return e

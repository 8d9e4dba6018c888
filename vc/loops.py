"""Loop cutting: complete unrolling when the trip count is decided by constants, otherwise
inductive invariants (induction variables in closed form over a ghost iteration counter,
Houdini over generic and role-based candidate invariants)."""
import time, re
import z3
import eng as E
from eng import *
from ir import Unsupported

def leafvals(v):
    if isinstance(v, IVal): return [v.e]
    if isinstance(v, PVal): return [v.off]
    if isinstance(v, FVal): return [v.e]
    if hasattr(v, 'leaves'): return [x for _, x in v.leaves()]
    return []

def same_cell(a, b):
    if a is b: return True
    if type(a) != type(b): return False
    if isinstance(a, IVal): return a.n == b.n and same(a.e, b.e)
    if isinstance(a, PVal): return a.o is b.o and same(a.off, b.off)
    if isinstance(a, FnPtr): return a.name == b.name
    if isinstance(a, (Undef,)): return True
    if isinstance(a, Dead): return True
    if isinstance(a, Vec) and a.gen != b.gen: return False
    if isinstance(a, Opaque): return a is b or (a.what == b.what and a.data is b.data)
    la, lb = leafvals(a), leafvals(b)
    return len(la) == len(lb) and all(same(x, y) for x, y in zip(la, lb))

def gsame(x, y):
    if x is y: return True
    if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef): return isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(gsame(p, q) for p, q in zip(x, y))
    return x == y
def diff(a, b):
    """locations of objects existing in a whose content differs in b"""
    d = set()
    for o, os in a.mem.items():
        ob = b.mem.get(o)
        if ob is os: continue
        if ob is None: d.add((o, 'dead')); continue
        if (os.arr is None) != (ob.arr is None):
            d.add((o, 'toarr'))
            continue
        if os.arr is not None:
            if not same(os.arr, ob.arr): d.add((o, 'arr'))
            continue
        for off in set(os.cells) | set(ob.cells):
            x, y = os.cells.get(off), ob.cells.get(off)
            if x is None and y is None: continue
            if x is None or y is None or not same_cell(x, y): d.add((o, off))
        if os.live != ob.live: d.add((o, 'dead'))
    for k in set(a.g) | set(b.g):
        x, y = a.g.get(k), b.g.get(k)
        if not gsame(x, y):
            d.add(('ghost', k))
    return d

class View:
    def __init__(self, eng, f, regs, st):
        self.eng, self.f, self.regs, self.st = eng, f, regs, st
    def cell(self, loc):
        if loc[0] == 'ghost': return self.st.g.get(loc[1])
        os = self.st.mem.get(loc[0])
        if os is None: return None
        if loc[1] == 'arr': return os.arr
        return os.cells.get(loc[1])

class LoopCtx:
    def __init__(self, eng, f, hdr, regs, entry, mod):
        self.eng, self.f, self.hdr, self.regs, self.entry, self.mod = eng, f, hdr, regs, entry, mod
    def locs(self, cls, ids=None):
        r = []
        for loc in sorted(self.mod, key=lambda l: (getattr(l[0], 'id', 0), str(l[1]))):
            c = View(self.eng, self.f, self.regs, self.entry).cell(loc)
            if isinstance(c, cls): r.append(loc)
        return r
    def entry_cell(self, loc): return View(self.eng, self.f, self.regs, self.entry).cell(loc)
    def allcells(self, cls):
        """all (loc, value) in entry state with that class"""
        r = []
        for o, os in self.entry.mem.items():
            for off, c in os.cells.items():
                if isinstance(c, cls): r.append(((o, off), c))
        return r

def exec_loop(eng, f, hdr, prv, regs, st):
    body = f.loops()[hdr]
    n = unroll_limit(eng, f)
    key = (f.name, hdr, tuple(eng.stack))
    if key not in eng.nounroll:
        eng.loopstack.append(0)
        try: res = try_unroll(eng, f, hdr, prv, regs, st, body, n)
        finally: eng.loopstack.pop()
        if res is not None: return res
        eng.nounroll.add(key)
    eng.nloops += 1
    if any(re.search(rx, f.dem) for rx in getattr(eng, 'peel', ())):      # the first iteration on its own, the invariant from the second on
        done = []; eng.loopstack.append(0)
        try: outs = eng.run(f, hdr, prv, regs, st.copy(), (hdr, body))
        finally: eng.loopstack.pop()
        for o in outs:
            if o.kind != 'back': done.append(o); continue
            done += inv_loop(eng, f, hdr, o.extra[0], o.extra[1], o.st, body)
        return done
    return inv_loop(eng, f, hdr, prv, regs, st, body)

def unroll_limit(eng, f):
    d = getattr(eng, 'unroll_depth', {}).get(len(eng.loopstack) + 1)      # by nesting depth
    if d: return d
    for rx, n in eng.unroll.items():
        if re.search(rx, f.dem): return n
    return 0

def try_unroll(eng, f, hdr, prv, regs, st, body, explicit):
    """complete unrolling; None if the trip count is not decided"""
    rec0 = len(eng.obls); np0 = eng.npaths
    cur = [(prv, regs, st.copy())]
    done = []
    undecided = 0
    for it in range(20000):
        nxt = []
        eng.loopstack[-1] = it
        for (p, r, s) in cur:
            outs = eng.run(f, hdr, p, r, s, (hdr, body))
            backs = [o for o in outs if o.kind == 'back']
            exits = [o for o in outs if o.kind == 'exit']
            for o in outs:
                if o.kind == 'back': nxt.append((o.extra[0], o.extra[1], o.st))
                else: done.append(o)
            if backs and exits:
                undecided += 1
        lim = explicit or 0
        if nxt and ((undecided > lim) or len(nxt) > max(64, lim) or (len(nxt) > 1 and len(done) + len(nxt) > max(200, 2 * lim))):
            del eng.obls[rec0:]
            eng.npaths = np0
            return None
        if not nxt: return done
        cur = nxt
    del eng.obls[rec0:]
    return None

def const_names(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
        else: st.extend(x.children())
    return acc

def ctr_of(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else -1

def dbg_signed(eng, f, o):
    nm = o.name[1:] if o.name.startswith('%') else None
    v = getattr(f, 'dbgvars', {}).get(nm)
    if v is None: return None
    return eng.mod.var_signed(v)[1]

def uninterp(c): return z3.is_app(c) and c.num_args() and c.decl().kind() == z3.Z3_OP_UNINTERPRETED
def normlab(s): return re.sub(r'iter!\d+', 'iter', s)
GENERIC = re.compile(r'^(ge-entry|le-entry|range-|i32|guard held)')
def inv_loop(eng, f, hdr, prv, regs, st0, body):
    eng.loopstack.append(None)
    try: return inv_loop_(eng, f, hdr, prv, regs, st0, body)
    finally: eng.loopstack.pop()

def inv_loop_(eng, f, hdr, prv, regs, st0, body):
    hint_fns = []
    for rx, h in eng.loop_hints.items():
        if re.search(rx, f.dem) or (eng.cur and re.search(rx, eng.cur)): hint_fns.append(h)
    rec = eng.rec
    eng.rec = False
    if any(i.op == 'phi' for i in f.blocks[hdr]): raise Unsupported('phi at a loop header')   # ir.Fn.demote has removed them
    mkey = (f.name, hdr, tuple(eng.stack))
    disc0 = eng.disc
    try:
        m0, g0_ = eng.modmemo.get(mkey, ((), ()))
        def present(l): return l[0] == 'ghost' or (l[0] in st0.mem and (l[1] == 'arr' and st0.mem[l[0]].arr is not None or l[1] != 'arr' and st0.mem[l[0]].arr is None))
        mod = {l for l in m0 if present(l)}
        strides = {}
        genmod = {g for g in g0_ if present(g[1])}
        # ---- discovery of the modified set
        eng.disc = True; skip0 = eng.discskip; eng.discskip = False
        for rnd in range(12):
            h, leaf, k = build_head(eng, f, regs, st0, mod, {}, genmod)
            eng.loopstack[-1] = k
            outs = eng.run(f, hdr, prv, regs, h.copy(), (hdr, body))
            new = set()
            for o in outs:
                if o.kind == 'back': new |= diff(h, o.st)
            if not any(o.kind == 'back' for o in outs): break
            bad = [l for l in new if l[1] in ('dead',)]
            if any(l[1] == 'toarr' for l in new):
                # convert up front
                for l in [l for l in new if l[1] == 'toarr']:
                    back = [o for o in outs if o.kind == 'back' and o.st.mem[l[0]].arr is not None][0]
                    st0 = st0.copy(); eng.to_array(st0, l[0], back.st.mem[l[0]].es, None)
                    new.discard(l)
                mod = {l for l in mod if l[0] not in [x[0] for x in new]}
                continue
            if bad: raise Unsupported('loop frees an object: %s' % bad)
            g0 = len(genmod)
            for o in outs:
                if o.kind != 'back': continue
                for loc in new | mod:
                    if loc[0] == 'ghost' or loc[1] == 'arr' or loc[0] not in h.mem: continue
                    x, y = h.mem[loc[0]].cells.get(loc[1]), o.st.mem[loc[0]].cells.get(loc[1])
                    if isinstance(x, Vec) and isinstance(y, Vec) and x.gen != y.gen: genmod.add(('gen', loc))
            if new <= mod and len(genmod) == g0: break
            mod |= new
        else: raise Unsupported('modified set does not stabilise')
        eng.disc = disc0
        eng.modmemo[mkey] = (set(mod), set(genmod))
        if eng.disc:
            # an enclosing loop is only collecting what is modified: no invariant needed
            eng.discskip = True
            return [o for o in outs if o.kind != 'back']
        if eng.discskip:
            # inner loops were skipped above: one pass with their invariants, to see the strides
            eng.stridepass += 1
            try: outs = eng.run(f, hdr, prv, regs, h.copy(), (hdr, body))
            finally: eng.stridepass -= 1
        eng.discskip = skip0
        backs = [o for o in outs if o.kind == 'back']
        # ---- strides
        for loc in mod:
            if loc[0] == 'ghost' or loc[1] == 'arr': continue
            hv = h.mem[loc[0]].cells.get(loc[1])
            ent = st0.mem[loc[0]].cells.get(loc[1]) if loc[0] in st0.mem else None
            if hv is None or ent is None: continue
            hl = leafvals(hv)
            for j, x in enumerate(hl):
                if not (isinstance(x, z3.ArithRef) or isc(x)): continue
                ds = set()
                for o in backs:
                    nv = o.st.mem[loc[0]].cells.get(loc[1])
                    if nv is None or type(nv) != type(hv): ds.add(None); break
                    y = leafvals(nv)[j]
                    d = sub(y, x)
                    if not isc(d) :
                        d = d if const_names(d) and all(ctr_of(nm) < h.g['__ctr'] for nm in const_names(d)) and z3.is_const(d) else None
                    ds.add(d if isc(d) or d is None else ('e', d.get_id(), d))
                if len(ds) == 1 and None not in ds:
                    d = ds.pop()
                    if isc(d): strides[(loc, j)] = d
        # ---- candidates
        cands = []
        ctx = LoopCtx(eng, f, hdr, regs, st0, mod)
        ctx.head, ctx.backs = h, backs
        for (loc, j), s in strides.items():
            ent = st0.mem[loc[0]].cells.get(loc[1])
            if isinstance(ent, IVal) and s != 0:
                n = ent.n
                def ru(v, k, loc=loc, n=n):
                    e = v.cell(loc).e
                    return zand(cmpx('>=', e, 0), cmpx('<', e, 1 << n))
                def rs(v, k, loc=loc, n=n):
                    e = v.cell(loc).e
                    return zand(cmpx('>=', e, -(1 << (n-1))), cmpx('<', e, 1 << (n-1)))
                cands.append(('range-u %s' % (loc,), ru)); cands.append(('range-s %s' % (loc,), rs))
        for loc in mod:
            if loc[0] == 'ghost' or loc[1] == 'arr': continue
            ent = st0.mem[loc[0]].cells.get(loc[1])
            if isinstance(ent, IVal) and (loc, 0) not in strides:
                e0 = ent.e
                cands.append(('ge-entry %s' % (loc,), lambda v, k, loc=loc, e0=e0: cmpx('>=', v.cell(loc).e, e0)))
                cands.append(('le-entry %s' % (loc,), lambda v, k, loc=loc, e0=e0: cmpx('<=', v.cell(loc).e, e0)))
                if ent.n == 32:
                    cands.append(('i32 %s' % (loc,), lambda v, k, loc=loc: zand(cmpx('>=', v.cell(loc).e, 0), cmpx('<', v.cell(loc).e, 1 << 31))))
        defc = []     # candidate closed forms: (label, (loc, j), fn(k))
        for hf in hint_fns:
            for h_ in hf(ctx) or []:
                if len(h_) == 3: defc.append(h_)
                else: cands.append(h_)
        axioms = []
        for hx in hint_fns:
            ax = getattr(hx, 'axioms', None)
            if ax: axioms.append(ax)
        s0 = st0.copy(); eng.loopstack[-1] = z3.IntVal(0)
        for axf in axioms:
            for cc in axf(s0, z3.IntVal(0)): s0.assume(cc)
        dk = []
        for lab, lj, fn in defc:
            if lj in strides and (lj[0] in mod) and not isinstance(strides[lj], tuple): continue
            cell = View(eng, f, regs, st0).cell(lj[0])
            if cell is None: continue
            lv0 = cell if lj[0][1] == 'arr' else leafvals(cell)[lj[1]]
            try: c = simp(as_bool(zeq2(lv0, fn(0))))
            except (AttributeError, TypeError, KeyError, z3.Z3Exception): continue
            if c is True or (c is not False and eng.solver.check(s0.pc + [z3.Not(c)], 3000)[0] == z3.unsat): dk.append((lab, lj, fn))
            elif getattr(eng, 'debug', None): print('   def fails at entry:', lab)
        defc = dk
        entry_view = View(eng, f, regs, st0)
        kept = []
        for lab, fn in cands:
            try: c = fn(entry_view, 0)
            except (AttributeError, TypeError, KeyError): continue
            if c is None: continue
            c = simp(c) if not isinstance(c, bool) else c
            if c is True or (c is not False and eng.solver.check(s0.pc + [z3.Not(c)], 3000)[0] == z3.unsat):
                kept.append((lab, fn))
            elif getattr(eng, 'debug', None): print('   cand fails at entry:', lab, str(c)[:300].replace(chr(10), ' '))
        dm = eng.dropmemo.setdefault(mkey, set())
        cands = [x for x in kept if normlab(x[0]) not in dm]
        guard_done = False
        fast = getattr(eng, 'fastloops', False) and not rec and len(eng.loopstack) > 1 and mkey in eng.keptmemo
        if fast:
            # the candidates that were inductive before; the recorded pass proves them from this very entry state
            cands = [x for x in cands if normlab(x[0]) in eng.keptmemo[mkey]]
            defc = [x for x in defc if normlab(x[0]) in eng.keptmemo[mkey]]
            strides = {a: s_ for a, s_ in strides.items() if str(a) in eng.keptmemo[mkey]}
            eng.assumedkept.setdefault(mkey, set()).update([normlab(x[0]) for x in cands + defc] + [str(a) for a in strides])
        for rnd in range(10 if not fast else 0):
            defs = {}
            for d_ in defc: defs.setdefault(d_[1], d_)
            h, leaf, k = build_head(eng, f, regs, st0, mod, strides, genmod, defs)
            eng.loopstack[-1] = k
            for ax in axioms:
                for c in ax(h, k): h.assume(c)
            hv = View(eng, f, regs, h)
            for lab, fn in cands: h.assume(as_bool(fn(hv, k)))
            npc = len(h.pc)
            outs = eng.run(f, hdr, prv, regs, h.copy(), (hdr, body))
            backs = [o for o in outs if o.kind == 'back']
            dropped = False
            if not guard_done and backs:
                guard_done = True
                gs = prev_guards(eng, h, k, npc, backs, leaf)
                gs = [g for g in gs if normlab('guard held in the previous iteration: %s' % str(g)[:80]) not in dm]
                for g in gs:
                    cands.append(('guard held in the previous iteration: %s' % str(g)[:80], lambda v, kk, g=g, k=k: zor(zeq(kk, 0), z3.substitute(g, (k, zi(sub(kk, 1)))))))
                if gs: dropped = True
            for o in backs:
                ov = View(eng, f, o.extra[1], o.st)
                # induction variables keep their closed form
                for (loc, j), s in strides.items():
                    ent = leafvals(st0.mem[loc[0]].cells[loc[1]])[j]
                    nv = o.st.mem[loc[0]].cells.get(loc[1])
                    d = sub(leafvals(nv)[j], add(ent, mul(s, k + 1))) if nv is not None else None
                    if not isc(d) or d != 0:
                        if d is None or eng.solver.check(o.st.pc + [z3.Not(zeq(d, 0))], 3000)[0] != z3.unsat:
                            strides[(loc, j)] = None
                for lj, d_ in defs.items():
                    if d_ not in defc: continue
                    cell = ov.cell(lj[0])
                    try: c = simp(as_bool(zeq2(cell if lj[0][1] == 'arr' else leafvals(cell)[lj[1]], d_[2](k + 1))))
                    except (AttributeError, TypeError, KeyError, IndexError, z3.Z3Exception): c = False
                    if c is True: continue
                    r = eng.solver.check(o.st.pc + ([z3.Not(c)] if c is not False else []), 8000)[0]
                    if r != z3.unsat and c is not False:
                        for fb in eng.fallbacks:
                            if fb(eng, o.st.pc, c)[0]: r = z3.unsat; break
                    if r != z3.unsat:
                        defc.remove(d_); dropped = True
                        if getattr(eng, 'debug', None): print('   dropped def', d_[0], r, c)
                for lab, fn in list(cands):
                    try: c = fn(ov, k + 1)
                    except (AttributeError, TypeError, KeyError): c = False
                    c = simp(as_bool(c))
                    if c is True: continue
                    if c is False: r = eng.solver.check(o.st.pc, 2000)[0]
                    else:
                        gen = GENERIC.match(lab)
                        r = eng.solver.check(o.st.pc + [z3.Not(c)], 500 if eng.nl_first else 6000)[0]
                        if r != z3.unsat and not (eng.nl_first and r == z3.sat and not uninterp(c)):
                            for fb in eng.fallbacks if not GENERIC.match(lab) else ():
                                if fb(eng, o.st.pc, c)[0]: r = z3.unsat; break
                    if r != z3.unsat:
                        cands.remove((lab, fn)); dropped = True
                        if not eng.stridepass: dm.add(normlab(lab))
                        if getattr(eng, 'debug', None): print('   dropped', lab, r)
            if any(s is None for s in strides.values()):
                strides = {a: s for a, s in strides.items() if s is not None}; dropped = True
            if not dropped: break
        else:
            if not fast: raise Unsupported('invariant inference does not stabilise')
        if getattr(eng, 'fastloops', False) and not fast:
            got = {normlab(x[0]) for x in cands + defc} | {str(a) for a in strides}
            if rec and not eng.assumedkept.get(mkey, set()) <= got: raise Unsupported('an inner invariant assumed while searching is not established: %s' % (eng.assumedkept[mkey] - got))
            got = {x for x in got if not x.startswith('guard held')}
            if not rec: eng.keptmemo[mkey] = eng.keptmemo[mkey] & got if mkey in eng.keptmemo else got
    finally:
        eng.rec = rec; eng.disc = disc0
    # ---- final, recorded pass
    defs = {}
    for d_ in defc: defs.setdefault(d_[1], d_)
    h, leaf, k = build_head(eng, f, regs, st0, mod, strides, genmod, defs)
    eng.loopstack[-1] = k
    for ax in axioms:
        for c in ax(h, k): h.assume(c)
    hv = View(eng, f, regs, h)
    for lab, fn in cands: h.assume(as_bool(fn(hv, k)))
    if getattr(eng, 'debug', None):
        print('  loop', f.dem[:60], hdr, 'mod', sorted(map(str, mod)), 'strides', {str(a): s for a, s in strides.items()}, 'inv', [c[0] for c in cands])
    outs = eng.run(f, hdr, prv, regs, h.copy(), (hdr, body))
    res = []
    if rec:
        for d_ in defs.values():
            eng.obls.append(Oblig(eng.cur, 'loop invariant established and preserved: ' + re.sub(r'#\d+', '', d_[0]), hdr, True, 'z3', 0.0))
        for lab, fn in cands:
            eng.obls.append(Oblig(eng.cur, 'loop invariant established and preserved: ' + re.sub(r'#\d+', '', lab), hdr, True, 'z3', 0.0))
    if getattr(eng, 'termination', False) and rec:
        for o in outs:
            if o.kind == 'back': check_variant(eng, f, hdr, st0, h, k, o, strides, cands)
    eng.loop_log.append((f.dem, hdr, len(cands)))
    lh = getattr(eng, 'loop_exit_hook', None)
    for o in outs:
        if o.kind == 'back': continue
        if lh: lh(eng, f, hdr, k, o)
        res.append(o)
    for hf in hint_fns:
        ax = getattr(hf, 'at_exit', None)
        if ax: res = ax(ctx, res)
    return res

def trivial_br(i):
    return i.x[0] if len(i.x) == 1 else None

def merge_exits(eng, f, outs, npc):
    """join the exits of a loop that reach the same block: facts common to all of them are kept,
    locations that differ become arbitrary (sound weakening)"""
    groups = {}
    res = []
    for o in outs:
        while o.kind == 'exit' and len(f.blocks[o.extra[0]]) == 1 and f.blocks[o.extra[0]][0].op == 'br' and trivial_br(f.blocks[o.extra[0]][0]):
            o.extra = (trivial_br(f.blocks[o.extra[0]][0]), o.extra[0], o.extra[2])
        if o.kind != 'exit' or any(i.op == 'phi' for i in f.blocks[o.extra[0]]): res.append(o); continue
        groups.setdefault(o.extra[0], []).append(o)
    for blk, os_ in groups.items():
        if len(os_) == 1: res += os_; continue
        a = os_[0]
        objs = [x for x in a.st.mem if all(x in o.st.mem for o in os_)]
        if any(len(o.st.mem) != len(objs) for o in os_): res += os_; continue
        st = a.st.copy()
        ok = True
        for o in os_[1:]:
            d = diff(a.st, o.st)
            for loc in d:
                if loc[0] == 'ghost' or loc[1] in ('dead', 'toarr', 'arr'): ok = False; break
                v = a.st.mem[loc[0]].cells.get(loc[1])
                os2 = st.mem[loc[0]].copy()
                if isinstance(v, IVal): os2.cells[loc[1]] = eng.mkint(st, v.n, fresh('join'), False) 
                else: ok = False; break
                st.mem[loc[0]] = os2
            if not ok: break
        if not ok: res += os_; continue
        common = set(c.get_id() for c in a.st.pc)
        for o in os_[1:]: common &= set(c.get_id() for c in o.st.pc)
        st.pc = [c for c in a.st.pc if c.get_id() in common] + [c for c in st.pc[len(a.st.pc):]]
        st.limbs = {}
        res.append(Out('exit', st, None, a.extra))
    return res

def check_variant(eng, f, hdr, st0, h, k, o, strides, cands):
    """an upper bound on k must follow: look for a prev-guard style bound; obligation 'loop terminates'"""
    # search a bound: any induction variable that is bounded in its direction by a loop-invariant term
    ok = False
    for (loc, j), s in strides.items():
        if s == 0: continue
        ent = st0.mem[loc[0]].cells[loc[1]]
        if isinstance(ent, IVal):
            e = add(leafvals(ent)[j], mul(s, k))
            # representable range of the type bounds it
            n = ent.n
            c = z3.And(zi(e) >= -(1 << n), zi(e) < (1 << n))
            if eng.solver.check(o.st.pc + [z3.Not(c)], 3000)[0] == z3.unsat: ok = True; break
    eng.obls.append(Oblig(eng.cur, 'loop terminates (bounded induction variable)', hdr, ok, 'z3', 0.0))

def as_bool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c

def zeq2(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return zb(a) == zb(b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and not z3.is_int(a): return a == b
    return zeq(a, b)

def build_head(eng, f, regs, st0, mod, strides, genmod, defs={}):
    genmod = genmod or set()
    h = st0.copy()
    k = fresh('iter')
    h.assume(k >= 0)
    leaf = {}
    # one OS copy per object
    for loc in sorted(mod, key=lambda l: (getattr(l[0], 'id', 0), str(l[1]))):
        if loc[0] == 'ghost':
            v = st0.g.get(loc[1])
            if isinstance(v, z3.ExprRef): h.g[loc[1]] = fresh('g_' + str(loc[1]), v.sort())
            elif isc(v): h.g[loc[1]] = fresh('g_' + str(loc[1]))
            else: h.g[loc[1]] = None
            continue
        o, off = loc
        os = h.mem[o].copy()
        if off == 'arr' and (loc, 0) in defs:
            os.arr = defs[(loc, 0)][2](k)
        elif off == 'arr':
            os.arr = fresh('arr_' + o.name.strip('%'), os.arr.sort())
            leaf[(loc, 0)] = os.arr
        else:
            v = os.cells.get(off)
            nv = None
            if isinstance(v, IVal):
                if (loc, 0) in strides:
                    e = add(v.e, mul(strides[(loc, 0)], k))
                    nv = IVal(v.n, e)
                elif (loc, 0) in defs:
                    nv = IVal(v.n, defs[(loc, 0)][2](k))
                else:
                    sg = dbg_signed(eng, f, o)
                    e = fresh(o.name.strip('%'))
                    if v.n == 1 or (v.n == 8 and v.tag and v.tag[0] == 'bool'):
                        h.assume(z3.And(e >= 0, e <= 1)); nv = IVal(v.n, e, 0, 1)
                    else: nv = eng.mkint(h, v.n, e, bool(sg))
                    leaf[(loc, 0)] = e
            elif isinstance(v, PVal):
                if v.o is None: nv = None
                elif (loc, 0) in strides: nv = PVal(v.o, add(v.off, mul(strides[(loc, 0)], k)))
                elif (loc, 0) in defs: nv = PVal(v.o, simp(defs[(loc, 0)][2](k)))
                else:
                    e = fresh('off_' + o.name.strip('%')); leaf[(loc, 0)] = e
                    es = ptr_elem(eng, v, h)
                    nv = PVal(v.o, mul(es, e) if es else e)
            elif isinstance(v, FVal): nv = FVal(fresh('f', F64S))
            elif hasattr(v, 'leaves'):
                ls = []
                for j, (nm, x) in enumerate(v.leaves()):
                    if (loc, j) in strides: ls.append(add(x, mul(strides[(loc, j)], k)))
                    elif (loc, j) in defs: ls.append(defs[(loc, j)][2](k))
                    else:
                        srt = x.sort() if isinstance(x, z3.ExprRef) else (z3.BoolSort() if isinstance(x, bool) else z3.IntSort())
                        e = fresh('%s_%s' % (o.name.strip('%'), nm), srt); leaf[(loc, j)] = e
                        if nm == 'len': h.assume(z3.And(e >= 0, e < (1 << 48)))
                        ls.append(e)
                nv = v.rebuild(ls)
                if isinstance(nv, Mpz):
                    h.limbs[nv.limb] = h.limbs.get(nv.limb) or 0
                    nv = Mpz(nv.val, nv.limb, h.limbs[nv.limb])
                if isinstance(nv, Vec) and ('gen', loc) in genmod: nv.gen = next(E._ctr)
            if nv is None:
                os.cells.pop(off, None)
            else: os.cells[off] = nv
        h.mem[o] = os
    h.g['__ctr'] = next(E._ctr)
    return h, leaf, k

def ptr_elem(eng, v, st):
    o = v.o
    if o.kind == 'vecdata':
        w = eng.vec_of(st, o)
        if w is not None: return w.es
    os = st.mem.get(o)
    if os is not None and os.arr is not None and os.es: return os.es
    return 1

def flat(cs):
    for c in cs:
        if z3.is_and(c):
            yield from flat(c.children())
        else: yield c

def prev_guards(eng, h, k, npc, backs, leaf):
    sets = []
    lv = {x.decl().name() for x in leaf.values() if isinstance(x, z3.ExprRef) and z3.is_const(x)}
    for o in backs:
        sets.append({c.get_id(): c for c in flat(o.st.pc[npc:])})
    common = set(sets[0])
    for s in sets[1:]: common &= set(s)
    kname = k.decl().name()
    out = []
    for i in common:
        c = sets[0][i]
        nms = const_names(c)
        if (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c) or z3.is_not(c)) and kname in nms and not (nms & lv) and all(ctr_of(n) <= h.g['__ctr'] for n in nms):
            out.append(c)
    return out[:12]

"""Polynomial-identity back end: decides whether an equation between integer polynomials follows
from equations among the hypotheses (ideal membership over Q with saturation by factors known to be
nonzero; sound for integers because Z is an integral domain of characteristic 0)."""
import z3, time
import sympy as sp
from sympy import QQ
from sympy.polys.rings import ring

class TooBig(Exception): pass

def atoms_of(e, acc):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if z3.is_int_value(x): continue
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): st.extend(x.children()); continue
        if k == z3.Z3_OP_POWER and z3.is_int_value(x.arg(1)) and 0 <= x.arg(1).as_long() <= 8: st.append(x.arg(0)); continue
        acc.setdefault(x.get_id(), x)
    return acc

def topoly(e, gens, R, memo):
    i = e.get_id()
    if i in memo: return memo[i]
    if z3.is_int_value(e): r = R(e.as_long())
    elif i in gens: r = gens[i]
    else:
        k = e.decl().kind(); c = [topoly(x, gens, R, memo) for x in e.children()] if k != z3.Z3_OP_POWER else None
        if k == z3.Z3_OP_ADD:
            r = R(0)
            for x in c: r = r + x
        elif k == z3.Z3_OP_MUL:
            r = R(1)
            for x in c:
                r = r * x
                if len(r) > 20000: raise TooBig()
        elif k == z3.Z3_OP_SUB:
            r = c[0]
            for x in c[1:]: r = r - x
        elif k == z3.Z3_OP_UMINUS: r = -c[0]
        elif k == z3.Z3_OP_POWER: r = topoly(e.arg(0), gens, R, memo) ** e.arg(1).as_long()
        else: raise TooBig()
    memo[i] = r
    return r

def equations(pc):
    out = []
    def go(c):
        while z3.is_not(c) and z3.is_not(c.arg(0)): c = c.arg(0).arg(0)
        if z3.is_and(c):
            for x in c.children(): go(x)
        elif z3.is_not(c) and z3.is_distinct(c.arg(0)) and c.arg(0).num_args() == 2 and z3.is_int(c.arg(0).arg(0)): out.append((c.arg(0).arg(0), c.arg(0).arg(1)))
        elif z3.is_eq(c) and z3.is_int(c.arg(0)): out.append((c.arg(0), c.arg(1)))
    for c in pc: go(c)
    return out

def relevant(eqs, goal, limit):
    """equations connected to the goal through atoms"""
    infos = []
    for a, b in eqs:
        s = set(atoms_of(a, {})) | set(atoms_of(b, {})); infos.append(s)
    need = set(); need |= set(atoms_of(goal[0], {})) | set(atoms_of(goal[1], {}))
    used = set()
    ch = True
    while ch and len(used) < limit:
        ch = False
        for i, s in enumerate(infos):
            if i not in used and s & need and len(used) < limit:
                used.add(i); need |= s; ch = True
    return [eqs[i] for i in sorted(used)]

def subst(p, idx, val):
    """replace generator idx by polynomial val"""
    R = p.ring; r = R(0); pw = {0: R(1)}
    for mon, co in p.terms():
        d = mon[idx]
        if d == 0: r = r + R({mon: co}); continue
        if d not in pw:
            k = max(pw)
            while k < d: pw[k+1] = pw[k] * val; k += 1
        m2 = tuple(0 if j == idx else x for j, x in enumerate(mon))
        r = r + R({m2: co}) * pw[d]
        if len(r) > 20000: raise TooBig()
    return r

def implied(pc, goal, nonzero=(), secs=20, groebner=True, limit=80):
    """goal: (lhs, rhs) z3 Int terms; nonzero: z3 terms known to be nonzero"""
    t0 = time.time()
    eqs = relevant(equations(pc), goal, limit)
    at = {}
    for a, b in eqs + [goal]: atoms_of(a, at); atoms_of(b, at)
    for x in nonzero: atoms_of(x, at)
    if not at: return False
    ids = sorted(at)
    R, *gs = ring(['x%d' % i for i in range(len(ids))], QQ, order='grevlex')
    gens = dict(zip(ids, gs)); memo = {}
    try:
        facts = []
        for a, b in eqs:
            p = topoly(a, gens, R, memo) - topoly(b, gens, R, memo)
            if p: facts.append(p)
        g = topoly(goal[0], gens, R, memo) - topoly(goal[1], gens, R, memo)
        nzp = [topoly(x, gens, R, memo) for x in nonzero]
        # eliminate generators that occur linearly with a constant coefficient
        ch = True
        while ch:
            ch = False
            if not g: return True
            if time.time() - t0 > secs: return False
            best = None
            for fi, p in enumerate(facts):
                if len(p) > 60: continue
                for j in range(len(gs)):
                    lin = None; ok = True
                    for mon, co in p.terms():
                        if mon[j]:
                            if mon[j] == 1 and sum(mon) == 1: lin = co
                            else: ok = False; break
                    if ok and lin is not None:
                        occ = sum(1 for q in facts if any(m[j] for m in q.monoms())) + len(p) * 2
                        if best is None or occ < best[0]: best = (occ, fi, j, lin)
                        break
            if best:
                _, fi, j, lin = best
                p = facts.pop(fi)
                val = gs[j] - p / lin if lin != 1 else gs[j] - p
                facts = [q for q in (subst(q, j, val) for q in facts) if q]
                g = subst(g, j, val); nzp = [subst(x, j, val) for x in nzp]
                ch = True
        if not g: return True
        # drop facts not connected
        if not facts: return False
        need = {j for m in g.monoms() for j, d in enumerate(m) if d}
        used = []
        ch = True; rest = list(facts)
        while ch:
            ch = False
            for p in list(rest):
                s = {j for m in p.monoms() for j, d in enumerate(m) if d}
                if s & need: used.append(p); rest.remove(p); need |= s; ch = True
        facts = used
        # plain multivariate division, also after multiplication by nonzero factors
        muls = [R(1)] + nzp + [x * y for i, x in enumerate(nzp) for y in nzp[i:]]
        for mfac in muls:
            if time.time() - t0 > secs: return False
            if not (g * mfac).rem(facts): return True
        if not groebner: return False
        return gb_member(facts, g, muls, t0, secs, R)
    except TooBig: return False

def gb_member(facts, g, muls, t0, secs, R):
    import signal
    from sympy.polys.groebnertools import groebner
    class TO(Exception): pass
    def h(*a): raise TO()
    left = max(1, int(secs - (time.time() - t0)))
    old = signal.signal(signal.SIGALRM, h); signal.alarm(left)
    try:
        # restrict to the generators in use
        G = groebner(facts, R)
        for m in muls:
            if not (g * m).rem(G): return True
        return False
    except TO: return False
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)

def fallback(nonzero=lambda: (), secs=20):
    """prover hook for the engine: equations (and conjunctions of equations) only"""
    def fb(eng, pc, goal):
        gs = list(goal.children()) if z3.is_and(goal) else [goal]
        for q in gs:
            if not (z3.is_eq(q) and z3.is_int(q.arg(0))): return False, ''
            t = time.time()
            nz = list(nonzero()) if callable(nonzero) else list(nonzero)
            if not implied(pc, (q.arg(0), q.arg(1)), nz, secs): return False, ''
        return True, 'polynomial identities (ideal membership)'
    return fb

def or_fallback(secs=20, maxhyps=3):
    """goals that are disjunctions of equations: case split on the disjunctive hypotheses, then ideal membership"""
    def fb(eng, pc, goal):
        if not z3.is_or(goal): return False, ''
        eqs = [g for g in goal.children() if z3.is_eq(g) and z3.is_int(g.arg(0))]
        if not eqs: return False, ''
        t0 = time.time()
        hy = [c for c in pc if z3.is_or(c) and 2 <= c.num_args() <= 3 and all(equations([x]) for x in c.children())][-6:]
        def rec(fs, rest, d):
            for g in eqs:
                if implied(fs, (g.arg(0), g.arg(1)), (), 6): return True
            if d == 0 or time.time() - t0 > secs: return False
            for i, h in enumerate(rest):
                if all(rec(fs + [x], rest[:i] + rest[i+1:], d - 1) for x in h.children()): return True
            return False
        return rec(list(pc), hy, maxhyps), 'polynomial identities by cases (ideal membership)'
    return fb

# ---------------------------------------------------------------- divisibility
_I = z3.IntSort()
DVD = z3.Function('divides', _I, _I, z3.BoolSort())

def dvd_facts(pc):
    out = []
    def go(c):
        if z3.is_and(c):
            for x in c.children(): go(x)
        elif z3.is_app(c) and c.decl().eq(DVD): out.append((c.arg(0), c.arg(1)))
    for c in pc: go(c)
    return out

def divides(pc, m, t, secs=20, limit=120):
    """m | t from equations and divisibility facts; only integer coefficients are used (every
    elimination divides by a unit), so the conclusion is a divisibility of integers"""
    t0 = time.time()
    eqs0 = equations(pc); facts0 = [x for mm, x in dvd_facts(pc) if mm.eq(m)]
    k = [z3.FreshInt('dvq') for _ in facts0]
    # a fact m | x is the equation x = m * quotient
    eqs = eqs0 + [(x, m * q) for x, q in zip(facts0, k)]
    eqs = relevant(eqs, (t, m), limit)
    at = {}
    for a, b in eqs + [(t, m)]: atoms_of(a, at); atoms_of(b, at)
    ids = sorted(at)
    if m.get_id() not in at: return False
    R, *gs = ring(['x%d' % i for i in range(len(ids))], QQ, order='grevlex')
    gens = dict(zip(ids, gs)); memo = {}; mi = ids.index(m.get_id())
    def done(g): return all(mon[mi] and co.denominator == 1 for mon, co in g.terms())
    try:
        facts = [f for f in (topoly(a, gens, R, memo) - topoly(b, gens, R, memo) for a, b in eqs) if f]
        g = topoly(t, gens, R, memo)
        while True:
            if done(g): return True
            if time.time() - t0 > secs: return False
            best = None
            for fi, p in enumerate(facts):
                if len(p) > 80: continue
                for j in range(len(gs)):
                    if j == mi: continue
                    lin = None; ok = True
                    for mon, co in p.terms():
                        if co.denominator != 1: ok = False; break
                        if mon[j]:
                            if mon[j] == 1 and sum(mon) == 1 and co in (1, -1): lin = co
                            else: ok = False; break
                    if ok and lin is not None:
                        occ = sum(1 for q in facts if any(x[j] for x in q.monoms())) + len(p) * 2
                        if best is None or occ < best[0]: best = (occ, fi, j, lin)
            if not best: return False
            _, fi, j, lin = best
            p = facts.pop(fi)
            val = gs[j] - p * lin
            facts = [q for q in (subst(q, j, val) for q in facts) if q]
            g = subst(g, j, val)
    except TooBig: return False

def dvd_fallback(secs=20):
    def fb(eng, pc, goal):
        if not (z3.is_app(goal) and goal.decl().eq(DVD)): return False, ''
        if divides(pc, goal.arg(0), goal.arg(1), secs): return True, 'divisibility by integer elimination'
        return False, ''
    return fb

# ---------------------------------------------------------------- products of inequalities
class Lin:
    """Rewrites formulas over integer polynomials to linear arithmetic: every nonlinear monomial becomes a
    variable; the monomials are tied together by valid implications (p>=0 and q>=0 imply pq>=0, ...) for
    pairs of terms taken from the problem.  Unsatisfiability of the result implies that of the original."""
    def __init__(self): self.pm = {}; self.fm = {}; self.mon = {}; self.polys = {}; self.atoms = {}; self.pset = {}
    def poly(self, e):
        i = e.get_id()
        if i in self.pm: return self.pm[i][1]
        if z3.is_int_value(e): r = {(): e.as_long()} if e.as_long() else {}
        else:
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = {}
                for x in e.children(): r = padd(r, self.poly(x))
            elif k == z3.Z3_OP_SUB:
                r = dict(self.poly(e.arg(0)))
                for x in e.children()[1:]: r = padd(r, self.poly(x), -1)
            elif k == z3.Z3_OP_UMINUS: r = padd({}, self.poly(e.arg(0)), -1)
            elif k == z3.Z3_OP_MUL:
                r = {(): 1}
                for x in e.children(): r = pmul(r, self.poly(x))
            elif k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 <= e.arg(1).as_long() <= 6:
                r = {(): 1}
                for _ in range(e.arg(1).as_long()): r = pmul(r, self.poly(e.arg(0)))
            else:
                a = self.opaque(e)
                self.atoms[a.get_id()] = a
                r = {(a.get_id(),): 1}
        self.pm[i] = (e, r)
        return r
    def opaque(self, e):
        if e.num_args() == 0: return e
        ch = [self.term(c) for c in e.children()]
        return e.decl()(*ch) if z3.is_app(e) and e.decl().kind() != z3.Z3_OP_ITE else z3.If(ch[0], ch[1], ch[2])
    def term(self, e):
        if z3.is_int(e): return self.build(self.poly(e))
        return self.form(e)
    def mono(self, m):
        if len(m) == 1: return self.atoms[m[0]]
        if m not in self.mon: self.mon[m] = z3.FreshInt('mono')
        return self.mon[m]
    def build(self, p):
        ts = [z3.IntVal(c) if not m else c * self.mono(m) if c != 1 else self.mono(m) for m, c in p.items()]
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.IntVal(0)
    def form(self, e):
        i = e.get_id()
        if i in self.fm: return self.fm[i][1]
        if z3.is_quantifier(e) or not z3.is_app(e): raise TooBig()
        if z3.is_bool(e) and e.num_args() == 2 and z3.is_int(e.arg(0)) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            k = e.decl().kind()
            p = padd(self.poly(e.arg(0)), self.poly(e.arg(1)), -1)
            if p: self.pset[pkey(p)] = p
            b = self.build(p)
            r = {z3.Z3_OP_LE: b <= 0, z3.Z3_OP_GE: b >= 0, z3.Z3_OP_LT: b < 0, z3.Z3_OP_GT: b > 0, z3.Z3_OP_EQ: b == 0, z3.Z3_OP_DISTINCT: b != 0}[k]
        elif e.num_args() == 0: r = e
        elif e.sort().kind() == z3.Z3_ARRAY_SORT: r = e
        else:
            ch = [self.term(c) for c in e.children()]
            k = e.decl().kind()
            if k == z3.Z3_OP_AND: r = z3.And(*ch)
            elif k == z3.Z3_OP_OR: r = z3.Or(*ch)
            elif k == z3.Z3_OP_ITE: r = z3.If(*ch)
            elif k == z3.Z3_OP_EQ: r = ch[0] == ch[1]
            elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
            else: r = e.decl()(*ch)
        self.fm[i] = (e, r)
        return r

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n)); v = r.get(x, 0) + c * d
            if v: r[x] = v
            else: r.pop(x, None)
    if len(r) > 400: raise TooBig()
    return r
def pkey(p):
    k = tuple(sorted(p.items()))
    return k if not k or k[-1][1] > 0 else tuple((m, -c) for m, c in k)

def nlin(pc, goal, secs=6, rounds=1, debug=False):
    L = Lin(); fs = []
    def flat(c):
        if z3.is_and(c):
            for x in c.children(): yield from flat(x)
        else: yield c
    hy = []
    for c in pc:
        for x in flat(c):
            try: fs.append(L.form(x))
            except (TooBig, z3.Z3Exception): pass
    try: fs.append(z3.Not(L.form(goal)))
    except (TooBig, z3.Z3Exception): return False
    if not L.mon: return False
    # pairs of small linear terms whose product stays within the monomials of the problem
    lin = {}
    for p in L.pset.values():
        if all(len(m) <= 1 for m in p) and any(m for m in p) and len(p) <= 4:
            # fold constants: p and p shifted by one share products, keep both forms small
            lin.setdefault(pkey(p), p)
    for a in {x for m in L.mon for x in m}: lin.setdefault((((a,), 1),), {(a,): 1})
    lin = list(lin.values())
    mons = set(L.mon)
    ad = []
    for i, p in enumerate(lin):
        for q in lin[i:]:
            r = pmul(p, q)
            nl = [m for m in r if len(m) > 1]
            if not nl or not all(m in mons for m in nl): continue
            P, Q, B = L.build(p), L.build(q), L.build(r)
            ad.append(z3.And(z3.Implies(z3.And(P >= 0, Q >= 0), B >= 0), z3.Implies(z3.And(P <= 0, Q <= 0), B >= 0), z3.Implies(z3.And(P >= 0, Q <= 0), B <= 0), z3.Implies(z3.And(P <= 0, Q >= 0), B <= 0)))
            if len(ad) > 1500: break
    s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
    s.set('timeout', int(secs * 1000))
    s.add(*fs); s.add(*ad)
    r = s.check()
    if debug: print('nlin', r, 'lin terms', len(lin), 'monomials', len(mons), 'products', len(ad), 'goal', str(goal)[:200])
    return r == z3.unsat

def nlin_slices(pc, goal, debug=False):
    """facts near the goal first: a consequence of fewer hypotheses is a consequence of all"""
    def flat(c):
        if z3.is_and(c):
            for x in c.children(): yield from flat(x)
        else: yield c
    fl = [x for c in pc for x in flat(c)]
    at = []
    memo = {}
    def atoms(x):
        i = x.get_id()
        if i not in memo: memo[i] = frozenset(const_atoms(x))
        return memo[i]
    at = [atoms(x) for x in fl]
    G = set(atoms(goal)); last = 0
    for r in range(3):
        sub = [x for x, a in zip(fl, at) if a and a <= G]
        if len(sub) > last:
            last = len(sub)
            if nlin(sub, goal, 1.5, debug=debug): return True
        N = set(G)
        for x, a in zip(fl, at):
            if len(a) <= 6 and a & G: N |= a
        if N == G: break
        G = N
    return False

def const_atoms(e):
    acc = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): acc.add('?'); continue
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.get_id())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.get_id())
        else: st.extend(x.children())
    return acc

def nlin_fallback(secs=6, debug=False):
    def fb(eng, pc, goal):
        if nlin_slices(pc, goal, debug): return True, 'linear arithmetic with products of hypotheses (z3)'
        if nlin(pc, goal, secs, debug=debug): return True, 'linear arithmetic with products of hypotheses (z3)'
        return False, ''
    return fb

import z3
from vf import *
from specs.group import *
from specs import group
from lib_std import getvec
import ir

XL = z3.Function('chain_x', I_, I_)
IT = z3.Function('chain_iterations', I_, I_)
ALLOK = z3.Function('chain_ok', I_, z3.BoolSort())
SEG = 141

class Chain:
    """the n-Wesolowski chain encoded by proof[0..len): segment k is the k-th from the end"""
    def __init__(self, e, st, D, xkey, proof, ln, iters, checked=True):
        self.e, self.D, self.proof, self.ln, self.checked = e, D, proof, ln, checked
        self.x0 = DES(zi(D), zi(xkey)); self.it0 = iters
        self.xvalid = DV(zi(D), z3.IntVal(0), zi(xkey))
        st.assume(XL(0) == self.x0); st.assume(IT(0) == zi(iters)); st.assume(ALLOK(0))
    def parts(self, st, k):
        off = simp(zi(self.ln) - SEG*(zi(k) + 1))
        it = bytes_to_int(self.e, st, PVal(self.proof.o, off), 8, True)
        B = bytes_to_int(self.e, st, PVal(self.proof.o, simp(off + 8)), 33, True)
        pk = bytes_to_int(self.e, st, PVal(self.proof.o, simp(off + 41)), 100, True)
        return it, B, pk
    def unfold(self, st, k):
        """definition of the chain at segment k (definitional axioms, as a list)"""
        s = State(); s.pc = []; s.mem = st.mem
        it, B, pk = self.parts(s, k)
        D = zi(self.D)
        r = POWM(z3.IntVal(2), zi(it), zi(B))
        nxt = B * DES(D, pk) + r * XL(zi(k))
        ok = [DV(D, z3.IntVal(0), pk), zi(B) != 0, it <= IT(zi(k))]
        if self.checked: ok.append(GB(D, XL(zi(k)), XL(zi(k) + 1)) == B)
        return s.pc + [XL(zi(k) + 1) == nxt, IT(zi(k) + 1) == IT(zi(k)) - it, ALLOK(zi(k) + 1) == z3.And(ALLOK(zi(k)), *ok)]
    def mono(self, k, depth):
        """ALLOK(depth) and k < depth give ALLOK(k+1) (induction on the definition)"""
        return z3.Implies(z3.And(ALLOK(zi(depth)), zi(k) >= 0, zi(k) < zi(depth)), ALLOK(zi(k) + 1))
    def hint(self, depth):
        def h(ctx):
            C = []
            for loc in ctx.locs(FormV):
                C.append(('running form is the chain value', (loc, 0), lambda k: XL(zi(k))))
                C.append(('running form is reduced', lambda v, k, loc=loc: v.cell(loc).red))
            for loc in ctx.locs(IVal):
                C.append(('remaining iterations', (loc, 0), lambda k: IT(zi(k))))
            C.append(('all segments so far hold', lambda v, k: ALLOK(zi(k))))
            C.append(('segments within the blob', lambda v, k: zi(k) <= zi(depth)))
            C.append(('iterations do not wrap', lambda v, k: z3.And(IT(zi(k)) >= 0, IT(zi(k)) <= zi(self.it0))))
            return C
        h.axioms = lambda s, k: self.unfold(s, k) + [self.mono(k, depth)]
        return h

def setup(e, st, xnull=False, pnull=False):
    D = z3.Int('D')
    ln, it, dsb, depth = u(st, 'proof_len'), u(st, 'iterations'), u(st, 'disc_size_bits'), u(st, 'depth')
    st.assume(ln < (1 << 62))       # size of an existing buffer
    pD = arg_mpz(e, st, 'D', D)
    e.formD = D
    bitlen(e, st, D)
    px = NULL if xnull else arg_buf(e, st, 'x_s', 100)
    pp = NULL if pnull else arg_buf(e, st, 'proof_blob', ln)
    return D, ln, it, dsb, depth, pD, px, pp

def reject_kinds(e, o):
    e.check(o.st, o.st.exc[0] in ('St13runtime_error', 'St16invalid_argument', 'St12length_error', 'St14overflow_error'), 'rejection by exception is a documented std::exception')

def t_check(nulls=(False, False)):
    mod = lower('core.cpp')
    f = find(mod, r'^CheckProofOfTimeNWesolowski\(')
    e = engine(mod, True, 'CheckProofOfTimeNWesolowski')
    group.install(e)
    st = State()
    D, ln, it, dsb, depth, pD, px, pp = setup(e, st, *nulls)
    if any(nulls):
        outs = e.exec_fn(f, [pD, px, pp, ival(64, ln), ival(64, it), ival(64, dsb), ival(64, depth)], st)
        for o in outs:
            if o.kind == 'ret': e.check(o.st, znot(e.truth(o.st, o.val)), 'a null input is rejected')
        return e
    xk = key(e, st, px, 100)
    ch = Chain(e, st, D, xk, pp, ln, it)
    e.loop_hints[''] = ch.hint(depth)
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    y, pi = key(e, st, pp, 100), key(e, st, PVal(pp.o, 100), 100)
    def valid(s):
        x = XL(zi(depth)); yy = DES(D, y)
        B = gb(e, s, D, x, yy)
        fin = ISONE(D, simp(B * DES(D, pi) + POWM(z3.IntVal(2), IT(zi(depth)), B) * x - yy))
        return z3.And(dsb > 0, dsb <= 1024, D < 0, bitlen(e, s, D) <= 1024, ln == 200 + SEG*depth,
                      ch.xvalid, ALLOK(zi(depth)), DV(D, z3.IntVal(0), y), DV(D, z3.IntVal(0), pi), fin)
    outs = e.exec_fn(f, [pD, px, pp, ival(64, ln), ival(64, it), ival(64, dsb), ival(64, depth)], st)
    for o in outs:
        v = valid(o.st)
        if o.kind == 'throw':
            reject_kinds(e, o)
            e.check(o.st, z3.Not(v), 'a rejected (throw) proof is not a valid chain')
        else:
            t = e.truth(o.st, o.val)
            e.check(o.st, imp(t, v), 'accepted => every segment and the final equation hold')
            e.check(o.st, imp(v, t), 'every segment and the final equation hold => accepted')
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zb(e.truth(o.st, o.val))), ('rejection', lambda o: o.kind == 'ret' and zb(znot(e.truth(o.st, o.val))))], 'check')
    return e

def t_withb(nulls=(False, False)):
    """with-challenge verification: returns (true, ser(y)) exactly for a valid chain whose last challenge is the given B"""
    mod = lower('core.cpp')
    f = find(mod, r'^CheckProofOfTimeNWesolowskiWithB\(')
    e = engine(mod, True, 'CheckProofOfTimeNWesolowskiWithB')
    group.install(e)
    st = State()
    D, ln, it, dsb, depth, pD, px, pp = setup(e, st, *nulls)
    B = z3.Int('B'); pB = arg_mpz(e, st, 'B', B); r = sret(st, 'result', 32)
    args = [r, pD, pB, px, pp, ival(64, ln), ival(64, it), ival(64, depth)]
    if any(nulls):
        for o in e.exec_fn(f, args, st):
            if o.kind == 'ret': e.check(o.st, znot(e.truth(o.st, e.load(o.st, r, ir.INT(8)))), 'a null input is rejected')
        return e
    ch = Chain(e, st, D, key(e, st, px, 100), pp, ln, it)
    e.loop_hints[''] = ch.hint(depth)
    pi = key(e, st, pp, 100)
    y = simp(zi(B)*DES(D, pi) + POWM(z3.IntVal(2), IT(zi(depth)), zi(B))*XL(zi(depth)))
    def valid(s):
        return z3.And(D < 0, bitlen(e, s, D) <= 1024, ln == 100 + SEG*depth, ch.xvalid, ALLOK(zi(depth)),
                      DV(D, z3.IntVal(0), pi), B != 0, B == gb(e, s, D, XL(zi(depth)), y))
    outs = e.exec_fn(f, args, st)
    for o in outs:
        v = valid(o.st)
        if o.kind == 'throw':
            reject_kinds(e, o); e.check(o.st, z3.Not(v), 'a rejected (throw) proof is not a valid chain ending with B'); continue
        t = e.truth(o.st, e.load(o.st, r, ir.INT(8)))
        e.check(o.st, imp(t, v), 'accepted => every segment and the given challenge hold')
        e.check(o.st, imp(v, t), 'every segment and the given challenge hold => accepted')
        vec = o.st.mem[r.o].cells[8]
        e.check(o.st, imp(t, z3.And(zi(vec.len) == FORM, vec.arr == SER(D, y, bitlen(e, o.st, D)))), 'accepted => the returned bytes are the serialized output form')
        e.check(o.st, imp(znot(t), zeq(vec.len, 0)), 'rejected => no output bytes')
    cover(e, outs, [('acceptance', lambda o: o.kind == 'ret' and zb(e.truth(o.st, e.load(o.st, r, ir.INT(8))))), ('rejection', lambda o: o.kind == 'ret' and zb(znot(e.truth(o.st, e.load(o.st, r, ir.INT(8))))))], 'withb')
    return e

def t_getb(nulls=(False, False)):
    """challenge extraction: the challenge of (x at the last segment, y), or an exception for a malformed proof"""
    mod = lower('core.cpp')
    f = find(mod, r'^GetBFromProof\(')
    e = engine(mod, True, 'GetBFromProof')
    group.install(e)
    st = State()
    D, ln, it, dsb, depth, pD, px, pp = setup(e, st, *nulls)
    r = sret(st, 'result', 16)
    args = [r, pD, px, pp, ival(64, ln), ival(64, it), ival(64, depth)]
    if any(nulls):
        for o in e.exec_fn(f, args, st): e.check(o.st, o.kind == 'throw', 'a null input is rejected')
        return e
    ch = Chain(e, st, D, key(e, st, px, 100), pp, ln, it, checked=False)
    e.loop_hints[''] = ch.hint(depth)
    y = key(e, st, pp, 100)
    def valid(s):
        return z3.And(D < 0, bitlen(e, s, D) <= 1024, ln == 200 + SEG*depth, ch.xvalid, ALLOK(zi(depth)), DV(D, z3.IntVal(0), y))
    outs = e.exec_fn(f, args, st)
    for o in outs:
        v = valid(o.st)
        if o.kind == 'throw':
            reject_kinds(e, o); e.check(o.st, z3.Not(v), 'only malformed proofs are refused'); continue
        e.check(o.st, v, 'only well-formed proofs give a challenge')
        e.check(o.st, zeq(e.mpz_get(o.st, r), gb(e, o.st, D, XL(zi(depth)), DES(D, y))), 'the result is the challenge the verifier derives for the last segment')
    cover(e, outs, [('a result', lambda o: o.kind == 'ret'), ('refusal', lambda o: o.kind == 'throw')], 'getb')
    return e

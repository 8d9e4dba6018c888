"""Exponentiation, block digits and the slow prover (P14-P16), over the group-level contracts."""
import z3
from vf import *
import ir
from specs import group
from specs.group import *
from lib_gmp import bitlen, POWM
from lib_std import getvec
from forms import FormV, getf

SHR = z3.Function('shr', I_, I_, I_)                 # floor(n / 2^k)

def t_fastpow():
    mod = lower('core.cpp')
    f = find(mod, r'^FastPow\(unsigned long, unsigned long, integer&\)$')
    e = engine(mod, True, 'FastPow')
    st = State(); a, b = u(st, 'a'), u(st, 'b'); c = z3.Int('c')
    r = sret(st, 'result', 16); pc = arg_mpz(e, st, 'c', c)
    st.assume(c >= 0)
    outs = e.exec_fn(f, [r, ival(64, a), ival(64, b), pc], st)
    cover(e, outs, [('a result', lambda o: o.kind == 'ret'), ('a refusal', lambda o: o.kind == 'throw')], 'fastpow')
    for o in outs:
        s = o.st
        if o.kind == 'throw':
            e.check(s, s.exc[0] == 'St13runtime_error', 'the refusal is a runtime_error')
            e.check(s, c == 0, 'only modulus zero is refused'); continue
        e.check(s, c != 0, 'modulus zero is refused')
        e.check(s, zeq(e.mpz_get(s, r), POWM(a, b, c)), 'the result is a^b mod c')
        e.check(s, zeq(e.mpz_get(s, pc), c), 'the modulus is left alone')
    return e

def pow_hint(e, n, x, D):
    """after k rounds the accumulated exponent is floor(n / 2^(N-1-k)), N = number of bits of n"""
    def h(ctx):
        C = []
        N = h.N
        for loc in ctx.locs(FormV):
            C.append(('accumulated exponent', (loc, 0), lambda k: SHR(n, N - 1 - zi(k)) * x))
        C.append(('rounds', lambda v, k: zi(k) <= N - 1))
        return C
    def ax(s, k):
        N = h.N; i = N - 2 - zi(k)
        # definition of the binary digits: floor(n/2^i) = 2 floor(n/2^(i+1)) + bit i
        bit = e_tst(n, i)
        return [SHR(n, N - 1) == 1, SHR(n, 0) == n,
                z3.Implies(i >= 0, SHR(n, i) == 2 * SHR(n, i + 1) + z3.If(bit, 1, 0)),
                z3.Implies(i >= 0, SHR(n, i) * x == 2 * (SHR(n, i + 1) * x) + z3.If(bit, x, 0))]
    h.axioms = ax
    return h
BIT = z3.Function('bit', I_, I_, z3.BoolSort())
def e_tst(n, i): return BIT(zi(n), zi(i))

def t_fastpowform():
    mod = lower('core.cpp')
    f = find(mod, r'^FastPowFormNucomp\(')
    e = engine(mod, True, 'FastPowFormNucomp')
    st = State()
    D, n, L, x = z3.Ints('D n L x'); e.formD = D
    st.assume(z3.And(D < 0, n >= 0, L >= 1))
    N = bitlen(e, st, n); st.assume(z3.And(N >= 0, z3.Implies(n > 0, N >= 1)))
    red = z3.Bool('x_reduced')
    px = arg_form(e, st, 'x', FormV(x, red, D)); pD = arg_mpz(e, st, 'D', D); pn = arg_mpz(e, st, 'n', n); pL = arg_mpz(e, st, 'L', L)
    rd = Obj('reducer', 16, 'arg'); st.mem[rd] = OS(); e.put(st, PVal(rd, 0), Opaque(16, 'reducer'))
    r = sret(st, 'result', 48)
    def tst(en, s, a, c):
        v = en.mpz_get(s, a[0], c.ins); i = en.U(s, a[1])
        b = e_tst(v, i)
        return [Out('ret', s, IVal(32, z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1))]
    use(e, r'^__gmpz_tstbit$', tst)
    h = pow_hint(e, n, x, D); h.N = N
    e.loop_hints[''] = h
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    outs = e.exec_fn(f, [r, px, pD, pn, pL, PVal(rd, 0)], st)
    cover(e, outs, [('a result', lambda o: o.kind == 'ret')], 'fastpowform')
    for o in outs:
        s = o.st
        if o.kind == 'throw':
            e.check(s, s.exc[0] == 'St14overflow_error', 'the only exception is overflow_error')
            e.check(s, zi(N) >= (1 << 31), 'only exponents of 2^31 bits or more are refused'); continue
        v = getf(e, s, r)
        for cc in (z3.Implies(n == 0, n * x == 0),): s.assume(cc)
        e.check(s, zi(v.cls) == n * x, 'the result is in the class of the n-th power')
        e.check(s, zeq(v.D, D), 'of the same discriminant')
        for p, w in ((pD, D), (pL, L)): e.check(s, zeq(e.mpz_get(s, p), w), 'the operands are left alone')
    return e

def t_getblock(which='slow'):
    """block digit i: floor(2^(T-ki)/B) - 2^k floor(2^(T-k(i+1))/B), below 2^k"""
    mod = lower('core.cpp' if which == 'slow' else 'fast.cpp')
    f = find(mod, r'^GetBlock\(' if which == 'slow' else r'^Prover::GetBlock\(')
    e = engine(mod, True, 'GetBlock')
    st = State()
    i, k, T = u(st, 'i'), u(st, 'k'), u(st, 'T'); B = z3.Int('B')
    st.assume(z3.And(k >= 1, k < 64, B >= (1 << 263), B < (1 << 264), B % 2 == 1))
    st.assume(i < (1 << 64)); ki = z3.Int('ki'); st.assume(ki == k * i); st.assume(k * (i + 1) == ki + k)
    st.assume(z3.And(ki >= 0, ki + k <= T))
    pB = arg_mpz(e, st, 'B', B)
    def fp(en, s, a, c):
        x, y, m = en.U(s, a[1]), en.U(s, a[2]), en.mpz_get(s, a[3], c.ins)
        en.check(s, zeq(x, 2), 'the base is 2', c.ins)
        en.check(s, zeq(m, B), 'the modulus is B', c.ins)
        E_ = T - ki - k
        en.check(s, zi(y) == E_, 'the exponent is T - k(i+1)', c.ins)
        q, r = z3.Int('q'), z3.Int('r')
        s.assume(z3.And(P2(E_) == B * q + r, r >= 0, r < B, q >= 0, P2(E_) >= 1))
        en.mpz_new(s, a[0], r, c.ins)
        return [Out('ret', s, None)]
    use(e, r'^FastPow\(unsigned long', fp)
    this = []
    if which != 'slow':
        o_ = Obj('prover', 400, 'arg'); st.mem[o_] = OS(); this = [PVal(o_, 0)]
    outs = e.exec_fn(f, this + [ival(64, i), ival(64, k), ival(64, T), pB], st)
    cover(e, outs, [('a result', lambda o: o.kind == 'ret')], 'getblock')
    for o in outs:
        s = o.st
        e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        d = zi(e.U(s, o.val)); q, r = z3.Int('q'), z3.Int('r'); pk = e.p2(s, k)
        R2 = z3.Int('rest')
        v = e.fdiv(s, pk * r, B); s.assume(z3.Implies(v >= pk, B * v >= B * pk)); s.assume(z3.Implies(v < 0, B * v <= -B)); s.assume(z3.And(pk * r >= 0, pk <= 1 << 63)); s.assume(z3.Implies(r <= B - 1, pk * r <= pk * B - pk))
        # digit d: 2^k * 2^E = B (2^k q + d) + rest
        s.assume(R2 == pk * r - B * d)
        e.check(s, z3.And(R2 >= 0, R2 < B), 'the digit is floor(2^k (2^(T-k(i+1)) mod B) / B)')
        s.assume(z3.Implies(d >= pk, B * d >= B * pk)); s.assume(z3.Implies(r <= B - 1, pk * r <= pk * B - pk))
        e.check(s, d < pk, 'the digit is below 2^k')
        e.check(s, pk * P2(T - ki - k) == B * (pk * q + d) + R2, 'so 2^k q + digit is floor(2^(T-ki)/B), q = floor(2^(T-k(i+1))/B)')
        e.check(s, zeq(e.mpz_get(s, pB), B), 'B is left alone')
    return e

# ---------------------------------------------------------------- GenerateWesolowski
WS = z3.Function('weighted_sum', ARR, I_)                       # sum over b < 2^k of b * ys[b]
ZEROED = z3.Function('first_entries_zero', ARR, I_, ARR)
ROW = z3.Function('row_sum', ARR, I_, I_, I_)                   # sum over t' < t of ys[b1*2^k0 + t']
COL = z3.Function('col_sum', ARR, I_, I_, I_)                   # sum over t' < t of ys[t'*2^k0 + b0]
PR = z3.Function('weighted_rows', ARR, I_, I_)                  # sum over b1 < n of b1*2^k0*ROW(b1, 2^k0)
PC = z3.Function('weighted_cols', ARR, I_, I_)                  # sum over b0 < n of b0*COL(b0, 2^k1)
DIG = z3.Function('digit', I_, I_)
CS = z3.Function('digit_row', I_, I_, I_)                       # CS(j, i) = sum over i' < i with k(i'l+j+1) <= T of DIG(i'l+j)*inter[i']
SQP = z3.Function('doubled_times', I_, I_, I_)
ACC = z3.Function('horner', I_, I_)                             # ACC(0) = 0, ACC(n+1) = 2^k ACC(n) + CS(l-1-n, M)

def t_generate(which='slow', which_thread=0):
    """which = 'slow': GenerateWesolowski; 'segment': Prover::GenerateProof; 'part': ParallelProver::ProvePart, whose sum covers the len
    digit rows below start and is then doubled k*(start-len) times.
    GenerateWesolowski returns sum over digit positions m = il+j with k(m+1) <= T of DIG(m) 2^(kj) inter[i],
    in Horner form over j; with inter[i] = 2^(kli) x this is floor(2^T/B) x (lemma digits, lemmas/)"""
    slow, part = which == 'slow', which == 'part'
    mod = lower('core.cpp') if slow else lower('fast.cpp')
    name = {'slow': 'GenerateWesolowski', 'segment': 'Prover::GenerateProof', 'part': 'ParallelProver::ProvePart'}[which]
    f = find(mod, r'^%s\(' % name)
    e = engine(mod, True, name, budget=400)
    group.install(e)
    st = State()
    D, x, y = z3.Ints('D x y'); e.formD = D
    T, k, l = u(st, 'T'), u(st, 'k'), u(st, 'l')
    st.assume(z3.And(D < 0, bitlen(e, st, D) <= 1024, k >= 1, k <= 30, l >= 1, l <= (1 << 20), T < (1 << 62)))
    KL, M = z3.Int('kl'), z3.Int('rows'); st.assume(z3.And(KL == k * l, l * k == KL, KL >= k, KL >= l, KL <= 30 << 20))
    st.assume(z3.And(M >= 0, M * KL <= T + KL - 1, T + KL - 1 < M * KL + KL, KL * M == M * KL)); st.assume(M <= T + KL)   # M = ceil(T/kl)
    TOP, LEN = (l, l) if not part else (u(st, 'start', 32), u(st, 'len', 32))
    if part: st.assume(z3.And(TOP >= 1, TOP <= l, LEN <= TOP)); idx = which_thread
    INTER = z3.Array('intermediates_in', I_, I_); nI = z3.Int('n_inter'); st.assume(z3.And(nI >= M, nI < (1 << 48)))
    B0 = z3.Int('B0')
    if slow:
        py = arg_form(e, st, 'y', FormV(y, z3.Bool('yr'), D)); px = arg_form(e, st, 'x', FormV(x, z3.Bool('xr'), D)); pD = arg_mpz(e, st, 'D', D)
        pv = arg_vec(e, st, 'intermediates', 48, nI, INTER, kind='form')
        rd = Obj('reducer', 16, 'arg'); st.mem[rd] = OS(); e.put(st, PVal(rd, 0), Opaque(16, 'reducer'))
        r = sret(st, 'result', 48)
        args = [r, py, px, pD, PVal(rd, 0), pv, ival(64, T), ival(64, k), ival(64, l)]
    else:
        cls = 'OneWesolowskiProver' if not part else 'ProbeProver'
        lay = mod.members(cls); po = Obj(cls, lay[''], 'arg'); st.mem[po] = OS(); at = lambda n: PVal(po, lay[n])
        vt = e.gptr(st, '_ZTV%d%s' % (len(cls), cls)); e.store(st, PVal(po, 0), PVal(vt.o, 16), None)
        sg = mod.members('Segment'); px, py = [PVal(po, lay['segm'] + sg[n]) for n in 'xy']
        putf(e, st, px, FormV(x, z3.Bool('xr'), D)); putf(e, st, py, FormV(y, z3.Bool('yr'), D)); pD = at('D'); e.mpz_new(st, pD, D)
        for n, w, v in (('num_iterations', 64, T), ('k', 32, k), ('l', 32, l), ('is_finished', 8, 0)): e.store(st, at(n), ival(w, v), None)
        old_proof = z3.Int('old_proof'); putf(e, st, at('proof'), FormV(old_proof, True, D)); r = at('proof')
        args = [PVal(po, 0)]
        if part:
            e.mpz_new(st, at('B'), B0); e.mpz_new(st, at('L'), z3.Int('L4')); st.assume(z3.Int('L4') >= 1); putf(e, st, at('id'), FormV(0, True, D))
            for i_ in (0, 1): putf(e, st, PVal(po, lay['x_vals'] + 48 * i_), FormV(z3.Int('old_x%d' % i_), True, D))
            def sqn(en, s, a, c):
                v = needf(en, s, a[1], c.ins, D); n_ = en.U(s, a[2]); s.g['squared'] = (v.cls, n_); putf(en, s, a[1], FormV(SQP(zi(v.cls), zi(n_)), True, D), c.ins); return [Out('ret', s, None)]
            use(e, r'^ParallelProver::SquareFormN\(', sqn); st.assume(z3.And((TOP - LEN) * k <= 30 << 20, (TOP - LEN) * k >= 0))
            args += [ival(8, idx), ival(32, TOP), ival(32, LEN)]; r = PVal(po, lay['x_vals'] + 48 * idx)
        def extra(en, s, a, c):
            if s.copy and True: go = fresh('go_on', z3.BoolSort())
            s.g['asked'] = go
            return [Out('ret', s, boolv(go))]
        use(e, r'^%s::PerformExtraStep\(' % cls, extra)
        def getform(en, s, a, c):
            i = zi(en.U(s, a[2]))
            en.check(s, a[1].o is po, 'the prover asks its own store', c.ins)
            en.check(s, z3.And(i >= 0, i < M), 'only checkpoints below ceil(T/kl) are asked for', c.ins)
            putf(en, s, a[0], FormV(z3.Select(INTER, i), True, D), c.ins); return [Out('ret', s, None)]
        use(e, r'^%s::GetForm\(' % cls, getform)
        def finish(en, s, a, c):
            s.g['finished'] = s.g.get('finished', 0) + 1; s.g['proof_then'] = getf(en, s, r).cls; return [Out('ret', s, None)]
        use(e, r'^%s::OnFinish\(' % cls, finish)
        if not part:
            L4 = z3.Int('L4')
            def root(en, s, a, c):
                en.check(s, zand(zeq(en.mpz_get(s, a[1], c.ins), simp(-zi(D))), zeq(en.S(s, a[2]), 4)), 'the bound is the fourth root of the absolute discriminant', c.ins)
                s.assume(L4 >= 1); en.mpz_new(s, a[0], L4, c.ins); return [Out('ret', s, None)]
            use(e, r'^root\(integer const&, int\)$', root)
    pk = e.p2(st, k); st.assume(z3.And(pk >= 2, pk <= 1 << 30))
    kd = simp(k / 2)
    for a in (kd, simp(k - kd)): w = e.p2(st, a); st.assume(z3.And(w >= 1, w <= pk))
    st.assume(z3.And(e.p2(st, kd) * e.p2(st, simp(k - kd)) == pk, e.p2(st, simp(k - kd)) * e.p2(st, kd) == pk))
    st.assume(ACC(0) == 0)
    def cget(en, s, a, c):
        outs = c_getb(en, s, a, c)
        en.check(s, zand(zeq(getf(en, s, a[2]).cls, x), zeq(getf(en, s, a[3]).cls, y)), 'the challenge is that of (input, output)', c.ins)
        s.assume(zi(en.mpz_get(s, a[0])) == B0)
        return outs
    use(e, r'^GetB\(', cget)
    def block(en, s, a, c):
        a = a if slow else a[1:]
        m, kk, t = [en.U(s, v) for v in a[:3]]; b = en.mpz_get(s, a[3], c.ins)
        en.check(s, zand(zeq(kk, k), zeq(t, T), zeq(b, B0)), 'block digits are taken with the size, iteration count and challenge of the proof', c.ins)
        en.check(s, z3.And(k * (zi(m) + 1) <= T), 'block digit within the iteration count', c.ins)
        d = DIG(zi(m)); s.assume(z3.And(d >= 0, d < pk))
        return [Out('ret', s, IVal(64, d, 0, (1 << 30) - 1))]
    use(e, r'^GetBlock\(' if slow else r'^Prover::GetBlock\(', block)
    def nuc(en, s, a, c):
        Dv, L = en.mpz_get(s, a[3], c.ins), en.mpz_get(s, a[4], c.ins)
        p, q = needf(en, s, a[1], c.ins, Dv), needf(en, s, a[2], c.ins, Dv)
        en.check(s, cmpx('>=', L, 1), 'nucomp bound L is positive', c.ins)
        old = getf(en, s, a[0], c.ins)
        v = FormV(add(p.cls, q.cls), False, Dv)
        if a[0].o.kind == 'vecdata':
            w0 = en.vec_of(s, a[0].o).arr
            putf(en, s, a[0], v, c.ins)
            w1 = en.vec_of(s, a[0].o).arr; i, _ = en.elemidx(s, a[0], 48)
            en.check(s, z3.And(zi(i) >= 0, zi(i) < pk), 'the bucket is within the table', c.ins)
            dl = simp(zi(v.cls) - z3.Select(w0, zi(i)))
            s.assume(WS(w1) == WS(w0) + zi(i) * dl)      # definition of the weighted sum
        else: putf(en, s, a[0], v, c.ins)
        return [Out('ret', s, None)]
    use(e, r'^nucomp_form\(', nuc)
    def vecs(s):
        r = []
        for o, os in s.mem.items():
            for off, c in os.cells.items():
                if isinstance(c, Vec) and c.kind == 'form' and not (c.arr.eq(INTER)): r.append(c)
        return r
    def H(ctx):
        C = []
        depth = len(e.loopstack); outer = e.loopstack[-2] if depth >= 2 else None
        for loc in ctx.locs(Vec):
            c0 = ctx.entry_cell(loc)
            if c0.kind != 'form': continue
            C.append(('entries reset so far', (loc, 1), lambda k_, a0=c0.arr: ZEROED(a0, zi(k_))))
            j = simp(TOP - 1 - zi(e.loopstack[0]))
            C.append(('weighted bucket sum', lambda v, k_, loc=loc: WS(v.cell(loc).arr) == CS(j, zi(k_))))
        for loc in ctx.locs(FormV):
            c0 = ctx.entry_cell(loc).cls
            if depth == 1: C.append(('Horner value', (loc, 0), lambda k_: ACC(zi(k_)))); continue
            for v in vecs(ctx.entry):
                if depth >= 3:
                    C.append(('row sum', (loc, 0), lambda k_, A=v.arr: ROW(A, zi(outer), zi(k_))))
                    C.append(('column sum', (loc, 0), lambda k_, A=v.arr: COL(A, zi(outer), zi(k_))))
                elif c0 is not None:
                    C.append(('weighted rows', (loc, 0), lambda k_, A=v.arr, c0=c0: zi(c0) + PR(A, zi(k_))))
                    C.append(('weighted columns', (loc, 0), lambda k_, A=v.arr, c0=c0: zi(c0) + PC(A, zi(k_))))
        if ctx.locs(Vec): C.append(('at most M rounds', lambda v, k_: zi(k_) <= M))
        return C
    def ax(s, k_):
        k_ = zi(k_); A_ = []
        depth = len(e.loopstack); j = simp(TOP - 1 - zi(e.loopstack[0]))
        k0s = [(simp(k - kd), kd), (kd, simp(k - kd))][:1]
        if depth == 1:
            return [ACC(0) == 0, ACC(k_ + 1) == pk * ACC(k_) + CS(TOP - 1 - k_, M), CS(TOP - 1 - k_, 0) == 0]
        A_ += [CS(j, 0) == 0, CS(j, k_ + 1) == CS(j, k_) + z3.If(k * (k_ * l + j + 1) <= T, DIG(k_ * l + j) * z3.Select(INTER, k_), 0)]
        # products of the loop counters, spelled out
        A_ += [z3.Implies(z3.And(j >= 0, j < l), z3.And(k * (j + 1) <= KL, k * (j + 1) >= 0)), k * (k_ * l + j + 1) == k_ * KL + k * (j + 1),
               z3.Implies(k_ < M, k_ * KL + KL <= T + KL - 1), z3.Implies(k_ >= 0, z3.And(k_ * KL >= 0, k_ * l >= 0, k_ * l <= k_ * KL)), k_ * l * k == k_ * KL]
        if depth == 2:
            # every entry is zero after 2^k rounds
            for v in vecs(s):
                for a in ((v.arr.arg(0),) if z3.is_app(v.arr) and v.arr.decl().eq(ZEROED) else ()):
                    A_ += [ZEROED(a, 0) == a, ZEROED(a, k_ + 1) == z3.Store(ZEROED(a, k_), k_, 0), WS(ZEROED(a, pk)) == 0]
        o = zi(e.loopstack[-2])
        for v in vecs(s):
            A = v.arr
            if depth == 2:
                # initial array of the reset loop
                A_ += [ZEROED(A, 0) == A, WS(ZEROED(A, pk)) == 0]
            for k0, k1 in k0s:
                p0, p1 = e.p2(s, k0), e.p2(s, k1)
                if depth == 2:
                    A_ += [PR(A, 0) == 0, PR(A, k_ + 1) == PR(A, k_) + k_ * p0 * ROW(A, k_, p0), PC(A, 0) == 0, PC(A, k_ + 1) == PC(A, k_) + k_ * COL(A, k_, p1), ROW(A, k_, 0) == 0, COL(A, k_, 0) == 0,
                           z3.Implies(z3.And(k_ >= 0, k_ < p1), z3.And(k_ * p0 >= 0, k_ * p0 <= pk - p0)),
                           PR(A, p1) + PC(A, p0) == WS(A)]            # lemma buckets (lemmas/)
                elif depth == 3:
                    A_ += [ROW(A, o, 0) == 0, ROW(A, o, k_ + 1) == ROW(A, o, k_) + z3.Select(A, o * p0 + k_), COL(A, o, 0) == 0, COL(A, o, k_ + 1) == COL(A, o, k_) + z3.Select(A, k_ * p0 + o),
                           z3.Implies(z3.And(o >= 0, o < p1), z3.And(o * p0 >= 0, o * p0 <= pk - p0)), z3.Implies(z3.And(k_ >= 0, k_ < p1), z3.And(k_ * p0 >= 0, k_ * p0 <= pk - p0))]
        return A_
    H.axioms = ax
    e.loop_hints[''] = H
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    outs = e.exec_fn(f, args, st)
    cover(e, outs, [('a result', lambda o: o.kind == 'ret')] + ([] if slow else [('an interruption', lambda o: o.kind == 'ret' and 'finished' not in o.st.g)]), 'generate')
    for o in outs:
        s = o.st
        if o.kind == 'throw':
            e.check(s, False, 'does not throw'); continue
        if part:
            e.check(s, s.g.get('finished') is None, 'a part announces nothing')
            if 'squared' not in s.g: e.check(s, znot(s.g['asked']) if 'asked' in s.g else False, 'without an interruption the part is finished'); continue
            c0, n_ = s.g['squared']; e.check(s, zand(zi(c0) == ACC(LEN), zi(n_) == (TOP - LEN) * k), 'the rows below start are summed in Horner form and moved up by k(start-len) doublings'); e.check(s, zeq(getf(e, s, r).cls, SQP(zi(c0), zi(n_))), 'the sum is left in the place of this thread')
            e.check(s, zeq(getf(e, s, PVal(po, lay['x_vals'] + 48 * (1 - idx))).cls, z3.Int('old_x%d' % (1 - idx))), 'the place of the other thread is left alone'); continue
        if not slow and 'finished' not in s.g:
            e.check(s, znot(s.g['asked']) if 'asked' in s.g else False, 'without an interruption the proof is finished'); e.check(s, zeq(getf(e, s, r).cls, old_proof), 'an interrupted proof leaves nothing behind'); continue
        v = getf(e, s, r)
        if not slow: e.check(s, s.g['finished'] == 1 and zeq(s.g['proof_then'], v.cls), 'the proof is there when its completion is announced, once')
        e.check(s, zi(v.cls) == ACC(LEN), 'the proof is the digit sum in Horner form')
        e.check(s, v.red if not isinstance(v.red, bool) else zb(v.red), 'the proof is reduced')
        e.check(s, zeq(getf(e, s, px).cls, x), 'the input keeps its class'); e.check(s, zeq(getf(e, s, py).cls, y), 'the output keeps its class')
    return e

# ---------------------------------------------------------------- parameter choice
def t_params(which='slow'):
    """for every 64-bit iteration count (of at least 2^16 for the table in util.h, whose callers guarantee it):
    no exception, every conversion in range, l in [1, 16], k >= 1, and k <= 30 for T <= 2^48"""
    mod = lower('core.cpp') if which == 'slow' else lower('fast.cpp')
    f = find(mod, r'^ApproximateParameters\(unsigned long, %s\)$' % ('int&, int&' if which == 'slow' else 'unsigned int&, unsigned int&'))
    e = engine(mod, True, 'ApproximateParameters'); e.reals = True
    st = State(); T = u(st, 'T')
    if which != 'slow': st.assume(T >= 1 << 16)
    po = Obj('l', 4, 'arg'); st.mem[po] = OS(); qo = Obj('k', 4, 'arg'); st.mem[qo] = OS()
    outs = e.exec_fn(f, [ival(64, T), PVal(po, 0), PVal(qo, 0)], st)
    cover(e, outs, [('a choice with one row', lambda o: T <= (1000 if which == 'slow' else 1 << 16)), ('a choice with several rows', lambda o: T >= 1 << 40), ('the largest count', lambda o: T == (1 << 64) - 1)], 'params')
    for o in outs:
        s = o.st
        e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        l, k = [e.S(s, e.load(s, PVal(x, 0), INT(32))) for x in (po, qo)]
        e.check(s, zand(cmpx('>=', l, 1), cmpx('<=', l, 16)), 'between 1 and 16 rows')
        e.check(s, cmpx('>=', k, 1), 'the block size is at least one')
        e.check(s, z3.Implies(T <= 1 << 48, zi(k) <= 30), 'the block size is at most 30 for up to 2^48 iterations')
        e.check(s, z3.Implies(T < 1 << 17, zi(l) == 1), 'one row below 2^17 iterations')
    return e

# ---------------------------------------------------------------- the slow prover
DBL = z3.Function('doublings', I_, I_)                          # DBL(0) = x, DBL(i+1) = 2 DBL(i): the class of x^(2^i)
CKPT = z3.Function('checkpoints', ARR, I_, ARR)                 # first n entries set: CKPT(a, n+1) = store(CKPT(a, n), n, DBL(n*kl))
NCK = z3.Function('checkpoint_count', I_, I_)                   # multiples of kl among 0..i-1
QUO = z3.Function('quotient_power', I_, I_, I_, I_)             # (T, B, x): the class of x^floor(2^T/B)

def t_proveslow():
    """ProveSlow: intermediates[i] = x^(2^(i*kl)) for i < ceil(T/kl), y = x^(2^T); the result is the encoding of y followed by
    the encoding of what GenerateWesolowski returns for them; an empty vector only with a shutdown path"""
    mod = lower('core.cpp')
    f = find(mod, r'^ProveSlow\(')
    e = engine(mod, True, 'ProveSlow')
    group.install(e)
    st = State(); D, x = z3.Ints('D x'); e.formD = D; T = u(st, 'T')
    st.assume(z3.And(D < 0, bitlen(e, st, D) <= 1024, bitlen(e, st, D) >= 1, T <= 1 << 48))
    pD = arg_mpz(e, st, 'D', D); px = arg_form(e, st, 'x', FormV(x, True, D)); r = sret(st, 'result', 24)
    so = Obj('path', 32, 'arg'); st.mem[so] = OS(); plen = z3.Int('path_length'); st.assume(z3.And(plen >= 0, plen < 1 << 40))
    from lib_std import Str
    e.put(st, PVal(so, 0), Str(1, plen, z3.Array('path', I_, I_)))
    K_, L_ = z3.Ints('k l'); KL = z3.Int('kl'); B0 = z3.Int('B0')
    def params(en, s, a, c):
        en.check(s, zeq(en.U(s, a[0]), T), 'parameters are chosen for the iteration count', c.ins)
        s.assume(z3.And(K_ >= 1, K_ <= 30, L_ >= 1, L_ <= 16, KL == K_ * L_, KL >= 1, KL <= 480))       # t_params
        en.store(s, a[1], IVal(32, L_, 1, 16), c.ins); en.store(s, a[2], IVal(32, K_, 1, 30), c.ins)
        return [Out('ret', s, None)]
    use(e, r'^ApproximateParameters\(', params)
    def ne(en, s, a, c):
        s1 = getvec(en, s, a[0], c, Str)
        import lib_std
        if isinstance(a[1], PVal) and 'char const*)' in c.dem and lib_std.cstr(en, s, a[1]) in ('', b''):
            q = zeq(s1.len, 0); return [Out('ret', s, boolv(q if '==' in c.dem else znot(q)))]
        return [Out('ret', s, boolv(fresh('streq', z3.BoolSort())))]
    use(e, r'^bool std::operator(==|!=)<char', ne)
    use(e, r'^stat$', lambda en, s, a, c: [Out('ret', s, en.fint(s, 'stat', 32, True))])
    def errno(en, s, a, c):
        o = Obj('errno', 4, 'mem'); s.mem[o] = OS(); en.store(s, PVal(o, 0), en.fint(s, 'errno', 32, True), c.ins); return [Out('ret', s, PVal(o, 0))]
    use(e, r'^__errno_location$', errno)
    AR0 = []
    def gen(en, s, a, c):
        # sret, y, x, D, reducer, intermediates, T, k, l
        y, xx = needf(en, s, a[1], c.ins, D), needf(en, s, a[2], c.ins, D)
        en.check(s, zeq(y.cls, DBL(T)), 'the output handed to the proof is x^(2^T)', c.ins)
        en.check(s, zeq(xx.cls, x), 'the input handed to the proof is x', c.ins)
        en.check(s, zeq(en.mpz_get(s, a[3]), D), 'the discriminant is handed on', c.ins)
        t, k, l = [en.U(s, v) for v in a[6:9]]
        en.check(s, zand(zeq(t, T), zeq(k, K_), zeq(l, L_)), 'iteration count, block size and row count are handed on', c.ins)
        v = getvec(en, s, a[5], c)
        M = NCK(T)
        en.check(s, z3.And(M * KL >= T, M * KL < T + KL), 'there are ceil(T/kl) checkpoints', c.ins)
        en.check(s, zeq(v.len, M), 'the vector has ceil(T/kl) entries', c.ins)
        en.check(s, v.arr == CKPT(AR0[0], M) if AR0 else False, 'entry i of the vector is x^(2^(i*kl)) for every i below ceil(T/kl)', c.ins)
        putf(en, s, a[0], FormV(QUO(T, gb(en, s, D, x, DBL(T)), x), True, D), c.ins)       # t_generate with lemma digits
        return [Out('ret', s, None)]
    use(e, r'^GenerateWesolowski\(', gen)
    def H(ctx):
        C = []
        n = lambda k: NCK(zi(k))
        for loc in ctx.locs(FormV): C.append(('the class after i doublings', (loc, 0), lambda k: DBL(zi(k))))
        for loc in ctx.locs(Vec):
            c0 = ctx.entry_cell(loc)
            if c0.kind == 'form':
                if not AR0: AR0.append(c0.arr)
                C.append(('checkpoints stored so far', (loc, 1), lambda k, a=c0.arr: CKPT(a, n(k))))
        for loc in ctx.locs(PVal): C.append(('cursor at the next free entry', (loc, 0), lambda k: 48 * n(k)))
        C.append(('checkpoint count is the rounded-up quotient', lambda v, k: z3.And(n(k) * KL >= zi(k), n(k) * KL < zi(k) + KL, n(k) >= 0)))
        C.append(('at most T rounds', lambda v, k: zi(k) <= T))
        return C
    def ax(s, k):
        k = zi(k); q = z3.Function('fdiv', I_, I_, I_)(k, KL)
        A = [NCK(0) == 0, DBL(0) == x, DBL(k + 1) == 2 * DBL(k), NCK(k + 1) == NCK(k) + z3.If(k - KL * q == 0, 1, 0)]
        A += [z3.Implies(k >= 0, z3.And(KL * q <= k, k < KL * q + KL)), q * KL == KL * q]
        X = simp(K_ * L_); F_ = z3.Function('fdiv', I_, I_, I_)
        for n in (k, simp(T + X - 1)): A += [F_(n, X) == F_(n, KL), X * F_(n, X) == KL * F_(n, KL)]                # kl is the product k*l
        A += [z3.Implies(NCK(k) * KL < T, NCK(k) < F_(simp(T + X - 1), X)), NCK(T) == NCK(T)]
        # two multiples of kl less than kl apart are equal
        A += [z3.Implies(z3.And(NCK(k) * KL - q * KL < KL, q * KL - NCK(k) * KL < KL), NCK(k) == q), z3.Implies(NCK(k) >= q + 1, NCK(k) * KL >= q * KL + KL), z3.Implies(NCK(k) <= q - 1, NCK(k) * KL <= q * KL - KL), z3.Implies(NCK(k) == q, NCK(k) * KL == q * KL)]
        for a in AR0: A += [CKPT(a, 0) == a, CKPT(a, NCK(k) + 1) == z3.Store(CKPT(a, NCK(k)), NCK(k), DBL(k))]     # used when k = NCK(k)*kl
        return A
    H.axioms = ax
    e.loop_hints[''] = H
    import os; e.debug = bool(os.environ.get('VF_DEBUG'))
    outs = e.exec_fn(f, [r, pD, px, ival(64, T), PVal(so, 0)], st)
    cover(e, outs, [('a proof', lambda o: o.kind == 'ret' and isinstance(e.getbig(o.st, r, Vec).len, int) and e.getbig(o.st, r, Vec).len == 200), ('a cancellation', lambda o: o.kind == 'ret' and e.getbig(o.st, r, Vec).len == 0)], 'proveslow')
    for o in outs:
        s = o.st
        e.check(s, o.kind == 'ret', 'does not throw')
        if o.kind != 'ret': continue
        v = e.getbig(s, r, Vec)
        e.check(s, zor(zeq(v.len, 200), zeq(v.len, 0)), 'the result has 200 bytes or none')
        if e.solver.entails(s, zi(v.len) == 0, 2000):
            e.check(s, plen > 0, 'an empty result only with a shutdown path'); continue
        P_ = QUO(T, GB(D, x, DBL(T)), x); db = bitlen(e, s, D); i = fresh('i')
        s.assume(z3.And(i >= 0, i < 100))
        e.check(s, z3.Select(v.arr, i) == z3.Select(SER(D, DBL(T), zi(db)), i), 'the first 100 bytes encode y = x^(2^T)')
        e.check(s, z3.Select(v.arr, i + 100) == z3.Select(SER(D, P_, zi(db)), i), 'the last 100 bytes encode x^floor(2^T/B)')
        e.check(s, zeq(getf(e, s, px).cls, x), 'the input form keeps its class'); e.check(s, zeq(e.mpz_get(s, pD), D), 'the discriminant is left alone')
    return e

"""Modular symbolic executor / verification-condition generator over LLVM IR.

Functions under contract are executed over all paths from a state described only by
their precondition; calls to functions that have a contract use that contract (never
the body); loops are cut at their header with inductive invariants (checked at entry
and at every back edge).  Everything the executor assumes is either a contract in
lib_*.py / specs (listed in the evidence) or proved by an obligation."""
import re, itertools, time, sys
import z3
from ir import Unsupported, Ty, PTR, INT, VOID
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ expression helpers
_ctr = itertools.count()
def fresh(name, sort=None):
    n = '%s!%d' % (name, next(_ctr))
    return z3.Const(n, sort if sort is not None else z3.IntSort())
def isc(e):
    return isinstance(e, int) and not isinstance(e, bool)
def zi(e):
    return z3.IntVal(e) if isinstance(e, int) else e
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    r = z3.simplify(zi(a) + zi(b))
    return r.as_long() if z3.is_int_value(r) else r
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    r = z3.simplify(zi(a) - zi(b))
    return r.as_long() if z3.is_int_value(r) else r
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    return zi(a) * zi(b)
def neg(a):
    return -a
def cst(e):
    """python int if e is a literal"""
    if isinstance(e, int): return e
    if z3.is_int_value(e): return e.as_long()
    return e
def simp(e):
    if isinstance(e, (int, bool)): return e
    r = z3.simplify(e)
    if z3.is_int_value(r): return r.as_long()
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, zi(a), zi(b))
def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
def zand(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs): return False
    if not cs: return True
    return cs[0] if len(cs) == 1 else z3.And(*[zb(c) for c in cs])
def zor(*cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs): return True
    if not cs: return False
    return cs[0] if len(cs) == 1 else z3.Or(*[zb(c) for c in cs])
def znot(c):
    if isinstance(c, bool): return not c
    return z3.Not(c)
def imp(a, b):
    return zor(znot(a), b)
def zeq(a, b):
    if isc(a) and isc(b): return a == b
    a, b = zi(a), zi(b)
    if a.eq(b): return True
    return a == b
def cmpx(op, a, b):
    if isc(a) and isc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    a, b = zi(a), zi(b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
def same(a, b):
    if a is b: return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    try: return a.eq(b)
    except Exception: return False

# exact division/modulo by positive constant (floor)
def fdivc(e, c):
    if isc(e): return e // c
    if c == 1: return e
    return simp(zi(e) / c)
def modc(e, c):
    if isc(e): return e % c
    if c == 1: return 0
    return simp(zi(e) % c)

I_ = z3.IntSort()
P2 = z3.Function('p2', I_, I_)              # 2^k for k >= 0
FDIV = z3.Function('fdiv', I_, I_, I_)      # floor quotient
BITLEN = z3.Function('bitlen', I_, I_)      # bit length of |n| (0 for 0)
BAND = z3.Function('band', I_, I_, I_)
TSTBIT = None
ARR = z3.ArraySort(I_, I_)

# ------------------------------------------------------------------ values
class IVal:
    __slots__ = ('n', 'e', 'lo', 'hi', 'tz', 'c', 'bytes', 'ptr', 'tag')
    def __init__(self, n, e, lo=None, hi=None, tz=0, c=None, bytes=None, ptr=None, tag=None):
        e = cst(e) if e is not None else None
        if isc(e):
            lo = hi = e
        self.n, self.e, self.lo, self.hi, self.tz, self.c, self.bytes, self.ptr, self.tag = n, e, lo, hi, tz, c, bytes, ptr, tag
        if c is not None:
            if isinstance(c, bool):
                self.e = 1 if c else 0; self.lo = self.hi = self.e
            else:
                if e is None: self.e = z3.If(c, z3.IntVal(1), z3.IntVal(0))
                self.lo, self.hi = 0, 1
    def __repr__(self): return 'i%d:%s' % (self.n, self.e)
def boolv(c):
    return IVal(1, None, c=c)

class PVal:
    __slots__ = ('o', 'off', 'tag')
    def __init__(self, o, off=0, tag=None):
        self.o, self.off, self.tag = o, cst(off), tag
    def __repr__(self): return 'ptr(%s+%s)' % (self.o, self.off)
NULL = PVal(None, 0)

class FVal:
    __slots__ = ('e', 'r')
    def __init__(self, e, r=None): self.e = e; self.r = r          # r: exact value as a real, when known finite; 'ninf'
F64S = z3.DeclareSort('F64')
def f64bits(txt):
    import struct, fractions
    v = struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0] if txt.startswith('0x') else float(txt)
    f = fractions.Fraction(v); return z3.Q(f.numerator, f.denominator)

class Undef:
    size = None
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n

class Mpz:
    """initialised GMP integer: mathematical value + identity/version of its limb buffer"""
    size = 16
    __slots__ = ('val', 'limb', 'ver', 'prov')
    def __init__(self, val, limb, ver, prov=None):
        self.val, self.limb, self.ver, self.prov = cst(val), limb, ver, prov
    def __repr__(self): return 'mpz(%s)' % (self.val,)
    def leaves(self): return [('val', self.val)]
    def rebuild(self, ls): return Mpz(ls[0], self.limb, self.ver)

class Vec:
    """std::vector<T>/std::string with integer elements: length + array; T=form: arrays of group coefficients"""
    size = 24
    __slots__ = ('es', 'len', 'arr', 'gen', 'kind', 'signed')
    def __init__(self, es, ln, arr, gen=None, kind='int'):
        self.es, self.len, self.arr, self.kind = es, cst(ln), arr, kind
        self.gen = gen if gen is not None else next(_ctr)
    def __repr__(self): return 'vec%d(len=%s)' % (self.es, self.len)
    def leaves(self): return [('len', self.len), ('arr', self.arr)]
    def rebuild(self, ls): return Vec(self.es, ls[0], ls[1], self.gen, self.kind)
class Str(Vec):
    size = 32
    def rebuild(self, ls): return Str(self.es, ls[0], ls[1], self.gen, self.kind)

class Opaque:
    """value of an object the specification does not look into"""
    def __init__(self, size, what, data=None): self.size, self.what, self.data = size, what, data
    def __repr__(self): return 'opaque(%s)' % self.what

class Dead:
    def __init__(self, size): self.size = size

def vsize(v):
    if isinstance(v, IVal): return max(1, (v.n + 7) // 8)
    if isinstance(v, (PVal, FVal, FnPtr)): return 8
    if isinstance(v, Agg): return None
    return v.size

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'owner', 'ety')
    def __init__(self, name, size, kind='mem', owner=None, ety=None):
        self.id = next(_ctr); self.name, self.size, self.kind, self.owner, self.ety = name, size, kind, owner, ety
    def __repr__(self): return '%s#%d' % (self.name, self.id)

class OS:
    """object state; treated as immutable (copy on write)"""
    __slots__ = ('cells', 'arr', 'es', 'live', 'ranges')
    def __init__(self, cells=None, arr=None, es=None, live=True):
        self.cells = cells if cells is not None else {}
        self.arr, self.es, self.live = arr, es, live
    def copy(self):
        return OS(dict(self.cells), self.arr, self.es, self.live)

class State:
    def __init__(self):
        self.mem = {}
        self.pc = []
        self.limbs = {}
        self.rng = {}     # proved ranges: (expr id) -> set
        self.g = {}       # ghost
        self.exc = None
        self.trace = []
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.pc = list(self.pc); s.limbs = dict(self.limbs); s.rng = dict(self.rng)
        s.g = dict(self.g); s.exc = self.exc; s.trace = list(self.trace)
        return s
    def assume(self, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        self.pc.append(c)

class Out:
    """path outcome: kind in ret | throw | goto | stop"""
    __slots__ = ('kind', 'st', 'val', 'extra')
    def __init__(self, kind, st, val=None, extra=None):
        self.kind, self.st, self.val, self.extra = kind, st, val, extra

class NeedInvariant(Exception): pass
class TooManyPaths(Unsupported): pass

class Oblig:
    __slots__ = ('fn', 'name', 'where', 'ok', 'backend', 'time', 'detail', 'model', 'path')
    def __init__(self, fn, name, where, ok, backend, t, detail='', model=None, path=None):
        self.fn, self.name, self.where, self.ok, self.backend, self.time, self.detail, self.model, self.path = fn, name, where, ok, backend, t, detail, model, path

import os
SLOW = bool(os.environ.get('VF_SLOW')); SLOW_T = {}
class Solver:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms
        self.nq = 0; self.t = 0.0
        self.axioms = []
        self.extra = []       # extra provers: callables(pc, goal) -> (ok, name)
        self.fmemo = {}
    def check(self, fs, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        for a in self.axioms: s.add(a)
        for f in fs: s.add(f)
        t = time.time()
        r = s.check()
        self.nq += 1; self.t += time.time() - t
        if SLOW:
            import traceback
            key = (str(r), [x.name + ':%d' % x.lineno for x in traceback.extract_stack()[-4:-1]].__str__())
            a = SLOW_T.setdefault(key, [0, 0.0]); a[0] += 1; a[1] += time.time() - t
        return r, s
    def feasible(self, st, c, timeout=400):
        if c is True: return True
        if c is False: return False
        # relevance slice: only constraints connected to c matter for a quick refutation
        r, _ = self.check(st.pc + [c], timeout)
        return r != z3.unsat
    def entails(self, st, c, timeout=300):
        if c is True: return True
        if c is False: return False
        r, _ = self.check(st.pc + [z3.Not(c)], timeout)
        return r == z3.unsat

def nonlinear(*a): return True
def sliceq(pc, goal):
    return pc

class Engine:
    reals = False
    def __init__(self, mod, contracts=None, solver=None, tier='quick'):
        self.mod = mod
        self.solver = solver or Solver()
        self.contracts = []          # list of (regex, handler(eng, st, args, call) -> [Out])
        self.exact = {}
        self.obls = []
        self.rec = True
        self.cur = None
        self.gobj = {}
        self.loop_hints = {}         # function regex -> hint callable
        self.unroll = {}             # fn regex -> n
        self.typeids = {}
        self.inlined = set()
        self.used_contracts = set()
        self.depth = 0
        self.max_paths = 4000
        self.npaths = 0
        self.stack = []
        self.undec = {}; self.nounroll = set(); self.modmemo = {}; self.dropmemo = {}; self.keptmemo = {}; self.assumedkept = {}; self.fastloops = False; self.nl_first = False; self.stridepass = 0; self.disc = False; self.discskip = False
        self.deadline = None
        self.goal_timeout = 10000
        self.fallbacks = []
        self.hc = {}
        self.nloops = 0
        self.loop_log = []
        self.splices = {}
        self.frames = [0]
        self.loopstack = []
        self.keep_locals = False
    # ---------------------------------------------------------------- obligations
    def where(self, ins):
        if ins is None: return ''
        s = self.mod.srcline(ins.line)
        if not s: return ''
        return '%s:%s' % ((s[0] or '?').split('/')[-1], s[1])
    def check(self, st, cond, name, ins=None, assume=True):
        """obligation: cond must hold on this path"""
        cond = simp(cond) if not isinstance(cond, bool) else cond
        if self.rec:
            if cond is True:
                self.obls.append(Oblig(self.cur, name, self.where(ins), True, 'simplifier', 0.0))
            else:
                ok, be, t, detail, model = self.prove(st, cond)
                self.obls.append(Oblig(self.cur, name, self.where(ins), ok, be, t, detail, model, list(st.trace)))
        if assume and cond is not True:
            st.assume(cond if cond is not False else z3.BoolVal(False))
        return cond is not False
    def prove(self, st, cond):
        t0 = time.time()
        if cond is False:
            r, s = self.solver.check(st.pc, self.goal_timeout)
            if r == z3.unsat: return True, 'z3', time.time() - t0, '', None
            return False, 'z3', time.time() - t0, 'path to this point is %s' % ('feasible' if r == z3.sat else 'not refuted'), (s.model() if r == z3.sat else None)
        if self.nl_first and nonlinear(cond, st.pc):
            r, s = self.solver.check(st.pc + [z3.Not(cond)], 500)
            if r == z3.unsat: return True, 'z3', time.time() - t0, '', None
            if r != z3.sat:
                for fb in self.fallbacks:
                    ok, nm = fb(self, st.pc, cond)
                    if ok: return True, nm, time.time() - t0, '', None
        r, s = self.solver.check(st.pc + [z3.Not(cond)], self.goal_timeout)
        if r == z3.unsat: return True, 'z3', time.time() - t0, '', None
        model = s.model() if r == z3.sat else None
        for fb in self.fallbacks:
            ok, nm = fb(self, st.pc, cond)
            if ok: return True, nm, time.time() - t0, '', None
        return False, 'z3', time.time() - t0, ('counter-model' if r == z3.sat else 'solver: %s' % s.reason_unknown()) + ': ' + str(cond)[:600], model
    def fail(self, st, name, ins=None):
        self.check(st, False, name, ins)
    # ---------------------------------------------------------------- int normalisation
    def inrange(self, st, e, lo, hi):
        """is lo <= e < hi known?"""
        if isc(e): return lo <= e < hi
        key = (e.get_id(), lo, hi)
        if key in st.rng: return st.rng[key][1]
        r = self.solver.entails(st, z3.And(e >= lo, e < hi))
        st.rng[key] = (e, r) if r else (e, False)
        if not r: del st.rng[key]
        return r
    def U(self, st, v):
        n = v.n; e = v.e; m = 1 << n
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < m: return e
        if isc(e): return e % m
        if v.c is not None: return e
        if self.inrange(st, e, 0, m): return e
        if v.lo is not None and v.hi is not None and v.lo >= -m and v.hi < m:
            return z3.If(e < 0, e + m, e)
        return e % m
    def S(self, st, v):
        n = v.n; e = v.e; m = 1 << n; h = m >> 1
        if v.lo is not None and v.hi is not None and v.lo >= -h and v.hi < h: return e
        if isc(e):
            r = e % m
            return r - m if r >= h else r
        if self.inrange(st, e, -h, h): return e
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < m:
            return z3.If(e >= h, e - m, e)
        return (e + h) % m - h
    def ub(self, v):
        m = 1 << v.n
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < m: return v.lo, v.hi
        return 0, m - 1
    def sb(self, v):
        h = 1 << (v.n - 1)
        if v.lo is not None and v.hi is not None and v.lo >= -h and v.hi < h: return v.lo, v.hi
        return -h, h - 1
    def truth(self, st, v):
        if v.c is not None: return v.c
        e = self.U(st, v)
        if isc(e): return e != 0
        return simp(e != 0)
    def mkint(self, st, n, e, signed):
        """wrap an Int expr constrained to the type's range"""
        if signed:
            lo, hi = -(1 << (n-1)), (1 << (n-1)) - 1
        else:
            lo, hi = 0, (1 << n) - 1
        st.assume(z3.And(e >= lo, e <= hi))
        return IVal(n, e, lo, hi)
    def fint(self, st, name, n, signed):
        return self.mkint(st, n, fresh(name), signed)
    # ---------------------------------------------------------------- memory
    def new(self, st, name, size, kind='mem', os=None, ety=None):
        o = Obj(name, size, kind, ety=ety)
        st.mem[o] = os or OS()
        return o
    def newbuf(self, st, name, es, n, arr=None):
        o = Obj(name, mul(es, n))
        st.mem[o] = OS(arr=arr if arr is not None else fresh(name + '_arr', ARR), es=es)
        return o
    def gptr(self, st, name):
        """address of a global"""
        mod = self.mod
        if name in mod.fns or name in mod.decls:
            return FnPtr(name)
        if name not in self.gobj:
            txt = mod.gtext.get(name)
            if txt is None: raise Unsupported('global ' + name)
            m = re.search(r'\b(constant|global)\b (.*)$', txt)
            from ir import P, tokenize
            body = re.sub(r', (align|comdat|section|!dbg).*$', '', m.group(2))
            p = P(tokenize(body), mod, body)
            ty = p.type()
            init = None
            if p.peek()[0] and p.peek()[1] != ',':
                try: init = p.value(ty)
                except Unsupported: init = None
            o = Obj('@' + name, mod.sizeof(ty), 'const' if m.group(1) == 'constant' else 'global', ety=ty)
            self.gobj[name] = (o, ty, init)
        o, ty, init = self.gobj[name]
        if o not in st.mem:
            os = OS()
            if init is not None and (o.kind == 'const'):
                self.init_cells(os.cells, 0, ty, init, st)
            elif o.kind == 'global':
                self.init_global(st, name, o, ty, os)
            st.mem[o] = os
        return PVal(o, 0)
    def init_global(self, st, name, o, ty, os):
        h = getattr(self, 'global_hook', None)
        if h and h(self, st, name, o, ty, os): return
    def init_cells(self, cells, off, ty, v, st):
        mod = self.mod
        ty = mod.struct(ty) if ty.k == 'named' else ty
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]): cells[off + i] = IVal(8, b)
        elif v[0] == 'zero':
            self.zero_cells(cells, off, ty)
        elif v[0] == 'agg':
            if ty.k == 'arr':
                es = mod.sizeof(ty.b)
                for i, (t, x) in enumerate(v[1]): self.init_cells(cells, off + i*es, t, x, st)
            else:
                for i, (t, x) in enumerate(v[1]):
                    fo, ft = mod.field_off(ty, i)
                    self.init_cells(cells, off + fo, t, x, st)
        elif v[0] == 'undef': pass
        else:
            cells[off] = self.opv(st, {}, ty, v)
    def zero_cells(self, cells, off, ty):
        mod = self.mod
        if ty.k == 'named': ty = mod.struct(ty)
        if ty.k == 'arr':
            es = mod.sizeof(ty.b)
            for i in range(ty.a): self.zero_cells(cells, off + i*es, ty.b)
        elif ty.k == 'struct':
            for i in range(len(ty.a)):
                fo, ft = mod.field_off(ty, i)
                self.zero_cells(cells, off + fo, ft)
        elif ty.k == 'int': cells[off] = IVal(ty.a, 0)
        elif ty.k == 'ptr': cells[off] = NULL
        else: cells[off] = UNDEF
    # vector data objects
    def vecdata(self, st, o, off, vec):
        key = ('vd', o, off, vec.gen)
        d = self.hc.get(key)
        if d is None:
            d = Obj('data(%s+%s)' % (o.name, off), None, 'vecdata', owner=(o, off, vec.gen))
            self.hc[key] = d
        return d
    def vec_of(self, st, d, ins=None):
        o, off, gen = d.owner
        os = st.mem.get(o)
        v = os.cells.get(off) if os else None
        if not isinstance(v, Vec) or v.gen != gen:
            self.fail(st, 'pointer into a vector is still valid (no reallocation or destruction since)', ins)
            return None
        return v
    def objsize(self, st, o):
        if o.kind == 'vecdata':
            v = self.vec_of(st, o)
            if v is None: return 0
            if isinstance(v, Str): return mul(v.es, add(v.len, 1))   # terminating NUL is addressable
            return mul(v.es, v.len)
        return o.size
    def bounds(self, st, p, n, ins, what='access'):
        if p.o is None or isinstance(p, FnPtr):
            self.check(st, False, 'non-null pointer dereference', ins)
            return False
        os = st.mem.get(p.o)
        if p.o.kind != 'vecdata':
            if os is None or not os.live:
                self.check(st, False, 'no access to a freed or out-of-scope object (%s)' % p.o.name, ins)
                return False
        sz = self.objsize(st, p.o)
        if sz is None: return True
        if isc(p.off) and isc(sz) and isc(n):
            ok = p.off >= 0 and p.off + n <= sz
            if not ok: self.check(st, False, 'memory %s in bounds of %s' % (what, p.o.name), ins)
            elif self.rec: self.obls.append(Oblig(self.cur, 'memory access in bounds', self.where(ins), True, 'constant', 0.0))
            return ok
        self.check(st, zand(cmpx('>=', p.off, 0), cmpx('<=', add(p.off, n), sz)), 'memory %s in bounds of %s' % (what, p.o.name), ins)
        return True
    def elemidx(self, st, p, es, ins=None):
        """split byte offset into (index, rest) w.r.t. element size es"""
        off = p.off
        if isc(off): return off // es, off % es
        if es == 1: return off, 0
        q = self.divexact(off, es)
        if q is not None: return q
        raise Unsupported('symbolic offset not a multiple of element size: %s / %d' % (off, es))
    def divexact(self, e, es):
        # linear terms with coefficients multiple of es (+ constant)
        e = z3.simplify(e, som=True)
        args = e.children() if z3.is_add(e) else [e]
        q = 0; rest = 0
        for a in args:
            if z3.is_int_value(a):
                c = a.as_long(); q = add(q, c // es); rest += c % es
            elif z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % es == 0:
                t = a.arg(1) if a.num_args() == 2 else z3.Product(*a.children()[1:])
                q = add(q, mul(a.arg(0).as_long() // es, t))
            else:
                return None
        if rest >= es:
            q = add(q, rest // es); rest %= es
        return q, rest
    def loadcell(self, st, o, off):
        os = st.mem[o]
        return os.cells.get(off)
    def findcell(self, os, off):
        c = os.cells.get(off)
        if c is not None: return off, c
        for k, v in os.cells.items():
            if k <= off:
                s = vsize(v)
                if s is not None and k + s > off and not isinstance(v, Undef): return k, v
        return None, None
    def arr_state(self, st, p):
        """(os-like arr, es) if the object is a symbolic array"""
        if p.o.kind == 'vecdata':
            v = self.vec_of(st, p.o)
            if v is None: return None
            return ('vec', v)
        os = st.mem[p.o]
        if os.arr is not None: return ('arr', os)
        return None
    def load(self, st, p, ty, ins=None):
        n = self.mod.sizeof(ty)
        if p.o is not None and p.o.kind == 'cookie' and isc(p.off) and p.off == -8 and n == 8:
            return IVal(64, st.g[('cookie', p.o.id)])       # element count in front of a heap array of class type
        if ty.k in ('struct', 'arr', 'named'):
            t = self.mod.struct(ty) if ty.k != 'arr' else ty
            vals = []
            if t.k == 'arr':
                es = self.mod.sizeof(t.b)
                for i in range(t.a): vals.append(self.load(st, PVal(p.o, add(p.off, i*es)), t.b, ins))
            else:
                for i in range(len(t.a)):
                    fo, ft = self.mod.field_off(t, i)
                    vals.append(self.load(st, PVal(p.o, add(p.off, fo)), ft, ins))
            return Agg(vals)
        if not self.bounds(st, p, n, ins, 'read'):
            return self.anyval(st, ty)
        a = self.arr_state(st, p)
        if a:
            return self.arr_load(st, p, ty, n, a, ins)
        os = st.mem[p.o]
        off = p.off
        if not isc(off):
            # symbolic index into a cell object: convert to array form
            self.to_array(st, p.o, n if ty.k == 'int' else 8, ins)
            return self.load(st, p, ty, ins)
        v = os.cells.get(off)
        if v is not None:
            if isinstance(v, IVal):
                if ty.k == 'int':
                    if v.n == ty.a: return v
                    if ty.a < v.n:   # low part (little endian)
                        return IVal(ty.a, v.e, v.lo, v.hi)
                    # wider read: assemble bytes
                    return self.assemble(st, os, off, ty, ins)
                if ty.k == 'ptr' and v.ptr is not None: return v.ptr
                if ty.k == 'ptr' and isc(v.e) and v.e == 0: return NULL
            elif isinstance(v, (PVal, FnPtr)):
                if ty.k == 'ptr': return v
                if ty.k == 'int': return IVal(ty.a, fresh('ptrint'), ptr=v)
            elif isinstance(v, FVal):
                if ty.k in ('double',): return v
        k, v = self.findcell(os, off)
        if v is None or isinstance(v, Undef):
            if p.o.kind in ('opaqueobj',):
                return self.anyval(st, ty)
            if p.o.kind == 'global':
                v = self.anyval(st, ty)     # unknown initial value, but a stable one
                os2 = os.copy(); os2.cells[off] = v; st.mem[p.o] = os2
                return v
            self.check(st, False, 'no read of an uninitialised value (%s+%s)' % (p.o.name, off), ins)
            return self.anyval(st, ty)
        r = self.bigload(st, p.o, k, v, off - k, ty, ins)
        if r is not None: return r
        if isinstance(v, IVal) and ty.k == 'int':
            return self.assemble(st, os, off, ty, ins)
        raise Unsupported('load %r at %s+%s (cell %r@%s)' % (ty, p.o, off, v, k))
    def bigload(self, st, o, k, v, d, ty, ins):
        if isinstance(v, Mpz):
            val = self.mpzval(st, v, ins)
            if d == 4 and ty.k == 'int' and ty.a == 32:
                return self.mpz_size_field(st, val)
            if d == 0 and ty.k == 'int' and ty.a == 32:
                return self.fint(st, 'mp_alloc', 32, True)
            if d == 8 and ty.k == 'ptr':
                lo = Obj('limbs', None, 'limbs', owner=(o, k, v))
                return PVal(lo, 0)
        if isinstance(v, Vec):
            if isinstance(v, Str):
                if d == 0 and ty.k == 'ptr': return PVal(self.vecdata(st, o, k, v), 0)
                if d == 8: return IVal(64, v.len, 0, (1 << 63))
            else:
                dd = self.vecdata(st, o, k, v)
                if d == 0: return PVal(dd, 0)
                if d == 8: return PVal(dd, mul(v.es, v.len))
                if d == 16: return PVal(dd, mul(v.es, add(v.len, z3.Int('cap!slack'))))
        if isinstance(v, Opaque):
            return self.anyval(st, ty)
        if isinstance(v, Dead):
            self.check(st, False, 'no use of a destroyed object', ins)
            return self.anyval(st, ty)
        h = getattr(v, 'bigload', None)
        if h: return h(self, st, o, k, d, ty, ins)
        return None
    def mpz_size_field(self, st, val):
        """_mp_size: sign(val) * number of limbs"""
        if isc(val):
            nl = (abs(val).bit_length() + 63) // 64
            return IVal(32, nl if val >= 0 else -nl)
        f = z3.Function('limbs', I_, I_)
        e = f(val)
        st.assume(z3.And(z3.Implies(val == 0, e == 0), z3.Implies(val > 0, e > 0), z3.Implies(val < 0, e < 0)))
        st.assume(z3.And(e > -(1 << 26), e < (1 << 26)))
        return IVal(32, e, -(1 << 26), 1 << 26, tag=('limbs', val))
    def mpzval(self, st, m, ins=None):
        if st.limbs.get(m.limb) != m.ver:
            self.check(st, False, 'no stale shallow copy of an mpz is read', ins)
        return m.val
    def bytes_of(self, st, v):
        """little-endian list of byte expressions of an integer"""
        nb = (v.n + 7) // 8
        if v.bytes: return v.bytes
        u = self.U(st, v)
        if nb == 1: return [u]
        return [modc(fdivc(u, 256**i), 256) for i in range(nb)]
    def frombytes(self, bs):
        e = 0
        for i, b in enumerate(bs): e = add(e, mul(256**i, b))
        hi = sum(256**i * (b if isc(b) else 255) for i, b in enumerate(bs))
        tz = 0
        for b in bs:
            if isc(b) and b == 0: tz += 8
            else: break
        return IVal(8*len(bs), e, 0, hi, tz, bytes=list(bs) if len(bs) > 1 else None)
    def bytewise(self, op, n, a, b):
        def bl(v):
            if v.bytes: return list(v.bytes)
            if isc(v.e): return [((v.e % (1 << n)) >> (8*i)) & 255 for i in range(n // 8)]
            if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < 256: return [v.e] + [0] * (n // 8 - 1)
            return None
        x, y = bl(a), bl(b)
        if x is None or y is None or len(x) != n // 8 or len(y) != n // 8: return None
        out = []
        for p, q in zip(x, y):
            if isc(p): p, q = q, p
            if isc(p) and isc(q): out.append({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
            elif isc(q) and q == 0: out.append(0 if op == 'and' else p)
            elif isc(q) and q == 255 and op == 'and': out.append(p)
            elif isc(q) and q == 255 and op == 'or': out.append(255)
            else: return None
        return self.frombytes(out)
    def assemble(self, st, os, off, ty, ins):
        nb = self.mod.sizeof(ty)
        bs = []
        for i in range(nb):
            k, v = self.findcell(os, off + i)
            if not isinstance(v, IVal): raise Unsupported('assemble over %r' % (v,))
            bs.append(self.bytes_of(st, v)[off + i - k])
        return self.frombytes(bs)
    def to_array(self, st, o, es, ins):
        os = st.mem[o]
        ety = o.ety
        if ety is not None:
            t = ety
            while t.k in ('arr', 'named', 'struct'):
                if t.k == 'arr': t = t.b
                elif t.k == 'named': t = self.mod.struct(t)
                elif len(t.a) == 1: t = t.a[0]
                else: break
            if t.k == 'int': es = self.mod.sizeof(t)
        if not isc(o.size) and os.cells: raise Unsupported('to_array')
        arr = fresh('a_' + o.name, ARR)
        for k, v in os.cells.items():
            if isinstance(v, Undef): continue
            if isinstance(v, IVal) and es == 1 and vsize(v) > 1:
                for j, b in enumerate(self.bytes_of(st, v)): arr = z3.Store(arr, k + j, zi(self.U(st, b)) if hasattr(b, 'n') else zi(b))
                continue
            if not isinstance(v, IVal) or vsize(v) != es or k % es:
                raise Unsupported('symbolic index into mixed object %s' % o.name)
            arr = z3.Store(arr, k // es, zi(self.U(st, v)))
        st.mem[o] = OS(arr=arr, es=es)
    def sel(self, st, arr, i, es, assume_range=True):
        e = simp(z3.Select(arr, zi(i)))
        if not isc(e):
            st.assume(z3.And(e >= 0, e < (1 << (8*es))))
        return e
    def arr_load(self, st, p, ty, n, a, ins):
        kind, x = a
        es = x.es; arr = x.arr
        if kind == 'vec' and x.kind != 'int':
            return x.kind_load(self, st, p, ty, ins) if hasattr(x, 'kind_load') else self.vec_kind_load(st, p, x, ty, ins)
        if ty.k == 'ptr' : raise Unsupported('pointer in int array')
        if ty.k != 'int': raise Unsupported('arr load %r' % ty)
        nb = n
        if es == nb:
            q, r = self.elemidx(st, p, es)
            if r == 0:
                return IVal(ty.a, self.sel(st, arr, q, es), 0, (1 << (8*es)) - 1)
        if es == 1:
            bs = [self.sel(st, arr, add(p.off, i), 1) for i in range(nb)]
            v = self.frombytes(bs)
            return v
        if nb < es:
            q, r = self.elemidx(st, p, es)
            e = self.sel(st, arr, q, es)
            return IVal(ty.a, modc(fdivc(e, 256**r), 256**nb), 0, (1 << (8*nb)) - 1)
        raise Unsupported('array read of %d bytes with element size %d' % (nb, es))
    def setarr(self, st, p, a, arr, **kw):
        kind, x = a
        if kind == 'vec':
            o, off, gen = p.o.owner
            os = st.mem[o].copy()
            v = os.cells[off]
            nv = v.rebuild([v.len, arr])
            os.cells[off] = nv
            st.mem[o] = os
        else:
            os = st.mem[p.o].copy(); os.arr = arr; st.mem[p.o] = os
    def store(self, st, p, v, ins=None):
        if isinstance(v, Agg):
            raise Unsupported('aggregate store')
        n = vsize(v) if not isinstance(v, Undef) else None
        if n is None: return
        if p.o is not None and p.o.kind == 'cookie' and isc(p.off) and p.off == -8 and n == 8:
            st.g[('cookie', p.o.id)] = self.U(st, v); return
        if not self.bounds(st, p, n, ins, 'write'): return
        if p.o.kind == 'const':
            self.check(st, False, 'no write to a constant', ins); return
        a = self.arr_state(st, p)
        if a:
            x = a[1]; es = x.es
            if a[0] == 'vec' and x.kind != 'int':
                return self.vec_kind_store(st, p, x, v, ins)
            if not isinstance(v, IVal): raise Unsupported('store %r into int array' % (v,))
            nb = n
            if es == nb:
                q, r = self.elemidx(st, p, es)
                if r: raise Unsupported('misaligned array store')
                self.setarr(st, p, a, z3.Store(x.arr, zi(q), zi(self.U(st, v))))
                return
            if es == 1:
                arr = x.arr
                for i, b in enumerate(self.bytes_of(st, v)):
                    arr = z3.Store(arr, zi(add(p.off, i)), zi(b))
                self.setarr(st, p, a, arr)
                return
            raise Unsupported('array store of %d bytes with element size %d' % (nb, es))
        if not isc(p.off):
            self.to_array(st, p.o, n, ins)
            return self.store(st, p, v, ins)
        os = st.mem[p.o].copy()
        self.clobber(st, os, p.off, n, v, ins)
        os.cells[p.off] = v
        st.mem[p.o] = os
    def clobber(self, st, os, off, n, v, ins):
        """remove/split the cells overlapped by a write"""
        if off in os.cells and vsize(os.cells[off]) == n and not isinstance(os.cells[off], (Mpz, Vec)):
            return
        for k in list(os.cells):
            c = os.cells[k]
            s = vsize(c)
            if s is None: del os.cells[k]; continue
            if k < off + n and off < k + s:
                if isinstance(c, IVal):
                    bs = self.bytes_of(st, c)
                    del os.cells[k]
                    for i, b in enumerate(bs):
                        if not (off <= k + i < off + n): os.cells[k+i] = IVal(8, b, 0, 255)
                elif isinstance(c, (PVal, FVal, FnPtr)) : del os.cells[k]
                elif isinstance(c, Mpz) and not (off <= k and k + s <= off + n):
                    if isinstance(v, IVal) and off == k + 4 and v.n == 32 and v.tag and v.tag[0] == 'neglimbs' and same(v.tag[1], c.val):
                        raise Unsupported('sign flip')   # handled in exec store
                    raise Unsupported('partial write into an mpz_t')
                elif isinstance(c, Vec) and not (off <= k and k + s <= off + n):
                    raise Unsupported('partial write into a std container')
                elif hasattr(c, 'partial'):
                    c.partial(self, st, os, k, off, n, ins)
                else: del os.cells[k]
    def anyval(self, st, ty, name='any'):
        if ty.k == 'int':
            return self.fint(st, name, ty.a, False)
        if ty.k == 'double': return FVal(fresh(name, F64S))
        if ty.k == 'ptr':
            return PVal(Obj('unknown', None, 'opaqueobj'), 0)
        return UNDEF
    def memcpy(self, st, d, s, n, ins=None):
        n = cst(n)
        if isc(n) and n == 0: return
        if not self.bounds(st, s, n, ins, 'read'): return
        if not self.bounds(st, d, n, ins, 'write'): return
        sa = self.arr_state(st, s); da = self.arr_state(st, d)
        if da or (sa and not isc(n)) or not isc(n):
            if not da:
                self.to_array(st, d.o, 1 if not sa else sa[1].es, ins); da = self.arr_state(st, d)
            des = da[1].es
            if isc(n) and n <= 64 and not (sa and des == sa[1].es and n > 16):
                if sa:
                    if des == 1 and sa[1].es == 1:
                        vals = [self.sel(st, sa[1].arr, add(s.off, i), 1) for i in range(n)]
                    else: raise Unsupported('memcpy arr->arr es mismatch')
                    arr = da[1].arr
                    for i, b in enumerate(vals): arr = z3.Store(arr, zi(add(d.off, i)), zi(b))
                    self.setarr(st, d, da, arr)
                else:
                    os = st.mem[s.o]
                    arr = da[1].arr
                    i = 0
                    if des != 1: raise Unsupported('memcpy struct->arr')
                    while i < n:
                        k, c = self.findcell(os, s.off + i)
                        if not isinstance(c, IVal): raise Unsupported('memcpy of %r into bytes' % (c,))
                        bs = self.bytes_of(st, c)
                        j = s.off + i - k
                        arr = z3.Store(arr, zi(add(d.off, i)), zi(bs[j]))
                        i += 1
                    self.setarr(st, d, da, arr)
                return
            if not sa:
                self.to_array(st, s.o, des, ins); sa = self.arr_state(st, s)
            if sa[1].es != des: raise Unsupported('memcpy es mismatch')
            di, r1 = self.elemidx(st, d, des); si, r2 = self.elemidx(st, s, des)
            cnt = n // des if isc(n) else (n if des == 1 else self.divexact(n, des)[0])
            arr = self.splice(st, da[1].arr, di, sa[1].arr, si, cnt)
            self.setarr(st, d, da, arr)
            return
        # concrete n, destination cells
        os = st.mem[s.o] if not sa else None
        new = {}
        if sa:
            es = sa[1].es
            for i in range(0, n, es):
                q, r = self.elemidx(st, PVal(s.o, add(s.off, i)), es)
                new[d.off + i] = IVal(8*es, self.sel(st, sa[1].arr, q, es), 0, (1 << (8*es)) - 1)
        else:
            if not isc(s.off): raise Unsupported('memcpy symbolic source offset')
            for k, c in os.cells.items():
                sz = vsize(c)
                if sz is None: continue
                if k >= s.off and k + sz <= s.off + n:
                    new[d.off + k - s.off] = c
                elif k < s.off + n and s.off < k + sz and isinstance(c, IVal):
                    for i, b in enumerate(self.bytes_of(st, c)):
                        if s.off <= k + i < s.off + n: new[d.off + k + i - s.off] = IVal(8, b, 0, 255)
                elif k < s.off + n and s.off < k + sz and not isinstance(c, Undef):
                    raise Unsupported('memcpy of part of %r' % (c,))
        dos = st.mem[d.o].copy()
        for k in list(dos.cells):
            c = dos.cells[k]
            sz = vsize(c) or 1
            if k < d.off + n and d.off < k + sz:
                if d.off <= k and k + sz <= d.off + n: del dos.cells[k]
                elif isinstance(c, IVal):
                    bs = self.bytes_of(st, c); del dos.cells[k]
                    for i, b in enumerate(bs):
                        if not (d.off <= k + i < d.off + n): dos.cells[k+i] = IVal(8, b, 0, 255)
                else: raise Unsupported('memcpy over part of %r' % (c,))
        dos.cells.update(new)
        st.mem[d.o] = dos
    def splice(self, st, darr, di, sarr, si, n):
        """darr with [di, di+n) replaced by sarr[si, si+n)"""
        if isc(n) and n <= 16:
            r = darr
            vals = [simp(z3.Select(sarr, zi(add(si, i)))) for i in range(n)]
            for i, v in enumerate(vals): r = z3.Store(r, zi(add(di, i)), zi(v))
        else:
            j = z3.Int('j!spl')
            r = z3.Lambda([j], z3.If(z3.And(j >= zi(di), j < zi(add(di, n))), z3.Select(sarr, j - zi(di) + zi(si)), z3.Select(darr, j)))
        self.splices[r.get_id()] = (r, darr, di, sarr, si, n)
        return r
    def window(self, st, arr, off, n):
        """canonical (array, offset) of the n elements at off: copies are traced back to their source"""
        while True:
            info = self.splices.get(arr.get_id())
            if info is not None:
                _, darr, di, sarr, si, cnt = info
                inside = zand(cmpx('>=', off, di), cmpx('<=', add(off, n), add(di, cnt)))
                if inside is True or (inside is not False and self.solver.entails(st, inside, 1000)):
                    arr, off = sarr, add(sub(off, di), si); continue
                outside = zor(cmpx('>=', off, add(di, cnt)), cmpx('<=', add(off, n), di))
                if outside is True or (outside is not False and self.solver.entails(st, outside, 1000)):
                    arr = darr; continue
                return arr, off
            if z3.is_store(arr):
                i = arr.arg(1)
                outside = zor(cmpx('<', cst(i), off), cmpx('>=', cst(i), add(off, n)))
                if outside is True or (outside is not False and self.solver.entails(st, outside, 1000)):
                    arr = arr.arg(0); continue
            return arr, off
    def memset(self, st, d, v, n, ins=None):
        n = cst(n)
        if isc(n) and n == 0: return
        if not self.bounds(st, d, n, ins, 'write'): return
        b = self.U(st, v)
        a = self.arr_state(st, d)
        if not a and isc(n):
            os = st.mem[d.o]
            t = d.o.ety
            big = n > 64 or (t is not None and t.k == 'arr' and t.b.k == 'int' and t.b.a == 8 and n > 16)
            if not big or (isc(b) and b == 0 and t is not None and t.k != 'arr'):
                dos = os.copy()
                for k in list(dos.cells):
                    if d.off <= k < d.off + n: del dos.cells[k]
                if isc(b) and b == 0 and t is not None and d.off == 0 and n == d.o.size:
                    self.zero_cells(dos.cells, 0, t)
                else:
                    for i in range(n): dos.cells[d.off + i] = IVal(8, b, 0, 255)
                st.mem[d.o] = dos
                return
        if not a:
            self.to_array(st, d.o, 1, ins); a = self.arr_state(st, d)
        es = a[1].es
        if es != 1:
            if not (isc(b) and b == 0): raise Unsupported('memset es')
            di, _ = self.elemidx(st, d, es)
            n = n // es if isc(n) else self.divexact(n, es)[0]
        else: di = d.off
        j = z3.Int('j!set')
        arr = a[1].arr
        if isc(n) and n <= 8:
            for i in range(n): arr = z3.Store(arr, zi(add(di, i)), zi(b))
        else:
            arr = z3.Lambda([j], z3.If(z3.And(j >= zi(di), j < zi(add(di, n))), zi(b), z3.Select(arr, j)))
        self.setarr(st, d, a, arr)
    # ---------------------------------------------------------------- mpz
    def mpz_new(self, st, p, val, ins=None):
        if not self.bounds(st, p, 16, ins, 'write'): return
        if not isc(p.off) or st.mem[p.o].arr is not None: raise Unsupported('mpz at symbolic address')
        limb = next(_ctr)
        st.limbs[limb] = 0
        os = st.mem[p.o].copy()
        for k in list(os.cells):
            if p.off <= k < p.off + 16: del os.cells[k]
        os.cells[p.off] = Mpz(val, limb, 0)
        st.mem[p.o] = os
    def mpz_cell(self, st, p, ins=None):
        if p.o is None or isinstance(p, FnPtr):
            self.check(st, False, 'non-null mpz pointer', ins); return None
        if p.o not in st.mem and p.o.kind != 'vecdata': raise Unsupported('mpz in %r' % p.o)
        if p.o.kind == 'vecdata': return None
        c = st.mem[p.o].cells.get(p.off) if isc(p.off) else None
        if isinstance(c, Mpz): return c
        return c
    def mpz_get(self, st, p, ins=None):
        c = self.mpz_cell(st, p, ins)
        if isinstance(c, Mpz):
            return self.mpzval(st, c, ins)
        if isc(p.off) and p.o is not None and p.o in st.mem:
            k, v = self.findcell(st.mem[p.o], p.off)
            if v is not None and hasattr(v, 'mpz_get'): return v.mpz_get(self, st, p.off - k)
        h = getattr(self, 'mpz_get_hook', None)
        if h:
            r = h(self, st, p, ins)
            if r is not None: return r
        self.check(st, False, 'mpz argument is initialised', ins)
        return fresh('badmpz')
    def mpz_set(self, st, p, val, ins=None, prov=None):
        c = self.mpz_cell(st, p, ins)
        if not isinstance(c, Mpz):
            h = getattr(self, 'mpz_set_hook', None)
            if h and h(self, st, p, val, ins): return
            if isc(p.off) and p.o is not None and p.o in st.mem:
                k, v = self.findcell(st.mem[p.o], p.off)
                if v is not None and hasattr(v, 'mpz_set'): return v.mpz_set(self, st, p.o, k, p.off - k, val)
            self.check(st, False, 'mpz result is initialised', ins)
            return
        self.mpzval_w(st, c, ins)
        st.limbs[c.limb] = st.limbs.get(c.limb, 0) + 1
        os = st.mem[p.o].copy()
        if isinstance(val, z3.ExprRef): val = simp(val) if val.decl().kind() != z3.Z3_OP_UNINTERPRETED else val
        os.cells[p.off] = Mpz(val, c.limb, st.limbs[c.limb], prov)
        st.mem[p.o] = os
    def mpzval_w(self, st, c, ins):
        if c.limb not in st.limbs or st.limbs[c.limb] is None:
            self.check(st, False, 'no write through a cleared mpz', ins)
    def mpz_clear(self, st, p, ins=None):
        c = self.mpz_cell(st, p, ins)
        if not isinstance(c, Mpz):
            k, v = self.findcell(st.mem[p.o], p.off) if p.o in st.mem else (None, None)
            if v is not None and hasattr(v, 'mpz_clear'): return v.mpz_clear(self, st, p.o, k, p.off - k)
            self.check(st, False, 'mpz_clear of an initialised mpz', ins); return
        if st.limbs.get(c.limb) is None or st.limbs.get(c.limb) != c.ver:
            self.check(st, False, 'mpz_clear of a live, unaliased mpz (no double free)', ins)
        st.limbs[c.limb] = None
        os = st.mem[p.o].copy(); os.cells[p.off] = Dead(16); st.mem[p.o] = os
    # vec helpers
    def put(self, st, p, val, n=None):
        """place a big cell"""
        os = st.mem[p.o].copy()
        n = n or val.size
        if not isc(p.off): raise Unsupported('put at symbolic offset')
        for k in list(os.cells):
            if p.off <= k < p.off + n: del os.cells[k]
        os.cells[p.off] = val
        st.mem[p.o] = os
    def getbig(self, st, p, cls, ins=None):
        if p.o is None or not isc(p.off) or p.o not in st.mem: return None
        v = st.mem[p.o].cells.get(p.off)
        return v if isinstance(v, cls) else None
    # ---------------------------------------------------------------- operand evaluation
    def opv(self, st, regs, ty, o):
        k = o[0]
        if k == 'l':
            if o[1] not in regs: raise Unsupported('undefined register %' + o[1])
            return regs[o[1]]
        if k == 'c':
            if ty.k == 'int':
                return IVal(ty.a, o[1]) if ty.a != 1 else boolv(bool(o[1]))
            if ty.k in ('double',): return FVal(self.fconst(str(o[1])), f64bits(str(o[1])) if self.reals else None)
        if k == 'f': return FVal(self.fconst(o[1]), f64bits(o[1]) if self.reals else None)
        if k == 'null': return NULL
        if k == 'undef':
            if ty.k in ('struct', 'named', 'arr'):
                t = self.mod.struct(ty)
                return Agg([UNDEF] * (len(t.a) if t.k == 'struct' else t.a))
            return UNDEF
        if k == 'g': return self.gptr(st, o[1])
        if k == 'gep': return self.gep(st, regs, o[1], o[2])
        if k == 'zero':
            if ty.k in ('struct', 'named', 'arr'):
                t = self.mod.struct(ty) if ty.k != 'arr' else ty
                subs = t.a if t.k == 'struct' else [t.b]*t.a
                return Agg([self.opv(st, regs, s, ('zero',)) for s in subs])
            if ty.k == 'int': return IVal(ty.a, 0) if ty.a != 1 else boolv(False)
            if ty.k == 'ptr': return NULL
            return FVal(self.fconst('0'))
        if k == 'cast':
            v = self.opv(st, regs, o[2], o[3])
            return self.cast(st, o[1], v, o[2], o[4])
        if k == 'agg':
            return Agg([self.opv(st, regs, t, x) for t, x in o[1]])
        if k == 'binc':
            return self.binop(st, o[1], set(), self.opv(st, regs, o[2], o[3]), self.opv(st, regs, o[2], o[4]), o[2], None)
        raise Unsupported('operand %r' % (o,))
    def fconst(self, txt):
        return z3.Const('f:' + txt, F64S)
    # doubles as finite reals with the rounding error of each operation bounded (self.reals)
    def rval(self, st, exact=None, err=None):
        v = FVal(fresh('f', F64S), fresh('fr', z3.RealSort()))
        if exact is not None:
            d = v.r - exact; m = z3.Q(1, 1 << 52)
            st.assume(z3.And(z3.Implies(exact >= 0, z3.And(d <= exact * m, -d <= exact * m)), z3.Implies(exact <= 0, z3.And(d <= -exact * m, -d <= -exact * m))))
        return v
    def isreal(self, *vs): return self.reals and all(z3.is_expr(v.r) for v in vs)
    def gep(self, st, regs, bt, ops):
        p = self.opv(st, regs, ops[0][0], ops[0][1])
        if isinstance(p, Undef): return UNDEF
        if isinstance(p, FnPtr): raise Unsupported('gep on function')
        off = p.off
        t = bt
        for i, (ity, io) in enumerate(ops[1:]):
            iv = self.opv(st, regs, ity, io)
            if i == 0:
                s = self.S(st, iv)
                off = add(off, mul(self.mod.sizeof(t), s) if not isc(s) else self.mod.sizeof(t) * s)
                continue
            t = self.mod.struct(t) if t.k == 'named' else t
            if t.k == 'struct':
                fo, ft = self.mod.field_off(t, iv.e)
                off = add(off, fo); t = ft
            elif t.k in ('arr', 'vec'):
                s = self.S(st, iv)
                off = add(off, mul(self.mod.sizeof(t.b), s)); t = t.b
            else: raise Unsupported('gep into %r' % t)
        return PVal(p.o, off, p.tag)
    def cast(self, st, op, v, t, t2):
        if isinstance(v, Undef): return v
        if op == 'trunc':
            if t2.a == 1:
                e = self.U(st, v)
                return boolv(simp(zi(modc(e, 2)) == 1) if not isc(e) else bool(e & 1))
            if v.bytes and t2.a % 8 == 0: return self.frombytes(v.bytes[:t2.a // 8])
            return IVal(t2.a, v.e, v.lo, v.hi, v.tz)
        if op == 'zext':
            if v.c is not None: return IVal(t2.a, v.e, 0, 1, c=None, tag=('bool', v.c)) if not isinstance(v.c, bool) else IVal(t2.a, 1 if v.c else 0)
            e = self.U(st, v); lo, hi = self.ub(v)
            bs = None
            if t2.a % 8 == 0 and v.n % 8 == 0:
                bs = v.bytes if v.bytes else ([e] if v.n == 8 else None)
                if bs: bs = list(bs) + [0]*((t2.a - v.n)//8)
            return IVal(t2.a, e, lo, hi, v.tz, bytes=bs)
        if op == 'sext':
            if v.n == 1:
                e = v.e
                return IVal(t2.a, simp(-zi(e)), -1, 0)
            e = self.S(st, v); lo, hi = self.sb(v)
            return IVal(t2.a, e, lo, hi, v.tz)
        if op in ('bitcast', 'addrspacecast'): return v
        if op == 'ptrtoint':
            return IVal(t2.a, fresh('addr') if isinstance(v, FnPtr) or v.o is not None else 0, ptr=v)
        if op == 'inttoptr':
            if v.ptr is not None: return v.ptr
            if isc(v.e) and v.e == 0: return NULL
            raise Unsupported('inttoptr')
        if op in ('uitofp', 'sitofp'):
            f = z3.Function(op, I_, F64S)
            if self.reals:
                x = self.U(st, v) if op[0] == 'u' else self.S(st, v)
                if isc(x) and abs(x) < 1 << 53: return FVal(f(zi(x)), z3.Q(x, 1))
                r = self.rval(st, z3.ToReal(zi(x)))
                st.assume(z3.Implies(z3.And(zi(x) <= 1 << 53, zi(x) >= -(1 << 53)), r.r == z3.ToReal(zi(x))))
                return r
            return FVal(f(zi(self.U(st, v) if op[0] == 'u' else self.S(st, v))))
        if op in ('fptoui', 'fptosi'):
            f = z3.Function(op + str(t2.a), F64S, I_)
            e = f(v.e)
            if self.isreal(v):
                lo, hi = (-(1 << t2.a - 1), (1 << t2.a - 1) - 1) if op == 'fptosi' else (0, (1 << t2.a) - 1)
                self.check(st, z3.And(v.r > lo - 1, v.r < hi + 1), 'conversion of a double to an integer is in range')
                e = fresh('trunc'); er = z3.ToReal(e)
                st.assume(z3.And(z3.Implies(v.r >= 0, z3.And(er <= v.r, v.r < er + 1)), z3.Implies(v.r < 0, z3.And(er >= v.r, v.r > er - 1)), e >= lo, e <= hi))
                return IVal(t2.a, e, lo, hi)
            if self.reals: self.check(st, False, 'conversion of a double to an integer is in range'); 
            return self.mkint(st, t2.a, e, op == 'fptosi')
        if op in ('fpext', 'fptrunc'):
            f = z3.Function(op, F64S, F64S)
            return FVal(f(v.e))
        raise Unsupported('cast ' + op)
    def p2(self, st, k):
        if isc(k): return 1 << k if k >= 0 else 0
        e = P2(k)
        st.assume(z3.Implies(k >= 0, z3.And(e >= 1, e > k)))
        st.assume(z3.Implies(k >= 1, e == 2 * P2(k - 1)))
        st.assume(P2(z3.IntVal(0)) == 1)
        return e
    def binop(self, st, op, fl, a, b, ty, ins):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.check(st, False, 'no arithmetic on an uninitialised value', ins)
            return self.anyval(st, ty)
        if op[0] == 'f':
            f = z3.Function(op, F64S, F64S, F64S)
            if self.isreal(a, b) and (op != 'fdiv' or self.solver.entails(st, b.r != 0)) and op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                return self.rval(st, {'fadd': lambda: a.r + b.r, 'fsub': lambda: a.r - b.r, 'fmul': lambda: a.r * b.r, 'fdiv': lambda: a.r / b.r}[op]())
            if self.reals and op in ('fadd', 'fsub') and isinstance(a.r, str) and z3.is_expr(b.r): return FVal(f(a.e, b.e), a.r)
            return FVal(f(a.e, b.e))
        n = ty.a
        if n == 1:
            ca, cb = self.truth(st, a), self.truth(st, b)
            if op == 'and': return boolv(simp(zand(ca, cb)))
            if op == 'or': return boolv(simp(zor(ca, cb)))
            if op in ('xor', 'add', 'sub'):
                if isinstance(ca, bool) and isinstance(cb, bool): return boolv(ca != cb)
                if cb is True: return boolv(znot(ca))
                if ca is True: return boolv(znot(cb))
                return boolv(z3.Xor(zb(ca), zb(cb)))
        # pointer difference
        if op == 'sub' and a.ptr is not None and b.ptr is not None and isinstance(a.ptr, PVal):
            if a.ptr.o is b.ptr.o:
                d = sub(a.ptr.off, b.ptr.off)
                return IVal(n, d, *( (d, d) if isc(d) else (-(1 << 62), 1 << 62)))
            self.check(st, False, 'pointer difference within one object', ins)
            return self.fint(st, 'pdiff', n, True)
        m = 1 << n; h = m >> 1
        def bnds(v): return (v.lo, v.hi)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                x, y = self.S(st, a), self.S(st, b)
                (al, ah), (bl, bh) = self.sb(a), self.sb(b)
            else:
                x, y = a.e, b.e
                al, ah = bnds(a); bl, bh = bnds(b)
            if op == 'add':
                e = add(x, y); lo, hi = (None, None) if None in (al, bl) else (al + bl, ah + bh)
            elif op == 'sub':
                e = sub(x, y); lo, hi = (None, None) if None in (al, bl) else (al - bh, ah - bl)
            else:
                e = mul(x, y)
                if None in (al, bl): lo = hi = None
                else:
                    c = [al*bl, al*bh, ah*bl, ah*bh]; lo, hi = min(c), max(c)
                if op == 'mul' and not isc(e) and not isc(x) and not isc(y): e = simp(e)
            if 'nsw' in fl:
                if lo < -h or hi >= h:
                    if isc(e): okc = -h <= e < h
                    else: okc = z3.And(zi(e) >= -h, zi(e) < h)
                    self.check(st, okc, 'no signed overflow in %s' % op, ins)
                    lo, hi = max(lo, -h), min(hi, h - 1)
            elif isc(e): e = e % m if not (-h <= e < m) else e
            tag = None
            if op == 'sub' and isc(a.e) and a.e == 0 and b.tag and b.tag[0] == 'limbs': tag = ('neglimbs', b.tag[1])
            if lo is not None and (lo < -4*m or hi > 4*m): lo = hi = None
            return IVal(n, e, lo, hi, min(a.tz, b.tz) if op != 'mul' else 0, tag=tag)
        if op in ('udiv', 'urem'):
            x, y = self.U(st, a), self.U(st, b)
            self.check(st, zi(y) != 0 if not isc(y) else y != 0, 'no division by zero', ins)
            if isc(x) and isc(y):
                if y == 0: return self.anyval(st, ty)
                return IVal(n, x // y if op == 'udiv' else x % y)
            _, hi = self.ub(a)
            if op == 'udiv':
                return IVal(n, fdivc(x, y) if isc(y) else self.udivsym(st, x, y), 0, hi)
            r = modc(x, y) if isc(y) else simp(zi(x) - zi(y) * self.udivsym(st, x, y))
            if not isc(y) : st.assume(z3.And(r >= 0, r < zi(y)))
            return IVal(n, r, 0, min(hi, (y - 1) if isc(y) else hi))
        if op in ('sdiv', 'srem'):
            x, y = self.S(st, a), self.S(st, b)
            self.check(st, zi(y) != 0 if not isc(y) else y != 0, 'no division by zero', ins)
            if 'exact' in fl and isc(y) and y > 0:
                if not isc(x):
                    q = self.divexact(x, y)
                    if q is not None and q[1] == 0:
                        lo, hi = self.sb(a)
                        return IVal(n, q[0], lo // y, hi // y)
            if isc(x) and isc(y):
                if y == 0: return self.anyval(st, ty)
                q = abs(x) // abs(y); q = q if (x >= 0) == (y > 0) else -q
                return IVal(n, q if op == 'sdiv' else x - q*y)
            lo, hi = self.sb(a)
            if isc(y):
                ay = abs(y)
                if lo >= 0 or self.inrange(st, x, 0, m): q = fdivc(x, ay)
                else: q = z3.If(zi(x) >= 0, zi(x) / ay, -((-zi(x)) / ay))
                if y < 0: q = -q
            else:
                self.check(st, z3.Not(z3.And(zi(x) == -h, zi(y) == -1)), 'no signed overflow in division', ins)
                if self.inrange(st, x, 0, m) and self.inrange(st, y, 1, m):
                    q = self.udivsym(st, x, y)
                else:
                    ab = lambda z: z3.If(zi(z) >= 0, zi(z), -zi(z))
                    q0 = self.udivsym(st, ab(x), ab(y))
                    q = z3.If((zi(x) >= 0) == (zi(y) > 0), q0, -q0)
            if op == 'sdiv':
                mx = max(abs(lo), abs(hi))
                return IVal(n, q, -mx if lo < 0 else 0, mx)
            r = simp(zi(x) - zi(q) * zi(y))
            if isc(y): st.assume(z3.And(r > -abs(y), r < abs(y)))
            return IVal(n, r, -h if lo < 0 else 0, hi)
        if op == 'shl':
            y = self.U(st, b)
            if isc(y):
                self.check(st, y < n, 'shift amount below width', ins)
                if y >= n: return self.anyval(st, ty)
                if a.bytes and y % 8 == 0: return self.frombytes(([0]*(y // 8) + list(a.bytes))[:n // 8])
                lo, hi = (None, None) if a.lo is None else (a.lo << y, a.hi << y)
                e = mul(1 << y, a.e) if not isc(a.e) else (a.e << y)
                if isc(e): e %= m
                r = IVal(n, simp(e) if not isc(e) else e, lo, hi, a.tz + y)
                if y >= 8 and y % 8 == 0 and n % 8 == 0 and n >= 32 and not isc(e): r.bytes = ([0] * (y // 8) + list(self.bytes_of(st, a)))[:n // 8]
                return r
            self.check(st, zi(y) < n, 'shift amount below width', ins)
            e = mul(a.e, self.p2(st, y))
            if isc(a.e) and a.e == 1:
                yl, yh = self.ub(b)
                if self.inrange(st, y, 0, n):
                    st.assume(P2(y) <= (1 << (n - 1)))
                    return IVal(n, e, 1, 1 << (n-1))
            return IVal(n, e, None, None)
        if op in ('lshr', 'ashr'):
            y = self.U(st, b)
            x = self.U(st, a) if op == 'lshr' else self.S(st, a)
            lo, hi = self.ub(a) if op == 'lshr' else self.sb(a)
            if isc(y):
                self.check(st, y < n, 'shift amount below width', ins)
                if y >= n: return self.anyval(st, ty)
                if a.bytes and y % 8 == 0 and op == 'lshr':
                    bs = a.bytes[y // 8:] + [0]*(y // 8)
                    return self.frombytes(bs)
                return IVal(n, fdivc(x, 1 << y), lo >> y, hi >> y)
            self.check(st, zi(y) < n, 'shift amount below width', ins)
            d = self.p2(st, y)
            return IVal(n, self.udivsym(st, x, d) if op == 'lshr' else self.fdiv(st, x, d), min(lo, 0), max(hi, 0))
        if op in ('and', 'or', 'xor'):
            if isc(a.e) and not isc(b.e): a, b = b, a
            if n % 8 == 0 and n > 8 and (a.bytes or b.bytes):
                r = self.bytewise(op, n, a, b)
                if r is not None: return r
            x, y = self.U(st, a), self.U(st, b)
            if isc(x) and isc(y):
                return IVal(n, {'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            if isc(y):
                if op == 'xor' and y == m - 1: return IVal(n, simp(m - 1 - zi(x)), 0, m - 1)
                if op == 'or' and y == 0 or op == 'xor' and y == 0: return a
                if op == 'and' and n >= 16 and n % 8 == 0 and y & (y + 1) and all((y >> i) & 255 in (0, 255) for i in range(0, n, 8)):
                    bs = self.bytes_of(st, a)
                    return self.frombytes([b if (y >> (8*i)) & 255 else 0 for i, b in enumerate(bs)])
                if op == 'or' and a.tz and y < (1 << a.tz): return IVal(n, add(x, y), 0, m - 1)
                ae = self.andconst(x, y, self.ub(a)[1])
                if op == 'and': return IVal(n, ae, 0, min(y, self.ub(a)[1]))
                if op == 'or': return IVal(n, simp(zi(x) + y - zi(ae)), y, m - 1)
                return IVal(n, simp(zi(x) + y - 2*zi(ae)), 0, m - 1)
            (al, ah), (bl, bh) = self.ub(a), self.ub(b)
            if op in ('or', 'xor'):
                if b.tz and ah < (1 << b.tz) or a.tz and bh < (1 << a.tz):
                    return IVal(n, add(x, y), 0, m - 1, min(a.tz, b.tz))
            nb = max(ah.bit_length(), bh.bit_length())
            if nb <= 8:
                tot = 0
                for i in range(nb):
                    bi, ci = modc(fdivc(x, 1 << i), 2), modc(fdivc(y, 1 << i), 2)
                    r = {'and': zand(simp(zi(bi) == 1), simp(zi(ci) == 1)), 'or': zor(simp(zi(bi) == 1), simp(zi(ci) == 1)), 'xor': simp(zi(bi) != zi(ci))}[op]
                    tot = add(tot, ite(r, 1 << i, 0))
                return IVal(n, tot, 0, (1 << nb) - 1)
            r = BAND(zi(x), zi(y))
            st.assume(z3.And(r >= 0, r <= zi(x), r <= zi(y)))
            st.assume(r == BAND(zi(y), zi(x)))
            if op == 'and': return IVal(n, r, 0, min(ah, bh))
            if op == 'or': return IVal(n, simp(zi(x) + zi(y) - r), 0, m - 1)
            return IVal(n, simp(zi(x) + zi(y) - 2*r), 0, m - 1)
        raise Unsupported('binop ' + op)
    def udivsym(self, st, x, y):
        """floor(x / y) for symbolic y"""
        return self.fdiv(st, x, y)
    def fdiv(self, st, n, d):
        """floor(n/d); axiom instance added to the path: n = d*q + r, r between 0 and d"""
        n, d = cst(n), cst(d)
        if isc(n) and isc(d) and d != 0: return n // d
        if isc(d) and d > 0: return fdivc(n, d)
        n, d = zi(n), zi(d)
        q = FDIV(n, d)
        st.assume(z3.Implies(d > 0, z3.And(d * q <= n, n < d * q + d)))
        st.assume(z3.Implies(z3.And(d > 0, n >= 0), z3.And(q >= 0, q <= n, z3.Implies(n >= d, q >= 1))))
        st.assume(z3.Implies(d < 0, z3.And(d * q >= n, n > d * q + d)))
        return q
    def andconst(self, x, y, hi):
        if isc(x): return x & y
        tot = 0
        i = 0
        top = hi.bit_length()
        while i < max(top, 1) and (y >> i):
            if not (y >> i) & 1: i += 1; continue
            j = i
            while (y >> j) & 1: j += 1
            t = fdivc(x, 1 << i)
            if j < top: t = modc(t, 1 << (j - i))
            tot = add(tot, mul(1 << i, t))
            i = j
        return tot
    def icmp(self, st, pred, a, b, ty, ins):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.check(st, False, 'no comparison of an uninitialised value', ins)
            return boolv(fresh('undefcmp', z3.BoolSort()))
        if ty.k == 'ptr':
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return boolv(eq if pred == 'eq' else not eq)
            if a.o is b.o:
                x, y = a.off, b.off
                if pred == 'eq': return boolv(zeq(x, y))
                if pred == 'ne': return boolv(znot(zeq(x, y)))
                return boolv(cmpx({'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred], x, y))
            na, nb = a.tag, b.tag
            if a.o is None or b.o is None:
                t = a.tag if b.o is None else b.tag
                if t is not None and t[0] == 'maybenull':
                    return boolv(t[1] if pred == 'eq' else znot(t[1]))
                if pred in ('eq', 'ne'): return boolv(pred == 'ne')
            if pred in ('eq', 'ne'): return boolv(pred == 'ne')
            return boolv(fresh('ptrcmp', z3.BoolSort()))
        if a.n == 1:
            ca, cb = self.truth(st, a), self.truth(st, b)
            if pred in ('eq', 'ne'):
                if isinstance(cb, bool): r = ca if cb else znot(ca)
                elif isinstance(ca, bool): r = cb if ca else znot(cb)
                else: r = (ca == cb)
                return boolv(r if pred == 'eq' else znot(r))
        if pred in ('eq', 'ne'):
            # boolean-as-int compared with constant
            for v, w in ((a, b), (b, a)):
                if v.tag and v.tag[0] == 'bool' and isc(w.e) and w.e in (0, 1):
                    r = v.tag[1] if w.e == 1 else znot(v.tag[1])
                    return boolv(r if pred == 'eq' else znot(r))
            if a.ptr is not None and b.ptr is not None:
                return self.icmp(st, pred, a.ptr, b.ptr, PTR, ins)
            for v, w in ((a, b), (b, a)):
                if v.ptr is not None and isc(w.e) and w.e == 0: return self.icmp(st, pred, v.ptr, NULL, PTR, ins)
            m = 1 << a.n; h = m >> 1
            if self.sb(a) == (a.lo, a.hi) and self.sb(b) == (b.lo, b.hi): x, y = a.e, b.e
            elif isc(b.e) and a.lo is not None and a.lo >= -h and a.hi < h: x, y = a.e, self.S(st, b)
            elif isc(a.e) and b.lo is not None and b.lo >= -h and b.hi < h: x, y = self.S(st, a), b.e
            else: x, y = self.U(st, a), self.U(st, b)
            r = simp(zeq(x, y))
            return boolv(r if pred == 'eq' else znot(r))
        if pred[0] == 's': x, y = self.S(st, a), self.S(st, b)
        else: x, y = self.U(st, a), self.U(st, b)
        return boolv(simp(cmpx({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]], x, y)))
    # ---------------------------------------------------------------- execution
    def call(self, st, name, args, ins=None, rt=None):
        """call a function by symbol; returns list of Out (ret/throw)"""
        dem = self.mod.dem.get(name, name)
        if dem == '?': dem = name
        h = self.lookup(name, dem)
        if h is not None:
            outs = h(self, st, args, Call(name, dem, ins, rt, self))
            return outs if isinstance(outs, list) else [outs]
        f = self.mod.fns.get(name)
        if f is None:
            raise Unsupported('call to external function without contract: ' + dem)
        if len(self.stack) > 60: raise Unsupported('recursion depth: ' + dem)
        if self.stack.count(name) > 3: raise Unsupported('recursion: ' + dem)
        self.inlined.add(dem)
        return self.exec_fn(f, args, st)
    def lookup(self, name, dem):
        if name in self.exact: return self.exact[name]
        r = None
        for rx, h in self.contracts:
            if rx.match(dem) or rx.match(name):
                r = h
                break
        self.exact[name] = r
        return r
    def exec_fn(self, f, args, st):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of this function exhausted')
        regs = {}
        for (nm, ty, at), v in zip(f.params, args): regs[nm] = v
        self.stack.append(f.name)
        frame = next(_ctr)
        self.frames.append(frame)
        try:
            outs = self.run(f, f.entry, None, regs, st, None)
        finally:
            self.stack.pop(); self.frames.pop()
        res = []
        for o in outs:
            if o.kind in ('ret', 'throw'):
                # locals die
                key = ('frame', frame)
                if not self.keep_locals:
                    for ob in [ob for ob in o.st.mem if ob.owner == key]: del o.st.mem[ob]
                res.append(o)
            elif o.kind == 'stop': pass
            else: raise Unsupported('internal: outcome ' + o.kind)
        return res
    def run(self, f, block, prev, regs, st, region):
        """run from block; region = (header, body) stops at back edge / exit.
        returns Outs: ret, throw, back(st, regs), exit(st, block, prev, regs)"""
        outs = []
        work = [(block, prev, dict(regs), st, region is not None)]
        loops = f.loops()
        while work:
            blk, prv, regs, st, first = work.pop()
            # region handling
            if region is not None and not first:
                if blk == region[0]:
                    outs.append(Out('back', st, None, (prv, regs))); continue
                if blk not in region[1]:
                    outs.append(Out('exit', st, None, (blk, prv, regs))); continue
            if blk in loops and not (region is not None and first and blk == region[0]):
                # entering an inner loop
                if prv not in loops[blk]:
                    for o in self.exec_loop(f, blk, prv, regs, st):
                        if o.kind == 'exit':
                            b2, p2_, r2 = o.extra
                            work.append((b2, p2_, r2, o.st, False))
                        else: outs.append(o)
                    continue
            if self.npaths > self.max_paths: raise TooManyPaths('too many paths in ' + f.dem)
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
            self.block(f, blk, prv, regs, st, work, outs)
        return outs
    def block(self, f, blk, prv, regs, st, work, outs):
        instrs = f.blocks[blk]
        # phis in parallel
        i = 0
        newv = {}
        while i < len(instrs) and instrs[i].op == 'phi':
            ins = instrs[i]
            for v, l in ins.x:
                if l == prv:
                    newv[ins.res] = self.opv(st, regs, ins.ty, v); break
            else: raise Unsupported('phi without incoming')
            i += 1
        regs.update(newv)
        self.cont(f, blk, prv, i, regs, st, work, outs)
    def cont(self, f, blk, prv, i, regs, st, work, outs):
        instrs = f.blocks[blk]
        while True:
            ins = instrs[i]
            op = ins.op
            if op == 'alloca':
                n = 1
                if ins.x is not None:
                    n = self.opv(st, regs, ins.x[0], ins.x[1]).e
                o = Obj('%' + ins.res, mul(self.mod.sizeof(ins.ty), n), 'stack', owner=('frame', self.frames[-1]), ety=ins.ty)
                st.mem[o] = OS()
                regs[ins.res] = PVal(o, 0)
            elif op == 'load':
                regs[ins.res] = self.load(st, self.ptrop(st, regs, ins.ops[0], ins), ins.ty, ins)
            elif op == 'store':
                v = self.opv(st, regs, ins.ty, ins.ops[0])
                p = self.ptrop(st, regs, ins.ops[1], ins)
                self.store_ty(st, p, v, ins.ty, ins)
            elif op == 'gep':
                regs[ins.res] = self.gep(st, regs, ins.ty, ins.ops)
            elif op == 'bin':
                regs[ins.res] = self.binop(st, ins.x[0], ins.x[1], self.opv(st, regs, ins.ty, ins.ops[0]), self.opv(st, regs, ins.ty, ins.ops[1]), ins.ty, ins)
            elif op == 'icmp':
                regs[ins.res] = self.icmp(st, ins.x, self.opv(st, regs, ins.ty, ins.ops[0]), self.opv(st, regs, ins.ty, ins.ops[1]), ins.ty, ins)
            elif op == 'fcmp':
                a, b = self.opv(st, regs, ins.ty, ins.ops[0]), self.opv(st, regs, ins.ty, ins.ops[1])
                fn = z3.Function('fcmp_' + ins.x, F64S, F64S, z3.BoolSort())
                cc = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y, 'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}.get(ins.x[1:])
                if self.isreal(a, b) and cc: regs[ins.res] = boolv(simp(cc(a.r, b.r)))
                elif self.reals and cc and (a.r == 'ninf' and z3.is_expr(b.r) or b.r == 'ninf' and z3.is_expr(a.r)): regs[ins.res] = boolv(bool(cc(*((-1, 0) if isinstance(a.r, str) else (0, -1)))))
                else: regs[ins.res] = boolv(fn(a.e, b.e))
            elif op == 'fneg':
                a = self.opv(st, regs, ins.ty, ins.ops[0])
                regs[ins.res] = FVal(z3.Function('fneg', F64S, F64S)(a.e))
            elif op == 'cast':
                regs[ins.res] = self.cast(st, ins.x[0], self.opv(st, regs, ins.ty, ins.ops[0]), ins.ty, ins.x[1])
            elif op == 'freeze':
                regs[ins.res] = self.opv(st, regs, ins.ty, ins.ops[0])
            elif op == 'select':
                c = self.truth(st, self.opv(st, regs, INT(1), ins.ops[0]))
                a = self.opv(st, regs, ins.ty, ins.ops[1]); b = self.opv(st, regs, ins.ty, ins.ops[2])
                if isinstance(c, bool): regs[ins.res] = a if c else b
                elif isinstance(a, IVal) and isinstance(b, IVal):
                    if a.n == 1: regs[ins.res] = boolv(simp(z3.If(c, zb(self.truth(st, a)), zb(self.truth(st, b)))))
                    else:
                        lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
                        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
                        regs[ins.res] = IVal(a.n, ite(c, a.e, b.e), lo, hi)
                else:
                    st2 = st.copy()
                    if self.solver.feasible(st2, z3.Not(c)):
                        st2.assume(z3.Not(c)); r2 = dict(regs); r2[ins.res] = b
                        self.npaths += 1
                        self.cont(f, blk, prv, i + 1, r2, st2, work, outs)
                    if not self.solver.feasible(st, c): return
                    st.assume(c); regs[ins.res] = a
            elif op == 'extractvalue':
                v = self.opv(st, regs, ins.ty, ins.ops[0])
                for x in ins.x: v = v.v[x]
                regs[ins.res] = v
            elif op == 'insertvalue':
                v = self.opv(st, regs, ins.ty, ins.ops[0]); w = self.opv(st, regs, ins.x[0], ins.ops[1])
                regs[ins.res] = self.insval(v, ins.x[1], w)
            elif op == 'br':
                if len(ins.x) == 1:
                    work.append((ins.x[0], blk, regs, st, False)); return
                c = self.truth(st, self.cond(st, regs, ins.ops[0], ins))
                if isinstance(c, bool):
                    work.append((ins.x[0] if c else ins.x[1], blk, regs, st, False)); return
                tf = self.feas_at(ins, 0, st, c)
                ff = self.feas_at(ins, 1, st, z3.Not(c)) if tf else True
                if tf and ff:
                    self.npaths += 1
                    st2 = st.copy(); st2.assume(z3.Not(c)); st2.trace.append((self.where(ins), False))
                    work.append((ins.x[1], blk, dict(regs), st2, False))
                    st.assume(c); st.trace.append((self.where(ins), True))
                    work.append((ins.x[0], blk, regs, st, False))
                elif tf:
                    st.assume(c)
                    work.append((ins.x[0], blk, regs, st, False))
                else:
                    st.assume(z3.Not(c))
                    work.append((ins.x[1], blk, regs, st, False))
                return
            elif op == 'switch':
                v = self.opv(st, regs, ins.ty, ins.ops[0])
                e = self.U(st, v); m = 1 << v.n
                dflt, cs = ins.x
                if isc(e):
                    for cv, l in cs:
                        if cv % m == e:
                            work.append((l, blk, regs, st, False)); return
                    work.append((dflt, blk, regs, st, False)); return
                for cv, l in cs:
                    c = zi(e) == cv % m
                    if self.solver.feasible(st, c):
                        s2 = st.copy(); s2.assume(c); s2.trace.append((self.where(ins), cv))
                        self.npaths += 1
                        work.append((l, blk, dict(regs), s2, False))
                c = z3.And(*[zi(e) != cv % m for cv, l in cs])
                if self.solver.feasible(st, c):
                    st.assume(c); work.append((dflt, blk, regs, st, False))
                return
            elif op == 'ret':
                v = self.opv(st, regs, ins.ty, ins.ops[0]) if ins.ops else None
                outs.append(Out('ret', st, v)); return
            elif op == 'unreachable':
                if st.g.get('stopped'): return
                self.check(st, False, 'unreachable code is not reached', ins)
                return
            elif op == 'landingpad':
                regs[ins.res] = self.landing(st, regs, ins)
                if regs[ins.res] is None:
                    outs.append(Out('throw', st)); return
            elif op == 'resume':
                outs.append(Out('throw', st)); return
            elif op in ('call', 'invoke'):
                callee, args = ins.ops
                if callee[0] == 'g': name = callee[1]
                else:
                    p = self.opv(st, regs, PTR, callee)
                    if isinstance(p, FnPtr): name = p.name
                    else:
                        h = getattr(self, 'indirect_hook', None)
                        name = None
                        if h: name = h(self, st, p, ins)
                        if name is None: raise Unsupported('indirect call in ' + f.dem)
                vals = []
                for t, o, at in args:
                    v = self.opv(st, regs, t, o)
                    if at and at[0] == 'byval':
                        ob = Obj('byval', self.mod.sizeof(at[1]), 'stack', ety=at[1]); st.mem[ob] = OS()
                        self.memcpy(st, PVal(ob, 0), v, ob.size, ins)
                        v = PVal(ob, 0)
                    vals.append(v)
                res = self.call(st, name, vals, ins, ins.ty)
                normal = []
                for o in res:
                    if o.kind == 'ret': normal.append(o)
                    elif o.kind == 'throw':
                        if op == 'invoke': work.append((ins.x['unwind'], blk, dict(regs), o.st, False))
                        else: outs.append(o)
                    elif o.kind == 'stop': pass
                if op == 'invoke':
                    for o in normal:
                        r2 = dict(regs) if len(normal) > 1 else regs
                        if ins.res is not None: r2[ins.res] = o.val
                        work.append((ins.x['normal'], blk, r2, o.st, False))
                    return
                if not normal: return
                for o in normal[1:]:
                    self.npaths += 1
                    r2 = dict(regs)
                    if ins.res is not None: r2[ins.res] = o.val
                    self.cont(f, blk, prv, i + 1, r2, o.st, work, outs)
                st = normal[0].st
                if ins.res is not None: regs[ins.res] = normal[0].val
            elif op == 'nop': pass
            elif op == 'atomicrmw':
                p = self.ptrop(st, regs, ins.ops[0], ins); v = self.opv(st, regs, ins.ty, ins.ops[1])
                old = self.load(st, p, ins.ty, ins)
                nv = v if ins.x == 'xchg' else self.binop(st, ins.x, set(), old, v, ins.ty, ins)
                self.store(st, p, nv, ins); regs[ins.res] = old
            else:
                raise Unsupported('%s in %s: %s' % (op, f.dem, ins.x if op == 'unsupported' else ins.text))
            i += 1
    def feas_at(self, ins, side, st, c):
        """is the branch possible? (undecided counts as possible; after one undecided answer at a branch, little more is spent there)"""
        k = (id(ins), side)
        r, _ = self.solver.check(st.pc + [c], self.undec.get(k, 400))
        if r == z3.unknown: self.undec[k] = 40
        return r != z3.unsat
    def cond(self, st, regs, o, ins):
        v = self.opv(st, regs, INT(1), o)
        if isinstance(v, Undef):
            self.check(st, False, 'no branch on an uninitialised value', ins)
            return boolv(fresh('undefbr', z3.BoolSort()))
        return v
    def ptrop(self, st, regs, o, ins):
        p = self.opv(st, regs, PTR, o)
        if isinstance(p, Undef):
            self.check(st, False, 'no dereference of an uninitialised pointer', ins)
            return PVal(Obj('wild', None, 'opaqueobj'), 0)
        if p.o is not None and p.o.kind == 'opaqueobj' and p.o not in st.mem: st.mem[p.o] = OS()
        if p.o is not None and p.o.kind == 'limbs' and p.o not in st.mem: self.mk_limbs(st, p)
        return p
    def mk_limbs(self, st, p):
        o, k, m = p.o.owner
        val = m.val
        av = abs(val) if isc(val) else z3.If(val >= 0, val, -val)
        arr = fresh('limbs', ARR)
        os = OS(arr=arr, es=8)
        # limb 0 is all the code under contract reads
        st.assume(z3.Select(arr, 0) == zi(modc(av, 1 << 64)))
        st.mem[p.o] = os
    def store_ty(self, st, p, v, ty, ins):
        if isinstance(v, Undef):
            return
        if isinstance(v, Agg):
            t = self.mod.struct(ty) if ty.k == 'named' else ty
            for j, x in enumerate(v.v):
                if t.k == 'arr': fo, ft = j * self.mod.sizeof(t.b), t.b
                else: fo, ft = self.mod.field_off(t, j)
                self.store_ty(st, PVal(p.o, add(p.off, fo)), x, ft, ins)
            return
        if isinstance(v, IVal) and v.n == 1: v = IVal(8, v.e, 0, 1, tag=('bool', v.c) if v.c is not None and not isinstance(v.c, bool) else None)
        # sign flip through _mp_size
        if isinstance(v, IVal) and v.tag and v.tag[0] == 'neglimbs' and isc(p.off):
            c = st.mem[p.o].cells.get(p.off - 4)
            if isinstance(c, Mpz) and same(c.val, v.tag[1]):
                self.mpz_set(st, PVal(p.o, p.off - 4), simp(-zi(c.val)), ins)
                return
        self.store(st, p, v, ins)
    def insval(self, v, idx, w):
        l = list(v.v) if isinstance(v, Agg) else [UNDEF]*8
        if len(idx) == 1: l[idx[0]] = w
        else: l[idx[0]] = self.insval(l[idx[0]], idx[1:], w)
        return Agg(l)
    # ---- exceptions
    EXC_PARENT = {'St13runtime_error': 'St9exception', 'St11logic_error': 'St9exception', 'St16invalid_argument': 'St11logic_error',
        'St12out_of_range': 'St11logic_error', 'St14overflow_error': 'St13runtime_error', 'St12length_error': 'St11logic_error',
        'St12domain_error': 'St11logic_error', 'St11range_error': 'St13runtime_error', 'St9bad_alloc': 'St9exception',
        'N5boost6system12system_errorE': 'St13runtime_error'}
    def exc_is(self, t, base):
        while t:
            if t == base: return True
            t = self.EXC_PARENT.get(t)
        return False
    def landing(self, st, regs, ins):
        typ = st.exc[0]
        sel = None
        clean = False
        for k, o in ins.x:
            if k == 'cleanup': clean = True
            elif k == 'catch':
                if o[0] == 'null': sel = 1000000; break
                base = o[1][len('_ZTI'):] if o[1].startswith('_ZTI') else o[1]
                if self.exc_is(typ, base): sel = self.typeid(o[1]); break
            elif k == 'filter':
                sel = None
                clean = True
        if sel is None:
            if not clean: return None
            sel = 0
        return Agg([PVal(st.exc[1], 0), IVal(32, sel)])
    def typeid(self, sym):
        if sym not in self.typeids: self.typeids[sym] = len(self.typeids) + 1
        return self.typeids[sym]
    def throw(self, st, typ, what=None):
        o = Obj('exc', None, 'opaqueobj'); st.mem[o] = OS()
        st.exc = (typ, o, what)
        return Out('throw', st)
    # ---------------------------------------------------------------- loops
    def exec_loop(self, f, hdr, prv, regs, st):
        import loops
        return loops.exec_loop(self, f, hdr, prv, regs, st)

class Call:
    def __init__(self, name, dem, ins, rt, eng):
        self.name, self.dem, self.ins, self.rt, self.eng = name, dem, ins, rt, eng

"""Parser for textual LLVM IR (clang -O0 output of the real /repo sources).

Only what clang 18 emits at -O0 is supported; anything else raises Unsupported
(the caller reports it as 'not brought within the verifier's reach')."""
import re, subprocess

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"])*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<float>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<int>-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<sym>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    p = 0
    n = len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == '' or s[p:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: ' + s[p:p+60])
        p = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

# ---- types ---------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', 'b')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named': return '%' + self.a
        return self.k

PTR = Ty('ptr'); VOID = Ty('void'); F64 = Ty('double'); F32 = Ty('float'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]

class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'line', 'text')
    def __init__(self, op, res=None, ty=None, ops=(), x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.line = None
        self.text = None
    def __repr__(self):
        return self.text

ATTRS1 = {'noundef','nonnull','zeroext','signext','noalias','readonly','writeonly','readnone','nocapture','returned',
 'immarg','inreg','dead_on_unwind','writable','noreturn','nounwind','dead_on_return','swiftself','nest','range'}
ATTRSP = {'align','dereferenceable','dereferenceable_or_null','sret','byval','initializes','memory','elementtype','captures','range','nofpclass'}
FASTMATH = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}
LINK = {'dso_local','internal','private','linkonce_odr','linkonce','weak','weak_odr','external','available_externally','hidden',
 'protected','default','local_unnamed_addr','unnamed_addr','noundef','common','appending','thread_local','extern_weak','dllimport',
 'dso_preemptable', 'externally_initialized'}

class P:
    """token cursor"""
    def __init__(self, toks, mod, text=''):
        self.t, self.i, self.mod, self.text = toks, 0, mod, text
    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1
        return r
    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.eat(v):
            raise Unsupported('expected %r at %r in %s' % (v, self.t[self.i:self.i+5], self.text[:200]))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): t = INT(int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v == 'double': t = F64
            elif v == 'float': t = F32
            elif v in ('x86_fp80', 'half', 'fp128'): t = Ty(v)
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'token': t = Ty('token')
            else: raise Unsupported('type ' + v)
        elif k == 'local':
            t = Ty('named', v[1:].strip('"'))
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'): break
                    self.expect(',')
            t = Ty('struct', fs)
        elif v == '<':
            if self.peek()[1] == '{':
                t = self.type(); self.expect('>')
                t = Ty('struct', t.a, 'packed')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n, e)
        else:
            raise Unsupported('type token %r' % v)
        # function type: RT (args)   -- only in varargs calls
        return t
    def skip_attrs(self):
        sret = None
        while True:
            k, v = self.peek()
            if k == 'attr' : self.i += 1; continue
            if k == 'word' and v in ATTRSP:
                self.i += 1
                if self.peek()[1] == '(':
                    # balanced
                    d = 0
                    start = self.i
                    while True:
                        kk, vv = self.next()
                        if vv == '(': d += 1
                        elif vv == ')':
                            d -= 1
                            if d == 0: break
                    if v in ('sret', 'byval'):
                        sub = P(self.t[start+1:self.i-1], self.mod)
                        sret = (v, sub.type())
                elif self.peek()[0] == 'int': self.i += 1
                continue
            if k == 'word' and v in ATTRS1: self.i += 1; continue
            if k == 'str':
                self.i += 1
                if self.eat('='): self.i += 1
                continue
            return sret
    def value(self, ty):
        """operand of known type -> operand tuple"""
        k, v = self.peek()
        if k == 'local': self.i += 1; return ('l', v[1:].strip('"'))
        if k == 'glob': self.i += 1; return ('g', v[1:].strip('"'))
        if k == 'int': self.i += 1; return ('c', int(v))
        if k in ('float', 'hex'): self.i += 1; return ('f', v)
        if k == 'str':
            self.i += 1
            return ('bytes', cstr(v))
        if k == 'word':
            if v == 'true': self.i += 1; return ('c', 1)
            if v == 'false': self.i += 1; return ('c', 0)
            if v == 'null': self.i += 1; return ('null',)
            if v in ('undef', 'poison'): self.i += 1; return ('undef',)
            if v == 'zeroinitializer': self.i += 1; return ('zero',)
            if v == 'none': self.i += 1; return ('undef',)
            if v in ('getelementptr',):
                self.i += 1
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    w = self.next()[1]
                    if w == 'inrange' and self.peek()[1] == '(':
                        while self.next()[1] != ')': pass
                self.expect('(')
                bt = self.type(); self.expect(',')
                ops = []
                while True:
                    while self.peek()[1] == 'inrange': self.i += 1
                    t = self.type(); ops.append((t, self.value(t)))
                    if self.eat(')'): break
                    self.expect(',')
                return ('gep', bt, ops)
            if v in ('bitcast','inttoptr','ptrtoint','trunc','zext','sext','addrspacecast'):
                self.i += 1
                self.expect('(')
                t = self.type(); o = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('cast', v, t, o, t2)
            if v in ('sub', 'add'):
                self.i += 1
                while self.peek()[1] in ('nsw','nuw'): self.i += 1
                self.expect('(')
                t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('binc', v, t, a, b)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi', 'asm'):
                raise Unsupported('const ' + v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            self.i += 1
            if v == '<' and self.peek()[1] == '{':
                self.i += 1
                close2 = '}'
            else: close2 = None
            items = []
            if not self.eat(close2 or close):
                while True:
                    t = self.type(); items.append((t, self.value(t)))
                    if self.eat(close2 or close): break
                    self.expect(',')
            if close2: self.expect(close)
            return ('agg', items)
        raise Unsupported('value %r in %s' % (self.peek(), self.text[:160]))

def cstr(v):
    v = v[2:-1] if v.startswith('c"') else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(v[i])); i += 1
    return bytes(out)

BINOPS = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS = {'trunc','zext','sext','bitcast','ptrtoint','inttoptr','fptoui','fptosi','uitofp','sitofp','fpext','fptrunc','addrspacecast'}

class Fn:
    def __init__(self, name, dem, ret, params, mod):
        self.name, self.dem, self.ret, self.params, self.mod = name, dem, ret, params, mod
        self.sret = None
        self.body_lines = None
        self._blocks = None
        self.subprogram = None
    @property
    def entry(self):
        self.blocks; return self._entry
    @property
    def blocks(self):
        if self._blocks is None:
            self.parse_body()
        return self._blocks
    def parse_body(self):
        mod = self.mod
        blocks = {}
        order = []
        cur = None
        lines = self.body_lines
        i = 0
        nparams = 0
        if not re.match(r'^[-a-zA-Z$._0-9"]+:', lines[0]) :
            # unnamed entry
            cur = 'entry0'
            blocks[cur] = []; order.append(cur)
        self.dbgvars = {}
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip(): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []; order.append(cur)
                continue
            if '@llvm.dbg.declare' in ln:
                mm = re.search(r'metadata ptr %("[^"]*"|[-a-zA-Z$._0-9]+), metadata !(\d+)', ln)
                if mm: self.dbgvars[mm.group(1).strip('"')] = int(mm.group(2))
                continue
            if '@llvm.dbg.' in ln or ln.startswith('; ') or ln.lstrip().startswith('#dbg_'): continue
            s = ln
            # continuation lines
            st = s.strip()
            if ' landingpad ' in s or st.startswith('landingpad'):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            elif re.match(r'(%\S+ = )?invoke ', st):
                while ' unwind label' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif st.startswith('switch '):
                if not st.rstrip().endswith(']') and ' ]' not in st.split('[')[-1]:
                    while True:
                        s += ' ' + lines[i].strip(); i += 1
                        if lines[i-1].strip().startswith(']'): break
            blocks[cur].append(mod.parse_instr(s))
        self._blocks = blocks
        self.order = order
        self._entry = order[0]
        self.demote()
    def demote(self):
        """phi nodes of loop headers become stack cells (written on each edge, read at the header), so that loops carry their state in memory only"""
        hd = [h for h in self.loops() if self._blocks[h] and self._blocks[h][0].op == 'phi'] if any(b and b[0].op == 'phi' for b in self._blocks.values()) else []
        for h in hd:
            ph = [i for i in self._blocks[h] if i.op == 'phi']
            al = []
            for i in ph:
                a = Instr('alloca', i.res + '.phi', i.ty); a.text = 'alloca for ' + str(i.text); a.line = i.line; al.append(a)
            preds = {}
            for i in ph:
                for v, l in i.x: preds.setdefault(l, []).append((i, v))
            for l, vs in preds.items():
                t = self._blocks[l][-1]
                stores = []
                for i, v in vs:
                    if v[0] == 'undef': continue
                    w = Instr('store', None, i.ty, [v, ('l', i.res + '.phi')]); w.text = 'store for ' + str(i.text); w.line = i.line; stores.append(w)
                if t.op == 'br' and len(t.x) == 1:
                    self._blocks[l][-1:-1] = stores; continue
                n = '%s.from.%s' % (h, l)
                if t.op == 'br': t.x = [n if b == h else b for b in t.x]
                elif t.op == 'switch': t.x = (n if t.x[0] == h else t.x[0], [(c, n if b == h else b) for c, b in t.x[1]])
                elif t.op == 'invoke': t.x = {k: n if b == h else b for k, b in t.x.items()}
                else: raise Unsupported('edge to a loop header from ' + t.op)
                br = Instr('br', x=[h]); br.text = 'br'; br.line = t.line
                self._blocks[n] = stores + [br]; self.order.append(n)
            loads = []
            for i in ph:
                w = Instr('load', i.res, i.ty, [('l', i.res + '.phi')]); w.text = str(i.text); w.line = i.line; loads.append(w)
            self._blocks[h][:len(ph)] = loads
            self._blocks[self._entry][:0] = al
        self._loops = None
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br': return list(t.x)
        if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke': return [t.x['normal'], t.x['unwind']]
        return []
    _loops = None
    def loops(self):
        """natural loops: header -> set(blocks)"""
        if self._loops is not None: return self._loops
        self.blocks
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b): preds[s].append(b)
        # reachable, RPO
        seen = set(); post = []
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succs(s)))); break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in num and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in preds[x] if p in num)
        self._loops = loops
        self.rponum = num
        return loops

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decls = {}
        self.meta = {}
        self._sz = {}
        self.load(path)
    def load(self, path):
        txt = open(path).read().split('\n')
        i = 0
        defs = []
        self.gtext = {}
        names = []
        while i < len(txt):
            ln = txt[i]
            if ln.startswith('define '):
                j = i + 1
                while txt[j] != '}': j += 1
                defs.append((ln, txt[i+1:j]))
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1).strip('"')
                self.decls[nm] = ln
                names.append(nm)
            elif ln.startswith('%') and ' = type ' in ln:
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                self.types[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.gtext[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m: self.meta[int(m.group(1))] = m.group(2)
            i += 1
        for ln, body in defs:
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            names.append(m.group(1).strip('"'))
        dem = demangle(names)
        self.dem = dict(zip(names, dem))
        for ln, body in defs:
            f = self.parse_define(ln)
            f.body_lines = body
            self.fns[f.name] = f
        self.bydem = {}
        for n, d in self.dem.items():
            self.bydem.setdefault(d, n)
    def resolve_types(self, name):
        t = self.types[name]
        if isinstance(t, str):
            if t == 'opaque':
                t = Ty('struct', [])
            else:
                t = P(tokenize(t), self).type()
            self.types[name] = t
        return t
    def parse_define(self, ln):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        head = ln[len('define '):m.start()]
        p = P(tokenize(head), self, head)
        while True:
            k, v = p.peek()
            if k == 'word' and (v in LINK or v in ATTRS1): p.i += 1
            elif k == 'word' and v in ATTRSP: p.skip_attrs()
            else: break
        ret = p.type()
        # params: find the matching close paren
        s = ln[m.end():]
        d = 1; e = 0; q = False
        while d:
            c = s[e]
            if c == '"': q = not q
            if not q:
                if c == '(': d += 1
                elif c == ')': d -= 1
            e += 1
        ps = s[:e-1]
        rest = s[e:]
        p = P(tokenize(ps), self, ps)
        params = []
        sret = None
        n = 0
        while p.peek()[0]:
            if p.peek()[0] == 'dots': break
            t = p.type()
            a = p.skip_attrs()
            k, v = p.peek()
            if k == 'local':
                p.i += 1
                nm = v[1:].strip('"')
            else:
                nm = str(n)
            if a and a[0] == 'sret': sret = nm
            params.append((nm, t, a))
            n += 1
            p.eat(',')
        f = Fn(name, self.dem[name], ret, params, self)
        f.sret = sret
        mm = re.search(r'!dbg !(\d+)', rest)
        if mm: f.subprogram = int(mm.group(1))
        return f
    # ---- sizes
    def sizeof(self, t):
        return self.layout(t)[0]
    def alignof(self, t):
        return self.layout(t)[1]
    def layout(self, t):
        k = t.k
        if k == 'int':
            n = max(1, (t.a + 7) // 8)
            s = 1
            while s < n: s *= 2
            return (s, min(s, 16))
        if k == 'ptr': return (8, 8)
        if k == 'double': return (8, 8)
        if k == 'float': return (4, 4)
        if k == 'x86_fp80': return (16, 16)
        if k == 'fp128': return (16,16)
        if k == 'half': return (2,2)
        if k == 'arr':
            s, a = self.layout(t.b); return (s * t.a, a)
        if k == 'vec':
            s, a = self.layout(t.b); return (s * t.a, min(64, s*t.a))
        if k == 'named':
            if t.a in self._sz: return self._sz[t.a]
            r = self.layout(self.resolve_types(t.a))
            self._sz[t.a] = r
            return r
        if k == 'struct':
            off = 0; al = 1
            for f in t.a:
                s, a = self.layout(f)
                if t.b == 'packed': a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise Unsupported('sizeof %r' % t)
    def struct(self, t):
        while t.k == 'named': t = self.resolve_types(t.a)
        return t
    def field_off(self, t, i):
        t = self.struct(t)
        off = 0
        for j, f in enumerate(t.a):
            s, a = self.layout(f)
            if t.b == 'packed': a = 1
            off = (off + a - 1) // a * a
            if j == i: return off, f
            off += s
        raise Unsupported('field')
    # ---- instruction
    def parse_instr(self, s):
        text = s.strip()
        line = None
        m = re.search(r', !dbg !(\d+)', text)
        if m: line = int(m.group(1))
        body = re.sub(r'(, ![-a-zA-Z_.]+ !\d+)+$', '', text)
        body = re.sub(r', !(?:dbg|llvm\.loop|srcloc|nosanitize|prof|heapallocsite|tbaa) ![0-9]+', '', body)
        body = re.sub(r' ; .*$', '', body)
        try:
            ins = self._parse(body)
        except Unsupported as e:
            ins = Instr('unsupported', x=str(e) + ' :: ' + body)
            mm = re.match(r'(%\S+) = ', body)
            if mm: ins.res = mm.group(1)[1:]
        ins.line = line
        ins.text = body
        return ins
    def _parse(self, s):
        p = P(tokenize(s), self, s)
        res = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            res = p.next()[1][1:].strip('"'); p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'): k, op = p.next()
        if op == 'alloca':
            t = p.type()
            n = None
            if p.eat(','):
                if p.peek()[1] != 'align':
                    nt = p.type(); n = (nt, p.value(nt))
            return Instr('alloca', res, t, x=n)
        if op == 'load':
            at = False
            while p.peek()[1] in ('atomic', 'volatile'): p.next()
            t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
            return Instr('load', res, t, [v])
        if op == 'store':
            while p.peek()[1] in ('atomic', 'volatile'): p.next()
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); q = p.value(pt)
            return Instr('store', None, t, [v, q])
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); p.expect(','); ops = []
            while True:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.eat(','): break
            return Instr('gep', res, bt, ops)
        if op in BINOPS:
            fl = set()
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek()[1] in FASTMATH: fl.add(p.next()[1])
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr('bin', res, t, [a, b], (op, fl))
        if op == 'fneg':
            while p.peek()[1] in FASTMATH: p.next()
            t = p.type(); return Instr('fneg', res, t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in FASTMATH: p.next()
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr(op, res, t, [a, b], pred)
        if op in CASTS:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Instr('cast', res, t, [a], (op, t2))
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1][1:].strip('"'); p.expect(']')
                inc.append((v, l))
                if not p.eat(','): break
            return Instr('phi', res, t, x=inc)
        if op == 'select':
            while p.peek()[1] in FASTMATH: p.next()
            ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            return Instr('select', res, t, [c, a, b])
        if op == 'br':
            t = p.type()
            if t.k == 'label':
                return Instr('br', x=[p.next()[1][1:].strip('"')])
            c = p.value(t); p.expect(','); p.type(); a = p.next()[1][1:].strip('"'); p.expect(','); p.type(); b = p.next()[1][1:].strip('"')
            return Instr('br', ops=[c], x=[a, b])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.type(); d = p.next()[1][1:].strip('"'); p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.type(); cs.append((cv[1], p.next()[1][1:].strip('"')))
            return Instr('switch', None, t, [v], (d, cs))
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return Instr('ret', None, t)
            return Instr('ret', None, t, [p.value(t)])
        if op == 'unreachable': return Instr('unreachable')
        if op == 'resume':
            t = p.type(); return Instr('resume', None, t, [p.value(t)])
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return Instr('extractvalue', res, t, [v], idx)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return Instr('insertvalue', res, t, [v, v2], (t2, idx))
        if op == 'freeze':
            t = p.type(); return Instr('freeze', res, t, [p.value(t)])
        if op == 'landingpad':
            t = p.type(); cl = []
            while p.peek()[0]:
                w = p.next()[1]
                if w == 'cleanup': cl.append(('cleanup', None))
                elif w == 'catch':
                    tt = p.type(); cl.append(('catch', p.value(tt)))
                elif w == 'filter':
                    tt = p.type(); cl.append(('filter', p.value(tt)))
                else: raise Unsupported('landingpad ' + w)
            return Instr('landingpad', res, t, x=cl)
        if op == 'fence': return Instr('nop')
        if op == 'atomicrmw':
            while p.peek()[1] == 'volatile': p.next()
            o = p.next()[1]; pt = p.type(); q = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            return Instr('atomicrmw', res, t, [q, v], o)
        if op == 'cmpxchg':
            while p.peek()[1] in ('volatile', 'weak'): p.next()
            pt = p.type(); q = p.value(pt); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            return Instr('cmpxchg', res, t, [q, a, b])
        if op in ('call', 'invoke'):
            while p.peek()[0] == 'word' and (p.peek()[1] in FASTMATH or p.peek()[1] in ('fastcc','ccc')): p.next()
            p.skip_attrs()
            rt = p.type()
            if p.peek()[1] == '(':   # full function type
                d = 0
                while True:
                    kk, vv = p.next()
                    if vv == '(': d += 1
                    if vv == ')':
                        d -= 1
                        if d == 0: break
            if p.peek()[1] == 'asm':
                return Instr('asm', res, rt)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    a = p.skip_attrs()
                    if t.k == 'metadata':
                        while p.peek()[1] not in (',', ')'): p.next()
                        args.append((t, ('undef',), None))
                    else:
                        args.append((t, p.value(t), a))
                    if p.eat(')'): break
                    p.expect(',')
            x = {}
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.next(); p.type(); x['normal'] = p.next()[1][1:].strip('"'); p.expect('unwind'); p.type(); x['unwind'] = p.next()[1][1:].strip('"')
            return Instr(op, res, rt, [callee, args], x)
        raise Unsupported('instruction ' + str(op))
    # ---- debug info
    def srcline(self, mid):
        if mid is None: return None
        m = self.meta.get(mid, '')
        r = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: !(\d+)', m)
        f = None
        hop = 0
        while sc and hop < 30:
            hop += 1
            mm = self.meta.get(int(sc.group(1)), '')
            fm = re.search(r'file: !(\d+)', mm)
            if fm:
                f = re.search(r'filename: "([^"]*)"', self.meta.get(int(fm.group(1)), ''))
                f = f.group(1) if f else None
                break
            sc = re.search(r'scope: !(\d+)', mm)
        return (f, int(r.group(1)) if r else None)
    def members(self, cls):
        """member name -> byte offset for a class, base classes included (from the debug information)"""
        if not hasattr(self, '_lay'): self._lay = {}
        if cls in self._lay: return self._lay[cls]
        r = {}
        def walk(mid, base):
            d = self.meta.get(mid, '')
            em = re.search(r'elements: !(\d+)', d)
            if not em: return
            for x in re.findall(r'!(\d+)', self.meta.get(int(em.group(1)), '')):
                m = self.meta.get(int(x), '')
                off = re.search(r'offset: (\d+)', m); off = int(off.group(1)) // 8 if off else 0
                if 'DW_TAG_inheritance' in m:
                    walk(int(re.search(r'baseType: !(\d+)', m).group(1)), base + off)
                elif 'DW_TAG_member' in m and 'DIFlagStaticMember' not in m:
                    nm = re.search(r'name: "([^"]*)"', m)
                    if nm: r[nm.group(1)] = base + off
        size = None
        for mid, d in self.meta.items():
            if 'DICompositeType' in d and re.search(r'name: "%s"' % re.escape(cls), d) and 'elements:' in d:
                walk(mid, 0); size = int(re.search(r'size: (\d+)', d).group(1)) // 8; break
        if size is None: raise Unsupported('no class ' + cls)
        r[''] = size
        self._lay[cls] = r
        return r
    def var_signed(self, mid):
        """DILocalVariable id -> (name, True/False/None signedness)"""
        m = self.meta.get(mid, '')
        nm = re.search(r'name: "([^"]*)"', m)
        t = re.search(r'type: !(\d+)', m)
        sg = None
        hop = 0
        while t and hop < 20:
            hop += 1
            d = self.meta.get(int(t.group(1)), '')
            if 'DIBasicType' in d:
                enc = re.search(r'encoding: (\w+)', d)
                if enc:
                    sg = enc.group(1) in ('DW_ATE_signed', 'DW_ATE_signed_char')
                break
            if 'DW_TAG_typedef' in d or 'DW_TAG_const_type' in d or 'DW_TAG_volatile_type' in d:
                t = re.search(r'baseType: !(\d+)', d)
            else: break
        return (nm.group(1) if nm else None, sg)

def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return r.stdout.rstrip('\n').split('\n')

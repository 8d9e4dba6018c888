"""Driver: lowers a translation unit of /repo to LLVM IR with clang, parses it, and runs
verification tasks (functions under contract) on it."""
import os, sys, subprocess, time, tempfile, re, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ir, eng as E, lib_gmp, lib_std, forms
from eng import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEFS = ['-DCHIAVDF_VERSION="dev"', '-DVDF_MODE=0', '-DNDEBUG', '-DFAST_MACHINE=1']

class BuildError(Exception): pass
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf.')
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

_mods = {}
def lower(tu, lang='c++', extra=()):
    """IR module of /verif/tu/<tu> (a file that only #includes /repo sources)"""
    key = (tu,) + tuple(extra)
    if key in _mods: return _mods[key]
    src = os.path.join(VERIF, 'tu', tu)
    out = os.path.join(scratch(), re.sub(r'\W', '_', tu) + '_%d.ll' % len(_mods))
    cc = ['clang++', '-std=c++17'] if tu.endswith('.cpp') else ['clang', '-std=gnu11']
    cmd = cc + ['-O0', '-g', '-S', '-emit-llvm', '-fno-discard-value-names', '-w', '-Xclang', '-disable-O0-optnone'] + DEFS + list(extra) + ['-I' + REPO + '/src', '-I' + REPO + '/src/c_bindings', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode != 0: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])
    m = ir.Module(out)
    _mods[key] = m
    os.unlink(out)
    return m

def lower_rust(path):
    """IR module of a Rust source file of /repo; the generated C declarations come from tu/rust/bindings.rs and the empty crate link_cplusplus"""
    if path in _mods: return _mods[path]
    d = scratch()
    open(os.path.join(d, 'lc.rs'), 'w').write('')
    out = os.path.join(d, 'rs.ll')
    rc = shutil.which('rustc') or '/root/.cargo/bin/rustc'
    env = dict(os.environ, OUT_DIR=os.path.join(VERIF, 'tu', 'rust'))
    for cmd in ([rc, '--crate-type', 'rlib', '--crate-name', 'link_cplusplus', os.path.join(d, 'lc.rs'), '-o', os.path.join(d, 'liblink_cplusplus.rlib')],
                [rc, '--crate-type', 'rlib', '--crate-name', 'chiavdf', '--emit=llvm-ir', '-A', 'warnings', '-C', 'opt-level=0', '-C', 'debuginfo=1', '-C', 'debug-assertions=off', '-C', 'overflow-checks=off', '-L', d, os.path.join(REPO, path), '-o', out]):
        try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=300, env=env)
        except OSError as x: raise BuildError('rustc: %s' % x)
        if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-2000:])
    m = _mods[path] = ir.Module(out)
    return m

class Task:
    """one function under contract"""
    def __init__(self, name, run, tier='quick', budget=240):
        self.name, self.run, self.tier, self.budget = name, run, tier, budget

class Result:
    def __init__(self, name):
        self.name = name; self.obls = []; self.error = None; self.t = 0.0
        self.contracts = set(); self.inlined = set(); self.nq = 0; self.solver_t = 0.0; self.paths = 0; self.loops = []
        self.fn = name

def find(mod, rx):
    c = [n for n in mod.fns if re.search(rx, mod.dem.get(n, n) if mod.dem.get(n, n) != '?' else n)]
    if len(c) != 1:
        raise Unsupported('function %s: %d candidates' % (rx, len(c)))
    return mod.fns[c[0]]

SCALE = 1.0
ENGINES = []
def engine(mod, group=True, name='', timeout=10000, budget=200):
    e = Engine(mod, solver=Solver())
    ENGINES.append(e)
    budget *= SCALE; timeout = int(timeout * SCALE)
    e.goal_timeout = timeout
    e.cur = name
    e.deadline = time.time() + budget
    e.pre_contracts = []
    lib_gmp.install(e)
    if group: forms.install(e)
    lib_std.install(e)
    return e

def use(e, rx, h):
    """contract with priority over the libraries"""
    def w(en, st, a, c):
        en.used_contracts.add(c.dem.split('(')[0][:90]); return h(en, st, a, c)
    e.contracts.insert(0, (re.compile(rx), w))
    e.exact = {k: v for k, v in e.exact.items() if k.startswith('__gmp') and not re.search(rx, k)}

def run_task(task):
    r = Result(task.name)
    t = time.time()
    e = None
    try:
        e = task.run()
    except Unsupported as x:
        r.error = 'unsupported: %s' % x
        e = getattr(x, 'engine', None)
    except BuildError as x:
        r.error = 'build: %s' % x
    except z3.Z3Exception as x:
        import traceback
        r.error = 'z3: %s %s' % (x, traceback.format_exc()[-3000:])
    except Exception as x:
        import traceback
        r.error = 'internal: %r %s' % (x, traceback.format_exc()[-1500:])
    r.t = time.time() - t
    if ENGINES:
        for en in ENGINES:
            r.obls += en.obls; r.contracts |= en.used_contracts; r.inlined |= en.inlined
            r.nq += en.solver.nq; r.solver_t += en.solver.t; r.paths += en.npaths; r.loops += en.loop_log
    return r

# ---- helpers for specs
def mpz_arg(st, name, val):
    o = Obj(name, 16, 'arg'); st.mem[o] = OS()
    return PVal(o, 0), o
def arg_mpz(e, st, name, val):
    o = Obj(name, 16, 'arg'); st.mem[o] = OS()
    p = PVal(o, 0); e.mpz_new(st, p, val); return p
def arg_form(e, st, name, fv):
    o = Obj(name, 48, 'arg'); st.mem[o] = OS()
    p = PVal(o, 0); e.put(st, p, fv, 48); return p
def arg_buf(e, st, name, n, es=1):
    o = e.newbuf(st, name, es, n, arr=z3.Array(name + '_in', I_, I_)); return PVal(o, 0)
def arg_vec(e, st, name, es, ln, arr=None, kind='int'):
    o = Obj(name, 24, 'arg'); st.mem[o] = OS()
    p = PVal(o, 0); e.put(st, p, Vec(es, ln, arr if arr is not None else z3.Array(name + '_in', I_, I_), kind=kind)); return p
def sret(st, name, n):
    o = Obj(name, n, 'sret'); st.mem[o] = OS(); return PVal(o, 0)
def u(st, name, n=64):
    e = z3.Int(name); st.assume(z3.And(e >= 0, e < (1 << n))); return e
def ival(n, e, lo=0, hi=None):
    return IVal(n, e, lo, hi if hi is not None else (1 << n) - 1)

def cover(e, outs, kinds, name):
    """vacuity guard: the contract's cases are reachable"""
    for lab, pred in kinds:
        ok = False; unk = False
        for o in outs:
            c = pred(o)
            if c is False or c is None: continue
            r, _ = e.solver.check(o.st.pc + ([c] if c is not True else []), 4000)
            if r == z3.sat: ok = True; break
            if r == z3.unknown: unk = True
        e.obls.append(Oblig(e.cur, 'vacuity: %s is reachable under the precondition' % lab, '', ok or unk, 'z3' if ok else 'z3 (not refuted)', 0.0))

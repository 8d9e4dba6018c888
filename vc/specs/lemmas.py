"""Arithmetic lemmas stated and proved in Lean (lemmas/*.lean); the specifications use them as axioms."""
import os, re, subprocess, time
import vf
from eng import Oblig
class _S: nq = 0; t = 0.0
class _E:
    def __init__(self): self.obls = []; self.used_contracts = set(); self.inlined = set(); self.solver = _S(); self.npaths = 0; self.loop_log = []
def t_lean(fn):
    e = _E(); vf.ENGINES.append(e)
    src = open(os.path.join(vf.VERIF, 'lemmas', fn)).read()
    names = re.findall(r'^theorem (\w+)', src, re.M)
    t = time.time()
    f = os.path.join(vf.scratch(), fn)
    open(f, 'w').write(src + ''.join('\n#print axioms %s' % n for n in names) + '\n')
    r = subprocess.run(['lean', f], capture_output=True, text=True, timeout=260)
    dt = (time.time() - t) / max(1, len(names))
    for n in names:
        m = re.search(r"'%s' (?:depends on axioms: \[(.*?)\]|does not depend)" % n, r.stdout, re.S)
        ok = r.returncode == 0 and m is not None and set(x.strip() for x in (m.group(1) or '').split(',') if x.strip()) <= {'propext', 'Classical.choice', 'Quot.sound'}
        if not ok: raise vf.Unsupported('lemma not checked by lean: ' + (r.stdout + r.stderr)[-300:])
        e.obls.append(Oblig(fn, 'lemma ' + n, fn, ok, 'lean', dt, r.stdout[-500:] if not ok else ''))
    return e

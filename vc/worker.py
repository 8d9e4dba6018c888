"""Runs one verification task in its own process and prints the result as JSON."""
import sys, json, importlib, time, os, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] != 'lemmas': resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
sys.setrecursionlimit(20000)
import vf
def main():
    spec, fn, args, scale = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), float(sys.argv[4])
    vf.SCALE = scale
    def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x
    m = importlib.import_module('specs.' + spec)
    r = vf.run_task(vf.Task(fn, lambda: getattr(m, fn)(*tup(args))))
    def kind(o):
        if o.ok: return 'discharged'
        return 'counter-model' if o.model is not None else 'undecided'
    def model(o):
        if o.ok or o.model is None: return ''
        try: return ', '.join('%s=%s' % (d.name(), str(o.model[d])[:120]) for d in list(o.model.decls())[:60] if d.arity() == 0)
        except Exception as x: return repr(x)
    out = dict(error=r.error, t=r.t, paths=r.paths, queries=r.nq, solver_t=r.solver_t, contracts=sorted(r.contracts), inlined=sorted(r.inlined), loops=[list(map(str, l)) for l in r.loops],
               obls=[dict(fn=o.fn, name=o.name, where=o.where, kind=kind(o), backend=o.backend, t=round(o.time, 3), detail=(o.detail or '')[:1500] if not o.ok else '', model=model(o)[:3000], path=[str(p) for p in (o.path or [])][-40:] if not o.ok else []) for o in r.obls])
    sys.stdout.write('\nRESULT ' + json.dumps(out) + '\n')
main()

#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree. Exit 0 or 1 (with a VIOLATION line)."""
import os, sys, json, time, subprocess, threading, tempfile, shutil, hashlib, re
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props as P
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = 'python3-vt'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:detect_leaks=0:allocator_may_return_null=1', VERIF_REPO=REPO)
T0 = time.time()
HARD = 800 if TIER == 'quick' else 3000          # nothing is started after this many seconds

def run_task(t, scale=1.0, limit=None):
    spec, fn, args = t[:3]
    limit = limit or 280 * scale
    t0 = time.time()
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'vc', 'worker.py'), spec, fn, json.dumps(args), str(scale)], capture_output=True, text=True, timeout=limit, env=ENV, cwd=HERE)
        for l in p.stdout.splitlines()[::-1]:
            if l.startswith('RESULT '): r = json.loads(l[7:]); break
        else: r = dict(error='internal: worker ended with %d: %s' % (p.returncode, p.stderr[-400:]), obls=[])
    except subprocess.TimeoutExpired:
        r = dict(error='time budget of %.0f s exhausted' % limit, obls=[])
    r.setdefault('t', time.time() - t0)
    r['task'] = '%s.%s%s' % (spec, fn, json.dumps(args) if args else '')
    return r

def build_py(d, src):
    base = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fPIC', '-shared', '-DNDEBUG', '-DVDF_MODE=0', '-DFAST_MACHINE=1', '-DCHIAVDF_VERSION="dev"', '-I' + REPO + '/src', '-I/usr/include/python3.12', '-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include', '-fvisibility=hidden']
    tail = [d + '/lzcnt_pic.o', '-lgmpxx', '-lgmp', '-lpthread']
    subprocess.run(['gcc', '-O1', '-fPIC', '-c', REPO + '/src/refcode/lzcnt.c', '-o', d + '/lzcnt_pic.o'], capture_output=True)
    ps = [subprocess.Popen(base + c + tail, stderr=subprocess.PIPE, text=True) for c in
          (['-DPYBIND11_ASSERT_GIL_HELD_INCREF_DECREF', os.path.join(HERE, 'tu', 'py.cpp'), '-o', d + '/_chiavdf.so'], ['-fvisibility=default', os.path.join(HERE, 'replay', 'pylib.cpp'), '-o', d + '/pylib.so'])]
    for p in ps:
        err = p.communicate(timeout=400)[1]
        if p.returncode: return None, err[-1500:]
    return ['/usr/bin/python3', os.path.join(HERE, 'replay', src), d], ''

def build_asm(d):
    """the assembly the production build generates and links"""
    w = os.path.join(d, 'asm'); os.makedirs(w, exist_ok=True)
    cmds = [['clang++', '-std=c++17', '-O0', '-w', '-DVDF_MODE=0', '-DCHIAVDF_VERSION="dev"', '-I' + REPO + '/src', REPO + '/src/compile_asm.cpp', '-lgmpxx', '-lgmp', '-lpthread', '-o', w + '/compile_asm']]
    cmds += [[w + '/compile_asm'] + a for a in ([], ['avx2'], ['avx512'])]; objs = []
    for n in ('asm_compiled', 'avx2_asm_compiled', 'avx512_asm_compiled'): objs.append('%s/%s.o' % (w, n)); cmds.append(['gcc', '-c', '%s/%s.s' % (w, n), '-o', objs[-1]])
    for c in cmds:
        p = subprocess.run(c, capture_output=True, text=True, timeout=400, cwd=w)
        if p.returncode: return None, '%s: %s' % (c[0], p.stderr[-1000:])
    return objs, ''

def build_harness(d, h):
    src, mode, flags = h['src'], h['mode'], h.get('flags', [])
    if src.endswith('.py'): return build_py(d, src)
    if h.get('asm'):
        objs, err = build_asm(d)
        if objs is None: return None, err
        flags = flags + objs
    out = os.path.join(d, mode + '_' + hashlib.md5(repr((src, flags)).encode()).hexdigest()[:6])
    cmd = ['clang++', '-std=c++17', '-O1', '-g1', '-w'] + h.get('san', ['-fsanitize=address']) + ['-DNDEBUG', '-DVDF_MODE=0', '-DFAST_MACHINE=1', '-DCHIAVDF_VERSION="dev"',
           '-I' + REPO + '/src', '-I' + REPO + '/src/c_bindings', '-I' + HERE + '/replay', '-D' + mode] + flags + [os.path.join(HERE, 'replay', src), d + '/lzcnt.o'] + [s.replace('@REPO@', REPO) for s in h.get('extra', [])] + ['-lgmpxx', '-lgmp', '-lpthread', '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
    return (out, '') if p.returncode == 0 else (None, p.stderr[-1500:])

def run_harness(b, h, seed, secs):
    try:
        d = tempfile.mkdtemp(prefix='rp.')
        p = subprocess.run((b if isinstance(b, list) else [b]) + [str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 400, env=ENV, cwd=d)
        out = p.stdout.decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = 'timeout', 98
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r = dict(rc=rc, mode=h['mode'], seed=seed, cases=0, distinct=0, samples=[], fail=None, out=out[-3000:])
    for l in out.splitlines():
        if l.startswith('CASES '): r['cases'] = int(l[6:])
        if l.startswith('DISTINCT '): r['distinct'] = int(l[9:])
        if l.startswith('SAMPLE '): r['samples'].append(l[7:])
    if rc == 3:
        i = out.find('FAIL ')
        r['fail'] = out[max(0, i):][:12000]
        r['input'] = next((l[6:] for l in r['fail'].splitlines() if l.startswith('INPUT ')), '')
    elif rc != 0: r['error'] = 'harness ended with %s: %s' % (rc, out[-300:])
    return r

def known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    return [k for k in json.load(open(f)) if k['property'] == pid and k['status'] == 'finding'] if os.path.exists(f) else []

def main():
    pid = sys.argv[1]
    p = P.PROPS[pid]
    tasks = list(p['tasks']) + (list(p.get('thorough_tasks', [])) if TIER == 'thorough' else [])
    secs = p.get('secs', 25) * (1 if TIER == 'quick' else 8)
    ncpu = os.cpu_count() or 4
    scratch = tempfile.mkdtemp(prefix='vc.')
    results, harn, herr = [], [], []
    try:
        subprocess.run(['gcc', '-O1', '-c', REPO + '/src/refcode/lzcnt.c', '-o', scratch + '/lzcnt.o'], capture_output=True)
        with ThreadPoolExecutor(ncpu) as ex:
            bf = {ex.submit(build_harness, scratch, h): h for h in p.get('replay', [])}
            tf = [ex.submit(run_task, t) for t in sorted(tasks, key=lambda t: -(t[3] if len(t) > 3 else 1))]
            hf = []
            for f in as_completed(bf):
                h = bf[f]; b, err = f.result()
                if b is None: herr.append('%s does not build: %s' % (h['mode'], err)); continue
                for k in range(h.get('procs', 2)): hf.append(ex.submit(run_harness, b, h, SEED * 1000 + k, secs))
            results = [f.result() for f in tf]
            harn = [f.result() for f in hf]
        # obligations the solver left undecided, and tasks that ran out of time, get a second, longer attempt
        again = [i for i, r in enumerate(results) if any(o['kind'] == 'undecided' for o in r['obls']) or 'time budget' in (r['error'] or '')]
        if again and time.time() - T0 < HARD / 2:
            tm = {r['task']: t for r, t in ((run_r, t) for run_r, t in zip(results, sorted(tasks, key=lambda t: -(t[3] if len(t) > 3 else 1))))}
            with ThreadPoolExecutor(ncpu) as ex:
                lim = max(60, HARD - (time.time() - T0))
                for i, r in zip(again, ex.map(lambda i: run_task(tm[results[i]['task']], 4.0, lim), again)): results[i] = r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    obls = [dict(o, task=r['task']) for r in results for o in r['obls']]
    bad = [o for o in obls if o['kind'] != 'discharged']
    errors = [(r['task'], r['error']) for r in results if r['error']]
    fails = [h for h in harn if h['fail']]
    herr += [h['mode'] + ': ' + h['error'] for h in harn if h.get('error')]
    proved = not bad and not errors and len(obls) > 0 and all(len(r['obls']) > 0 for r in results)
    cases, distinct = sum(h['cases'] for h in harn), sum(h['distinct'] for h in harn)
    base = {}
    for o in obls: base[o['backend']] = base.get(o['backend'], 0) + 1
    cov = dict(obligations=len(obls), discharged=len(obls) - len(bad), checker_cmd='%s vc/worker.py <spec> <task> (obligations generated from the LLVM IR clang emits for /repo\'s current source; deciding solver: z3)' % PY,
               trusted_base=P.TRUSTED + p.get('trusted', []),
               functions_under_contract=sorted({r['task'] for r in results}), functions_executed_inline=sorted({f for r in results for f in r.get('inlined', [])}),
               call_site_contracts=sorted({f for r in results for f in r.get('contracts', [])}), by_backend=base, solver_queries=sum(r.get('queries', 0) for r in results),
               solver_seconds=round(sum(r.get('solver_t', 0) for r in results), 1), paths=sum(r.get('paths', 0) for r in results), loop_invariants=[l for r in results for l in r.get('loops', [])],
               undischarged=[dict(task=o['task'], name=o['name'], where=o['where'], kind=o['kind']) for o in bad][:40], out_of_reach=errors,
               replay_harness=[dict(mode=h['mode'], seed=h['seed'], cases=h['cases'], distinct=h['distinct']) for h in harn], replay_errors=herr)
    if harn:
        cov.update(evaluations=cases, distinct_nontrivial=distinct, rule='replay cases of the real code against the independent reference (replay/oracle.h): structured random inputs and their mutations; distinct by the full text of the input', samples=[s for h in harn for s in h['samples']][:6])
        if p.get('bounded'): cov['bounded_stand_ins'] = p['bounded']
    level = 'proof' if proved and p.get('level', 'proof') == 'proof' else ('exploration' if harn else 'other')
    if level == 'other': cov['explanation'] = 'no obligation decided: ' + '; '.join('%s: %s' % e for e in errors)[:800]
    viol, lines = 0, []
    kn = known(pid)
    os.makedirs(os.path.join(HERE, 'replay_out'), exist_ok=True)
    for k in kn: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    newfails = [h for h in fails if not any(k.get('match') and re.search(k['match'], h['fail']) for k in kn)]
    newbad = [o for o in bad if not any(k.get('obligation') and re.search(k['obligation'], o['task'] + ' ' + o['name']) for k in kn)]
    path = os.path.join(HERE, 'replay_out', pid + '.txt')
    def dump():
        with open(path, 'w') as f:
            f.write('property %s\n' % pid)
            for h in newfails: f.write('\nreplayed on the real code (replay/%s, seed %d):\n%s\n' % (h['mode'], h['seed'], h['fail']))
            for o in newbad[:20]: f.write('\nobligation not discharged: %s\n  function: %s\n  at %s\n  verdict: %s (%s)\n  %s\n  counter-model: %s\n  path: %s\n' % (o['name'], o['task'], o['where'], o['kind'], o['backend'], o['detail'], o['model'], o['path']))
            for e in errors: f.write('\nout of reach: %s: %s\n' % e)
    if newfails:
        dump(); viol = 1
        for h in newfails: print('replay %s: %s\n  %s' % (h['mode'], h['fail'].splitlines()[0], h['input'][:500]))
        for o in newbad[:10]: print('undischarged: %s: %s at %s (%s)' % (o['task'], o['name'], o['where'], o['kind']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif newbad:
        dump(); viol = 1
        for o in newbad[:10]: print('undischarged: %s: %s at %s (%s) %s' % (o['task'], o['name'], o['where'], o['kind'], o['detail'][:200]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov, assumptions=P.ASSUMPTIONS + p.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=viol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %d replay cases, %.0f s%s' % (pid, len(obls), len(obls) - len(bad), len(results), cases, time.time() - T0, '' if proved else ' (NOT fully proved; bounded result)'))
    for t, e in errors: print('out of reach: %s: %s' % (t, e[:300]))
    for e in herr: print('replay: ' + e[:300])
    for l in lines: print(l)
    sys.exit(1 if viol else 0)

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except Exception as x:
        import traceback; traceback.print_exc()
        print('check could not run: %r' % x); sys.exit(2)

#!/opt/venv/bin/python
"""Run one check: run.py ID [--tier quick|thorough] [--replay FILE] [--workers N]

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Other: error of the check.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def env_for(scratch, tier):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('JAX_') or k in ('XLA_FLAGS', 'PYTHONPATH', 'PYTHONSTARTUP', 'PETSC_OPTIONS'):
            e.pop(k)
    e.update(HOME=scratch, LANG='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
             PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             JAX_PLATFORMS='cpu', JAX_ENABLE_COMPILATION_CACHE='true',
             JAX_COMPILATION_CACHE_DIR=os.path.join(scratch, 'jaxcache'),
             JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS='0', JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES='-1',
             XLA_FLAGS='--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true '
                       '--xla_cpu_multi_thread_eigen=false',
             TF_CPP_MIN_LOG_LEVEL='3', VERIF_SCRATCH=scratch, TMPDIR=scratch, VERIF_TIER=tier)
    e.setdefault('VERIF_SEED', '1')
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'verif-{a.id}-', dir='/tmp')
    try:
        return run(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def note(out):
    try:
        return json.load(open(out + '.cur'))
    except (OSError, ValueError):
        return None


def hung(proc):
    """The case on which a worker has spent far more CPU time than a case may use without being interruptible."""
    p, out, _ = proc
    cur = note(out)
    try:
        f = open(f'/proc/{p.pid}/stat').read().rsplit(')', 1)[1].split()
    except OSError:
        return None
    cpu = (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    return cur['case'] if cur and cpu - cur['cpu'] > 3 * cur['limit'] else None


def crashed(a, env, p, out, scratch):
    """A worker that died of a fault (not one that was ended from outside): the case, if a fresh process dies of it again."""
    import signal
    cur = note(out)
    if a.replay or not cur or -p.returncode not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
        return None
    path, wd = out + '.again', out + '.cwd'
    json.dump(cur['case'], open(path, 'w'))
    os.makedirs(wd, exist_ok=True)
    q = subprocess.Popen([PY, os.path.join(HERE, 'pbt', 'worker.py'), a.id, '0', '1', out + '.out', path], env=env, cwd=wd,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        q.wait(timeout=300)
    except subprocess.TimeoutExpired:
        q.kill()
        q.wait()
        return None
    return cur['case'] if q.returncode == p.returncode else None


def run(a, scratch, t0):
    env = env_for(scratch, a.tier)
    if a.only:
        env['VERIF_ONLY'] = a.only
    n = 1 if a.replay else (a.workers or min(8, os.cpu_count() or 8))
    os.makedirs(os.path.join(scratch, 'jaxcache'), exist_ok=True)
    procs = []
    for s in range(n):
        out = os.path.join(scratch, f'out{s}.json')
        wd = os.path.join(scratch, f'cwd{s}')
        os.makedirs(wd)
        log = open(os.path.join(scratch, f'log{s}.txt'), 'w')
        cmd = [PY, os.path.join(HERE, 'pbt', 'worker.py'), a.id, str(s), str(n), out] + ([os.path.abspath(a.replay)] if a.replay else [])
        procs.append((subprocess.Popen(cmd, env=env, cwd=wd, stdout=log, stderr=subprocess.STDOUT), out, log))
    limit = float(os.environ.get('VERIF_WALL_S', 780 if a.tier == 'quick' else 7200))
    results, errors, viols, late = [], [], [], []
    pending = dict(enumerate(procs))
    stop_at = None
    while pending:
        time.sleep(0.2)
        for s in list(pending):
            p, out, log = pending[s]
            if p.poll() is None:
                continue
            pending.pop(s)
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r['violation'] is not None:
                    viols.append(r['violation'])
                    if stop_at is None:
                        stop_at = time.time() + 30     # let the others finish shrinking theirs, briefly
                if r['error'] is not None:
                    errors.append(r['error'])
            else:
                tail = open(os.path.join(scratch, f'log{s}.txt'), errors='replace').read()[-3000:]
                case = crashed(a, env, p, out, scratch)
                if case is not None:
                    viols.append({'case': case, 'message': f'the process crashed (signal {-p.returncode}) twice on this case\n{tail}'})
                    stop_at = stop_at or time.time() + 30
                else:
                    errors.append(f"worker {s} ended with code {p.returncode} and no result\n{tail}")
        now = time.time()
        for s in list(pending):
            case = hung(pending[s]) if now - t0 > 60 else None
            if case is not None:
                pending[s][0].kill()
                pending[s][0].wait()
                pending.pop(s)
                viols.append({'case': case, 'message': 'the code under test did not terminate (the case used more than three times the CPU time allowed for it)'})
                stop_at = stop_at or time.time() + 30
        if pending and (now - t0 > limit or (stop_at and now > stop_at)):
            for s in pending:
                pending[s][0].kill()
                pending[s][0].wait()
                if not stop_at:
                    late.append(s)
                    if len(late) > n // 2:
                        errors.append(f"worker {s} exceeded the wall limit {limit} s")
            pending = {}
    if a.verbose:
        for s in range(n):
            sys.stderr.write(open(os.path.join(scratch, f'log{s}.txt'), errors='replace').read()[-2000:])
    # known findings are identified by pinned cases
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json'))).get('findings', [])
             if k['property'] == a.id and k['status'] == 'known']
    known_names = {k['pinned']: k for k in known}
    pinned_out = []
    for r in results:
        for name, case, msg in r.get('pinned', []):
            pinned_out.append(name)
            if msg is None:
                continue
            if name in known_names and known_names[name]['signature'] in msg:
                print(f"KNOWN-FINDING: property={a.id} {known_names[name]['what']}")
            else:
                viols.append({'case': case, 'message': f'[pinned case {name}] {msg}'})
    if a.replay:
        if viols:
            print(viols[0]['message'])
            print(f"VIOLATION property={a.id} replay={os.path.abspath(a.replay)}")
            return 1
        if errors:
            print(errors[0])
            return 2
        print('replay: no violation', results[0].get('info'))
        return 0
    sys.path.insert(0, HERE)
    meta = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in meta['checks'] if c['property'] == a.id), 'exploration')
    ev = sum(r['evaluations'] for r in results)
    nontriv = {}
    labels, samples, subs, exhausted = {}, [], {}, set()
    for r in results:
        nontriv.update(r['nontrivial'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for sname, v in r['subs'].items():
            d = subs.setdefault(sname, {})
            for k, x in v.items():
                d[k] = round(d.get(k, 0) + x, 1)
        exhausted.update(r['exhausted'])
    seen = set()
    for r in results:
        for smp in r['samples']:
            key = smp['case']['sub']
            if key in seen:
                continue
            seen.add(key)
            samples.append(smp)
    rule = ' '.join((open(os.path.join(HERE, 'checks', a.id.lower() + '.py')).read().split('RULE = """')[1].split('"""')[0]).split())
    evidence = {
        'property': a.id, 'tier': a.tier, 'seed': int(env['VERIF_SEED']), 'level': level,
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(nontriv), 'rule': rule,
                     'samples': samples[:12], 'labels': dict(sorted(labels.items())), 'sub_checks': subs,
                     'skipped': sum(r['skipped'] for r in results),
                     'time_limited': sorted(exhausted), 'unfinished_workers': len(late), 'pinned_cases': sorted(pinned_out)},
        'assumptions': ['x86-64 CPU back end of JAX in double precision', 'NumPy/SciPy and basix.make_quadrature are trusted'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(viols)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if viols:
        v = min(viols, key=lambda x: len(json.dumps(x['case'])))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{a.id}.json')
        with open(path, 'w') as f:
            json.dump({'property': a.id, 'case': v['case'], 'message': v['message'],
                       'how': f'/opt/venv/bin/python /verif/run.py {a.id} --replay {path}'}, f, indent=1)
        print(v['message'])
        print('case:', json.dumps(v['case']))
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    if errors:
        print('ERROR of the check (no verdict):')
        print(errors[0])
        return 2
    if len(nontriv) < 2:
        print('ERROR: too few non-trivial cases', evidence['coverage'])
        return 3
    print(f"{a.id}: held on {ev} cases ({len(nontriv)} distinct non-trivial) in {time.time() - t0:.1f} s"
          + (f"; time-limited: {sorted(exhausted)}" if exhausted else ''))
    for k, v in subs.items():
        print('   ', k, v)
    return 0


if __name__ == '__main__':
    sys.exit(main())

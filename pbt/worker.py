"""One shard of a check: Hypothesis drives the check's sub-properties, or one replay is run.

argv: worker.py CHECK SHARD NSHARDS OUT [REPLAY]
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import faulthandler
faulthandler.enable()

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def add_hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(VT, 'hypothesis')):
        sys.path.append(VT)      # last: numpy, jax, ... keep coming from the venv under test
        return
    import glob, zipfile
    dst = os.path.join(os.environ['VERIF_SCRATCH'], 'deps')
    for pat in ('hypothesis-*cp312*', 'sortedcontainers-*'):
        for w in glob.glob('/opt/veriftools/wheels/' + pat):
            zipfile.ZipFile(w).extractall(dst)
    sys.path.append(dst)


class StopShrinking(KeyboardInterrupt):
    pass


class CaseTimeout(Exception):
    pass


def main():
    check_id, shard, nshards, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    replay = sys.argv[5] if len(sys.argv) > 5 else None
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[shard % len(cpus)]})
    except OSError:
        pass
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    add_hypothesis()
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    from hypothesis.errors import HypothesisException, Flaky
    from pbt.core import Violation, Skip, touches_repo, REPO

    import contextlib, io, logging
    if os.environ.get('VERIF_REPO'):     # trying the checks on a scratch copy
        sys.path.insert(0, REPO)
    with contextlib.redirect_stdout(io.StringIO()):
        import jax
        jax.config.update('jax_enable_x64', True)
        try:
            import jax_fem
        except BaseException as e:
            jax_fem = None
            import_error = traceback.format_exc()
    result = {'shard': shard, 'evaluations': 0, 'nontrivial': {}, 'labels': {}, 'samples': [], 'skipped': 0,
              'violation': None, 'error': None, 'subs': {}, 'exhausted': []}

    def finish():
        with open(out + '.tmp', 'w') as f:
            json.dump(result, f)
        os.replace(out + '.tmp', out)
        sys.stdout.flush()
        os._exit(0)

    if jax_fem is None:
        result['violation'] = {'case': {'sub': 'import'}, 'message': 'the package no longer imports:\n' + import_error}
        finish()
    assert jax_fem.__file__.startswith(REPO + '/'), jax_fem.__file__
    try:
        from jax_fem import logger
        logger.setLevel(logging.ERROR)
    except Exception:
        pass
    try:
        mod = importlib.import_module('checks.' + check_id.lower())
    except Exception as e:
        if touches_repo(e.__traceback__):
            result['violation'] = {'case': {'sub': 'import'}, 'message': 'importing the code under test failed:\n' + traceback.format_exc()}
        else:
            result['error'] = traceback.format_exc()
        finish()

    cpu_limit = getattr(mod, 'CASE_CPU_S', 120)

    def on_prof(sig, frame):
        raise CaseTimeout(f"a case used more than {cpu_limit} s of CPU time")

    signal.signal(signal.SIGPROF, on_prof)

    # The pools above are sized for one core; from here on the system may move the threads (a busy core must not hold up a shard)
    jax.devices()
    try:
        for tid in os.listdir('/proc/self/task'):
            os.sched_setaffinity(int(tid), cpus)
    except OSError:
        pass

    def started(case):
        """leave a note of what is running, for the case that this process does not come back"""
        with open(out + '.cur', 'w') as f:
            json.dump({'case': case, 'cpu': sum(os.times()[:2]), 'limit': cpu_limit}, f)

    def run_case(case):
        """Judge one case. Returns info dict, raises Violation / Skip; harness errors propagate."""
        fn = mod.SUBS[case['sub']]['run']
        started(case)
        signal.setitimer(signal.ITIMER_PROF, cpu_limit)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(case)
        except (Violation, Skip):
            raise
        except CaseTimeout as e:
            if touches_repo(e.__traceback__) and getattr(mod, 'TIMEOUT_IS_VIOLATION', True):
                raise Violation(f"the code under test did not terminate: {e}")
            raise
        except Exception as e:
            if touches_repo(e.__traceback__):
                tb = ''.join(traceback.format_exception(e)[-6:])
                raise Violation(f"unexpected {type(e).__name__}: {str(e)[:500]}\n{tb}")
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    if replay:
        case = json.load(open(replay))
        case = case.get('case', case)
        try:
            info = run_case(case)
            result['evaluations'] = 1
            result['info'] = repr(info)
        except Violation as v:
            result['violation'] = {'case': case, 'message': str(v)}
        except Skip as s:
            result['skipped'] = 1
        except Exception:
            result['error'] = traceback.format_exc()
        finish()

    # known findings / pinned regression cases: shard 0 only
    result['pinned'] = []
    if hasattr(mod, 'PINNED'):
        for k, (name, case) in enumerate(mod.PINNED.items()):
            if k % nshards != shard:
                continue
            try:
                run_case(case)
                result['pinned'].append([name, case, None])
            except Violation as v:
                result['pinned'].append([name, case, str(v)])
            except Skip:
                pass
            except Exception:
                result['error'] = traceback.format_exc()
                finish()

    t_start = time.time()
    total_budget = float(os.environ.get('VERIF_BUDGET_S', 0)) or mod.BUDGET_S[tier]
    shrink_budget = 45 if tier == 'quick' else 180
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    state = {'best': None, 'msg': None, 'deadline': None}

    subs = [s for s in mod.SUBS if 'strategy' in mod.SUBS[s]]
    only = os.environ.get('VERIF_ONLY')
    if only:
        subs = [s for s in subs if s in only.split(',')]
    wsum = sum(mod.SUBS[s].get('weight', 1.) for s in subs)
    # rotate so that different shards start with different subs; the time budget is split by weight
    subs = subs[shard % len(subs):] + subs[:shard % len(subs)]
    spare = 0.
    for name in subs:
        sub = mod.SUBS[name]
        n_ex = sub['examples'][tier]
        n_here = n_ex // nshards + (1 if shard < n_ex % nshards else 0)
        n_here = int(max(0, round(n_here * scale)))
        if n_here == 0:
            continue
        t0 = time.time()
        share = total_budget * sub.get('weight', 1.) / wsum + spare
        rec = result['subs'].setdefault(name, {'evaluations': 0, 'nontrivial': 0, 'skipped': 0, 'planned': n_here})
        skip_first = [shard != 0]     # Hypothesis starts every search with the simplest case: one shard is enough for it

        def body(case):
            if skip_first[0]:
                skip_first[0] = False
                hypothesis.reject()
            if state['deadline'] is not None and time.time() > state['deadline']:
                raise StopShrinking()
            if state['best'] is None and time.time() - t0 > share:
                raise StopShrinking()   # time budget: stop generating (inconclusive, not a violation)
            case = dict(case)
            case['sub'] = name
            case = json.loads(json.dumps(case))
            try:
                info = run_case(case) or {}
            except Skip:
                rec['skipped'] += 1
                result['skipped'] += 1
                return
            except Violation as v:
                result['evaluations'] += 1
                rec['evaluations'] += 1
                if state['deadline'] is None:
                    state['deadline'] = time.time() + shrink_budget
                size = len(json.dumps(case))
                if state['best'] is None or size <= state['size']:
                    state['best'], state['msg'], state['size'] = case, str(v), size
                raise
            result['evaluations'] += 1
            rec['evaluations'] += 1
            for lab in info.get('labels', []):
                key = name + ':' + str(lab)
                result['labels'][key] = result['labels'].get(key, 0) + 1
            if info.get('nontrivial', True):
                rec['nontrivial'] += 1
                import hashlib
                h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()
                if h not in result['nontrivial']:
                    result['nontrivial'][h] = 1
                    if len([s for s in result['samples'] if s['case']['sub'] == name]) < 1:
                        result['samples'].append({'case': case, 'observed': info.get('observed', '')})

        import zlib
        sd = zlib.crc32(f"{seed}/{check_id}/{name}/{shard}".encode())
        test = hypothesis.seed(sd)(settings(
            max_examples=n_here, deadline=None, database=None, derandomize=False,
            phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck))(given(sub['strategy']())(body)))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except StopShrinking:
            if state['best'] is None:
                result['exhausted'].append(name)
        except Violation:
            pass
        except Flaky:
            if state['best'] is None:
                result['error'] = traceback.format_exc()
                finish()
            state['msg'] += '\n(did not fail on every repetition in the same process)'
        except BaseException:
            if state['best'] is None:
                result['error'] = traceback.format_exc()
                finish()
        rec['wall_s'] = round(time.time() - t0, 1)
        if state['best'] is not None:
            result['violation'] = {'case': state['best'], 'message': state['msg']}
            finish()
        spare = max(0., share - (time.time() - t0))
    finish()


if __name__ == '__main__':
    main()

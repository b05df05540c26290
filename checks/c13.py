"""C13: solver options."""
import contextlib
import copy
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close, Violation

RULE = """Sub 'forms': a uniquely solvable problem, a random meaning (tolerances, guess, line search, linear backend and its
settings) and two to four spellings of it (omitted, empty, nested, flat, explicit defaults); a recorder around bicgstab, spsolve and
the PETSc KSP reports which backend ran with what settings.  All spellings must give the same run and solution, the run must be the
one the meaning prescribes (backend, settings, number of iterations of a model Newton loop, line-search step, adjoint backend) and no
dictionary may change.  Sub 'reject': invalid requests must raise and leave the problem usable.  Sub 'methods': options of
arc-length and dynamic relaxation must reach the polish and starting solves.  Non-trivial: forms with at least two different
spellings of a meaning; every rejection; every method run."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 150
T = models.TEMPLATES
POOL = [T[0], T[2], T[3], T[6], T[8]]
BACKENDS = {'default': None, 'jax': {'jax_solver': {}}, 'jax+': {'jax_solver': {'precond': True}}, 'jax-': {'jax_solver': {'precond': False}},
            'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {}}, 'petsc:k': {'petsc_solver': {'ksp_type': 'gmres'}},
            'petsc:p': {'petsc_solver': {'pc_type': 'jacobi'}}, 'petsc:lu': {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}},
            'petsc:fg': {'petsc_solver': {'ksp_type': 'fgmres', 'pc_type': 'ilu'}}, 'custom': 'custom'}
EXPECT = {'default': ('jax', True), 'jax': ('jax', True), 'jax+': ('jax', True), 'jax-': ('jax', False), 'spsolve': ('spsolve',),
          'petsc': ('petsc', 'bcgsl', 'ilu'), 'petsc:k': ('petsc', 'gmres', 'ilu'), 'petsc:p': ('petsc', 'bcgsl', 'jacobi'),
          'petsc:lu': ('petsc', 'preonly', 'lu'), 'petsc:fg': ('petsc', 'fgmres', 'ilu'), 'custom': ('custom',)}


class Recorder:
    """Which linear solves happen, and with what settings."""

    def __init__(self):
        self.trace, self.opts = [], []

    def custom(self, A, b, x0, opts):
        from checks.c06 import custom
        self.trace.append(('custom',))
        self.opts.append((opts, onp.asarray(b), onp.asarray(x0) if x0 is not None else None))
        return custom(A, b, x0, opts)

    @contextlib.contextmanager
    def on(self):
        import jax
        import jax.scipy.sparse.linalg as jl
        import scipy.sparse.linalg as sl
        from petsc4py import PETSc
        import jax.numpy as np
        me = self
        b0, s0, K0 = jl.bicgstab, sl.spsolve, PETSc.KSP

        def bicg(A, b, *a, **k):
            M = k.get('M')
            pre = M is not None and not bool(np.allclose(M(np.ones_like(b)), 1.))
            me.trace.append(('jax', pre))
            return b0(A, b, *a, **k)

        def sps(*a, **k):
            me.trace.append(('spsolve',))
            return s0(*a, **k)

        class KSP(K0):
            def solve(self, *a, **k):
                if not getattr(self, '_seen', False):
                    me.trace.append(('petsc', self.getType(), self.pc.getType()))
                self._seen = True
                return K0.solve(self, *a, **k)
        jl.bicgstab, sl.spsolve, PETSc.KSP = bicg, sps, KSP
        try:
            yield self
        finally:
            jl.bicgstab, sl.spsolve, PETSc.KSP = b0, s0, K0


def snapshot(o):
    """a deep copy that keeps functions by identity and arrays by value"""
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snapshot(v) for v in o]
    if hasattr(o, 'shape'):
        return onp.array(o, copy=True)
    return o


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, onp.ndarray):
        return a.shape == tuple(b.shape) and onp.array_equal(a, onp.asarray(b), equal_nan=True)
    return a is b or a == b


def unchanged(opts, snap, what):
    require(same(snap, opts), "%s: the caller's options were modified: %s became %s", what, repr(snap)[:300], repr(opts)[:300])


@st.composite
def forms_st(draw):
    c = draw(models.solvable_case(templates=POOL))
    c['backend'] = draw(st.sampled_from(sorted(BACKENDS)))
    c['tol'] = draw(st.sampled_from([None, None, 1e-2, 1e-4, 1e-9]))
    c['rel_tol'] = draw(st.sampled_from([None, None, 1e-1, 1e-3, 1e-13]))
    c['guess'] = draw(st.sampled_from(['none', 'none', 'random']))
    c['ls'] = draw(st.sampled_from([None, None, False, True]))
    c['forms'] = draw(st.lists(st.sampled_from(['flat', 'explicit', 'explicit_flat', 'empty_linear', 'minimal']), min_size=1, max_size=2, unique=True))
    c['adjoint'] = draw(st.sampled_from([None, None] + sorted(BACKENDS)))
    return c


def lin_of(name, rec):
    b = BACKENDS[name]
    return {'custom_solver': rec.custom} if b == 'custom' else (None if b is None else copy.deepcopy(b))


def explicit_lin(name, rec):
    e = EXPECT[name]
    if e[0] == 'jax':
        return {'jax_solver': {'precond': e[1]}}
    if e[0] == 'petsc':
        return {'petsc_solver': {'ksp_type': e[1], 'pc_type': e[2]}}
    return lin_of(name, rec)


def check_trace(trace, backend, what):
    bad = [t for t in trace if t != EXPECT[backend]]
    require(not bad, "%s: linear solves ran as %s, requested %s", what, bad[:1], EXPECT[backend])


def run_forms(case):
    import jax
    import jax.numpy as np
    from jax_fem.solver import solver, ad_wrapper
    S = models.Setup(case)
    S.prepare_ref()
    n = int(S.offsets[-1])
    rng = onp.random.default_rng(case['seed'] + 41)
    g = rng.uniform(-1, 1, n) if case['guess'] == 'random' else None
    tol, rtol = case['tol'] or 1e-6, case['rel_tol'] or 1e-8

    def build(form, rec):
        cfg = {}
        if g is not None:
            cfg['initial_guess'] = [np.asarray(s) for s in S.unflat(g)]
        for k in ('tol', 'rel_tol'):
            if case[k] is not None:
                cfg[k] = case[k]
        if case['ls'] is not None:
            cfg['line_search_flag'] = case['ls']
        lin = lin_of(case['backend'], rec)
        if form == 'nested':
            return {'newton': {**cfg, **({'linear': lin} if lin is not None else {})}}
        if form == 'flat':
            return {**cfg, **(lin or {})}
        if form in ('explicit', 'explicit_flat'):
            cfg = {'tol': tol, 'rel_tol': rtol, 'line_search_flag': bool(case['ls']),
                   'initial_guess': [np.asarray(s) for s in S.unflat(onp.zeros(n) if g is None else g)]}
            lin = explicit_lin(case['backend'], rec)
            return {**lin, **cfg} if form == 'explicit_flat' else {'newton': {'linear': lin, **cfg}}
        if form == 'empty_linear':
            return {'newton': {'linear': lin or {}, **cfg}}
        if not cfg and lin is None:                       # minimal
            return [{}, {'newton': {}}, None][case['seed'] % 3]
        return {'newton': {**cfg, **({'linear': lin} if lin else {})}}

    # a model Newton loop with exact steps
    u = onp.zeros(n) if g is None else g.copy()
    its, r, clear = 0, models.bc_residual(S, S.unflat(u)), True
    r0 = rn = onp.linalg.norm(r)
    while rn > tol and rn / r0 > rtol and its < 25:
        clear &= rn > 1.2 * tol and rn / r0 > 1.2 * rtol
        u = u + onp.linalg.solve(models.ref_tangent(S, u), -r)
        r = models.bc_residual(S, S.unflat(u))
        rn = onp.linalg.norm(r)
        its += 1
    clear &= rn < tol / 1.2 or rn / r0 < rtol / 1.2
    exact_backend = case['backend'] in ('spsolve', 'petsc:lu', 'custom')
    first = None
    for form in ['nested'] + case['forms']:
        rec = Recorder()
        opts = build(form, rec)
        snap = snapshot(opts)
        with rec.on():
            sol = solver(S.problem, opts) if opts != {} or case['seed'] % 2 else solver(S.problem)
        what = f"{form} options {[k for k in (opts or {})]}, backend {case['backend']}"
        unchanged(opts, snap, what)
        check_trace(rec.trace, case['backend'], what)
        got = S.flat(sol)
        if first is None:
            first = (got, len(rec.trace), what)
        close(got, first[0], f"solution of {what} against {first[2]}", 1e-12, 1e-13)
        require(len(rec.trace) == first[1], "%s: %d linear solves, %d with %s", what, len(rec.trace), first[1], first[2])
        if exact_backend and not case['ls'] and clear and (rec.trace or its == 0):
            require(len(rec.trace) == its, "%s: %d Newton iterations for tol %g, rel_tol %g; the model loop needs %d", what, len(rec.trace), tol, rtol, its)
            close(got, u, f"state where the loop stops, {what}", 1e-8, 1e-9, scale=1 + onp.abs(u).max())
        if rec.opts:
            require(rec.opts[0][0].get('custom_solver') == rec.custom, "%s: the custom solver did not get its own linear options", what)
            close(rec.opts[0][1], -models.bc_residual(S, S.unflat(onp.zeros(n) if g is None else g)), f"first right-hand side, {what}", 1e-9, 1e-12)
    labels = models.case_labels(case)[:2] + ['backend=' + case['backend'], f'ls={case["ls"]}', f'tol={case["tol"]}', f'rel_tol={case["rel_tol"]}',
                                            f'model={"clear" if clear else "borderline"}'] + ['form=' + f for f in case['forms']]
    # a line search may only shorten the step
    class Stop(Exception):
        pass
    seen = []
    inc = rng.uniform(-1, 1, n) * 3

    def stepper(A, b, x0, o):
        seen.append(onp.asarray(b))
        if len(seen) == 2:
            raise Stop()
        return inc
    try:
        solver(S.problem, {'newton': {'linear': {'custom_solver': stepper}, 'tol': 0., 'rel_tol': 0., **({'line_search_flag': case['ls']} if case['ls'] is not None else {})}})
    except Stop:
        pass
    alphas = [1., .5, .25, .125] if case['ls'] else [1.]
    rs = [models.bc_residual(S, S.unflat(a * inc)) for a in alphas]
    d = [onp.abs(-seen[1] - r).max() for r in rs]
    require(min(d) <= 1e-9 * max(1., onp.abs(seen[1]).max()), "with line_search_flag=%s the step is not the increment%s", case['ls'], " or a halving of it" if case['ls'] else "")
    if case['ls']:
        require(onp.linalg.norm(seen[1]) <= onp.linalg.norm(rs[0]) * (1 + 1e-9), "the line search increased the residual")
    if case['adjoint'] and S.ivs:
        rec, rec2 = Recorder(), Recorder()
        fo, ao = build('nested', rec), lin_of(case['adjoint'], rec2) or {}
        if case['ls'] and rec.trace:
            fo.get('newton', {}).pop('line_search_flag', None)
        s1, s2 = snapshot(fo), snapshot(ao)
        fwd = ad_wrapper(S.problem, fo, ao)
        w = [rng.uniform(-1, 1, s.shape) for s in S.unflat(onp.zeros(n))]
        w = [rng.uniform(-1, 1, (len(r.points), v)) for r, v in zip(S.rms, S.vecs)]
        with rec.on():
            _, pull = jax.vjp(fwd, [np.asarray(a) for a in S.ivs])
        with rec2.on():
            pull([np.asarray(a) for a in w])
        unchanged(fo, s1, 'forward options of ad_wrapper')
        unchanged(ao, s2, 'adjoint options of ad_wrapper')
        check_trace(rec.trace, case['backend'], 'forward solve of ad_wrapper')
        check_trace(rec2.trace, case['adjoint'], 'adjoint solve of ad_wrapper')
        labels.append('adjoint=' + case['adjoint'])
    return {'nontrivial': len(case['forms']) >= 1, 'labels': labels, 'observed': f'{first[1]} linear solves, model {its}'}


# ------------------------------------------------------------------------------------------------ rejection
BAD = ['two', 'three', 'not_dict', 'no_control', 'bad_control', 'no_q', 'q_none']


@st.composite
def reject_st(draw):
    c = draw(models.solvable_case(templates=[T[0], T[6], T[3]]))
    c['bad'] = draw(st.lists(st.tuples(st.sampled_from(BAD), st.integers(0, 10**6)), min_size=3, max_size=6))
    return c


def bad_options(kind, k):
    rng = onp.random.default_rng(k)
    m = ['newton', 'arc_length', 'dynamic_relax']
    blocks = {'newton': [{}, {'tol': 1e-5}, {'linear': {'spsolve_solver': {}}}], 'arc_length': [{'control': 'displacement'}, {}], 'dynamic_relax': [{}, {'tol': 1e-5}]}
    pick = lambda l: l[int(rng.integers(len(l)))]
    if kind in ('two', 'three'):
        chosen = list(rng.permutation(m))[:2 if kind == 'two' else 3]
        o = {str(c): pick(blocks[str(c)]) for c in chosen}
        if rng.random() < .4:
            o['tol'] = 1e-5
        if rng.random() < .3:
            o['spsolve_solver'] = {}
        return o
    if kind == 'not_dict':
        return {pick(m): pick([None, 5, True, 'newton', [], [('tol', 1e-5)], 1e-6, (), lambda x: x])}
    base = {} if rng.random() < .5 else {'Delta_l': 0.1, 'return_info': True, 'linear': {'spsolve_solver': {}}}
    if kind == 'no_control':
        return {'arc_length': {**base, **({'psi': 1.} if rng.random() < .5 else {})}}
    if kind == 'bad_control':
        return {'arc_length': {**base, 'control': pick(['Displacement', 'load', '', None, 0, 'disp', 'forces', ('force',)])}}
    return {'arc_length': {**base, 'control': 'force', **({'q_vec_aux': None} if kind == 'q_none' else {})}}


def run_reject(case):
    from jax_fem.solver import solver, ad_wrapper
    S = models.Setup(case)
    S.prepare_ref()
    exact = models.ref_solve(S)
    for kind, k in case['bad']:
        opts = bad_options(kind, k)
        snap = snapshot(opts)
        ok = False
        try:
            out = solver(S.problem, opts)
        except Exception:
            ok = True
        require(ok, "invalid options %s (%s) were accepted", opts, kind)
        unchanged(opts, snap, f'rejected options {kind}')
    u = S.flat(solver(S.problem, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9, 'rel_tol': 1e-14}}))
    close(u, exact, "solution after rejected requests", 0, 1e-6)
    return {'nontrivial': True, 'labels': ['bad=' + b[0] for b in case['bad']], 'observed': f'{len(case["bad"])} rejected'}


# ------------------------------------------------------------------------------------------------ other methods
@st.composite
def methods_st(draw):
    c = draw(models.solvable_case(templates=[T[0], T[6], T[3]], mono=('sym',), min_bcs=1))
    c['center'] = True
    c['method'] = draw(st.sampled_from(['arc', 'relax']))
    c['backend'] = draw(st.sampled_from(sorted(BACKENDS)))
    c['tol'] = draw(st.sampled_from([None, 1e-4, 1e-9]))
    c['inner'] = False
    return c


def run_methods(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    S = models.Setup(case)
    S.prepare_ref()
    exact = models.ref_solve(S)
    n = int(S.offsets[-1])
    rec = Recorder()
    lin = lin_of(case['backend'], rec)
    if case['method'] == 'arc':
        b = onp.zeros(n)
        for k, v in S.dirichlet_ref().items():
            b[k] = v
        dl = 0.45 * onp.sqrt((exact**2).sum() + (b**2).sum()) + 1e-3
        cfg = {'control': 'displacement', 'Delta_l': dl, 'return_info': True, 'max_continuation_steps': 30}
        if lin is not None:
            cfg['linear'] = lin
        if case['tol']:
            cfg['newton'] = {'tol': case['tol'], 'rel_tol': 1e-15}
        marks = []
        cfg['step_callback'] = lambda s, u, lam: marks.append(len(rec.trace))
        snap = snapshot({'arc_length': cfg})
        opts = {'arc_length': cfg}
        with rec.on():
            sol, info = solver(S.problem, opts)
        unchanged(opts, snap, 'arc-length options')
        if case['inner']:
            check_trace(rec.trace[:marks[-1]], case['backend'], 'inner solves of arc-length continuation')
        polish = rec.trace[marks[-1]:]
        check_trace(polish, case['backend'], 'polish of arc-length')
        if info['polished']:
            r = onp.linalg.norm(models.bc_residual(S, S.unflat(S.flat(sol))))
            r0 = onp.linalg.norm(models.bc_residual(S, S.unflat(onp.asarray(info['history'][-1]['u']))))
            t = case['tol'] or max(1e-6, 1e-8 * r0)
            require(r <= t * 1.001 + 1e-11 * n, "polished residual %.3g exceeds the requested tolerance %.3g", r, t)
    else:
        cfg = {}
        if lin is not None:
            cfg['linear'] = lin
        if case['tol']:
            cfg['tol'] = case['tol']
        opts = {'dynamic_relax': cfg}
        snap = snapshot(opts)
        with rec.on():
            sol = solver(S.problem, opts)
        unchanged(opts, snap, 'dynamic relaxation options')
        check_trace(rec.trace, 'spsolve' if lin is None else case['backend'], 'starting solve of dynamic relaxation')
        r = models.bc_residual(S, S.unflat(S.flat(sol)))
        require(onp.abs(r).max() <= (case['tol'] or 1e-6) * 1.001 + 1e-12, "residual %.3g of dynamic relaxation with tol %s", onp.abs(r).max(), case['tol'])
    return {'nontrivial': True, 'labels': [case['method'], 'backend=' + case['backend']], 'observed': f'{len(rec.trace)} linear solves'}


SUBS = {'forms': {'strategy': forms_st, 'run': run_forms, 'examples': {'quick': 120, 'thorough': 4000}, 'weight': 3},
        'reject': {'strategy': reject_st, 'run': run_reject, 'examples': {'quick': 32, 'thorough': 600}, 'weight': .7},
        'methods': {'strategy': methods_st, 'run': run_methods, 'examples': {'quick': 40, 'thorough': 1000}, 'weight': 1.3}}

_M = {'ele': 'QUAD4', 'n': [3, 2], 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': False}
PINNED = {'arc_inner_linear': {'sub': 'methods', 'mesh': _M, 'vecs': [1], 'eles': ['QUAD4'], 'order': None, 'ivs': [0], 'kinds': ['tensor', 'mass'], 'skinds': ['map'],
                               'seed': 3, 'wseed': 0, 'mono': 'sym', 'linear': False, 'surfs': [], 'bcs': [[0, 'side', 0]], 'center': True,
                               'method': 'arc', 'backend': 'custom', 'tol': None, 'inner': True}}

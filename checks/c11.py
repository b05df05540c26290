"""C11: arc-length continuation."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close, Skip

RULE = """Sub 'path': a uniquely solvable problem (linear or nonlinear, one to three variables, surface terms, Dirichlet sets) under
displacement control (zero load, prescribed values scaled by lambda) or force control (counter-load cancelling all or most of the
load at lambda = 0), random psi, arc length (2 to 8 steps to full load), late arc length and switch step, step limit (sometimes too
small), polish options and callback.  Every recorded step is judged by the independent residual and the arc-length equation, and
the final state by a dense Newton solve.  Sub 'snap': a load-controlled cubic law with two limit points whose equilibrium path is
known in closed form; the recorded states must lie on it and progress along it.  Non-trivial: at least two continuation steps."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 200
T = models.TEMPLATES
POOL = [T[0], T[1], T[2], T[3], T[6], T[7], T[8], T[9]]


@st.composite
def path_st(draw):
    c = draw(models.solvable_case(templates=POOL, min_bcs=1))
    c['control'] = draw(st.sampled_from(['displacement', 'displacement', 'force']))
    c['center'] = c['control'] == 'displacement'
    c['psi'] = draw(st.sampled_from([None, 0.3, 1., 2.]))
    c['steps'] = draw(st.sampled_from([2, 3, 5, 8]))
    c['dl'] = draw(st.sampled_from(['scaled', 'scaled', 'scaled', 'default']))
    c['limit'] = draw(st.sampled_from([None, None, None, 1, 2]))
    c['aim'] = draw(st.sampled_from([None, None, None, .93, .97, .99, .999, 1.002]))     # load factor meant to be reached with the last allowed step
    if c['aim'] is not None:
        c['limit'] = draw(st.sampled_from([1, 2, 3]))
    c['switch'] = draw(st.sampled_from([None, 1, 2]))
    c['late'] = draw(st.sampled_from([0.5, 1.5]))
    c['imperfection'] = draw(st.sampled_from([0., 0., 0.03]))
    c['polish'] = draw(st.sampled_from([None, {'tol': 1e-9}, {'tol': 1e-9, 'line_search_flag': True}]))
    c['linear_opt'] = draw(st.sampled_from([None, 'spsolve_solver', 'petsc_solver', 'jax_solver']))
    c['callback'] = draw(st.booleans())
    c['return_info'] = draw(st.sampled_from([True, True, True, False]))
    return c


def run_path(case):
    import jax.numpy as np
    from jax_fem.solver import solver, get_q_vec
    force = case['control'] == 'force'
    S = models.Setup(case)
    S.prepare_ref()
    n = int(S.offsets[-1])
    bc = S.dirichlet_ref()
    if force:        # homogeneous conditions, so that the path starts at the unloaded state
        for fe in S.problem.fes:
            fe.vals_list = [0. * v for v in fe.vals_list]
        bc = {k: 0. for k in bc}
        S.set_ref(bc_vals=bc)
    exact = models.ref_solve(S)
    rows = onp.array(sorted(bc), dtype=int)
    free = onp.ones(n)
    free[rows] = 0.
    psi = case['psi'] if case['psi'] is not None else (0.5 if force else 1.)
    if force:
        load = S.flat(S.ref_residual(S.unflat(onp.zeros(n))))
        q = onp.asarray(get_q_vec(S.problem))
        close(q, load, "load vector at zero", 1e-10, 0)
        q = -(1 - case['imperfection']) * q
        b = q * free
    else:
        b = onp.zeros(n)
        for k, v in bc.items():
            b[k] = v
    total = onp.sqrt(onp.sum(exact**2) + psi**2 * onp.sum(b**2))
    if total < 1e-3 or onp.abs(b).max() < 1e-3:
        raise Skip()
    dl = total / case['steps'] * 1.03 if case['dl'] == 'scaled' else 0.1
    if dl == 0.1 and total > 4.:
        dl = 0.2
    if case['aim'] is not None:
        dl = total / case['limit'] * case['aim']
    cfg = {'control': case['control']}
    if dl != 0.1:
        cfg['Delta_l'] = dl
    if case['psi'] is not None:
        cfg['psi'] = psi
    late, switch = dl, 10**9
    if force:
        cfg['q_vec_aux'] = np.asarray(q)
        if case['switch'] is not None and case['aim'] is None:
            cfg['Delta_l_switch_step'] = switch = case['switch']
            cfg['Delta_l_late'] = late = dl * case['late']
    limit = 500 if case['limit'] is None else case['limit']
    if case['limit'] is not None:
        cfg['max_continuation_steps'] = limit
    if case['polish'] is not None:
        cfg['newton'] = dict(case['polish'])
    if case['linear_opt']:
        cfg['linear'] = {case['linear_opt']: {}}
    calls = []
    if case['callback']:
        cfg['step_callback'] = lambda step, u, lam: calls.append((int(step), onp.array(u, copy=True), float(lam)))
    if case['return_info']:
        cfg['return_info'] = True
    out = solver(S.problem, {'arc_length': cfg})
    if case['return_info']:
        require(isinstance(out, tuple) and len(out) == 2, "return_info gives %s", type(out))
        sol, info = out
    else:
        sol, info = out, None
    u = S.flat(sol)
    labels = models.case_labels(case)[:2] + [case['control'], 'linear=' + str(case['linear']), f'limit={case["limit"]}', case['mono'],
                                            f'polish={case["polish"] is not None}', f'callback={case["callback"]}']
    steps = [(c[0], c[1], c[2]) for c in calls]
    if info is not None:
        hist = info['history']
        if case['callback']:
            require(len(calls) == len(hist), "%d callback calls for %d recorded steps", len(calls), len(hist))
            for (k, uc, lc), h in zip(calls, hist):
                require(k == h['step'] and lc == h['lam'] and onp.array_equal(uc, onp.asarray(h['u'])),
                        "step %d: the recorded state differs from what the callback saw", k)
        steps = [(int(h['step']), onp.asarray(h['u']), float(h['lam'])) for h in hist]
    reached = None
    if steps:
        pu, pl = onp.zeros(n), 0.
        for k, (idx, uk, lk) in enumerate(steps):
            require(idx == k and uk.shape == (n,), "record %d has step %d, shape %s", k, idx, uk.shape)
            if force:
                r = models.bc_residual(S, S.unflat(uk)) + (1 - lk) * b
            else:
                r = S.flat(S.ref_residual(S.unflat(uk)))
                r[rows] = uk[rows] - lk * b[rows]
            rn = onp.linalg.norm(r)
            require(rn <= 3e-6, "step %d (lambda %.4f): residual %.3g of the recorded state", k, lk, rn)
            want = late if k >= switch else dl
            got = onp.sqrt(onp.sum((uk - pu)**2) + psi**2 * (lk - pl)**2 * onp.sum(b**2))
            close(got, want, f"arc length of step {k}", 1e-7, 0)
            require(lk > pl, "step %d: the load factor went from %.6f back to %.6f although the path has no turning point", k, pl, lk)
            require(pl < 1., "step %d was taken after full load was reached", k)
            pu, pl = uk, lk
        reached = pl >= 1.
        require(reached or len(steps) == limit, "stopped at lambda %.4f after %d of %d steps", pl, len(steps), limit)
        if info is not None:
            require(info['lam'] == steps[-1][2] and info['lambda_target'] == 1. and info['control'] == case['control'], "info %s", {k: info[k] for k in ('lam', 'lambda_target', 'control')})
            require(bool(info['polished']) == reached, "polished is %s although lambda is %.4f", info['polished'], pl)
        if not reached:
            close(u, steps[-1][1], "state returned when full load is not reached", 0, 0)
        labels.append('reached' if reached else 'stopped just short' if pl > .95 else 'not reached')
    if reached or (reached is None and case['limit'] is None):
        tol = (case['polish'] or {}).get('tol', 1e-6)
        rn = onp.linalg.norm(models.bc_residual(S, S.unflat(u)))
        rstart = 1. if not steps else onp.linalg.norm(models.bc_residual(S, S.unflat(steps[-1][1])))
        allowed = max(tol, 1e-8 * rstart) * 1.001 + 1e-11 * n
        require(rn <= allowed, "residual %.3g of the final state exceeds %.3g", rn, allowed)
        close(u, exact, "final state", 0, 2e3 * allowed)
    # the problem is still usable
    u2 = S.flat(solver(S.problem, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9, 'rel_tol': 1e-14}}))
    close(u2, exact, "Newton solution afterwards", 0, 1e-6)
    return {'nontrivial': len(steps) >= 2, 'labels': labels, 'observed': f'lambda {[round(s[2], 4) for s in steps]}'}


# ---------------------------------------------------------------------------------------- limit points
@st.composite
def snap_st(draw):
    ele = draw(st.sampled_from(['QUAD4', 'TRI3', 'HEX8']))
    return {'mesh': {'ele': ele, 'n': {'QUAD4': [2, 2], 'TRI3': [2, 1], 'HEX8': [1, 1, 1]}[ele], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': 0.2, 'curve': 0., 'affine': False, 'shuffle': draw(st.booleans())},
            'c2': draw(st.floats(1.15, 1.9)), 'amp': draw(st.floats(0.5, 3.)), 'over': draw(st.floats(1.1, 2.)), 'k': draw(st.floats(0.5, 3.)),
            'psi': draw(st.sampled_from([0.05, 0.2, 0.5])), 'frac': draw(st.floats(0.05, 0.2)), 'surface': draw(st.booleans())}


def run_snap(case):
    import jax.numpy as np
    from jax_fem.problem import Problem
    from jax_fem.solver import solver, get_q_vec
    rm = fem.make_mesh(case['mesh'])
    c2, amp, k = case['c2'], case['amp'], case['k']
    f = lambda u: amp * u * (u - 1.) * (u - c2)
    cs = onp.roots([3., -2. * (1. + c2), c2]).real.min()
    F = float(f(cs) * case['over'])
    coef = onp.array([amp, c2, F, k])

    class Snap(Problem):
        def get_tensor_map(self):
            return lambda g, w: w[3] * g

        def get_mass_map(self):
            return lambda u, x, w: w[0] * u * (u - 1.) * (u - w[1]) - w[2]

        def custom_init(self):
            self.internal_vars = [np.asarray(onp.tile(coef, (len(self.fes[0].cells), self.fes[0].num_quads, 1)))]

    class Counter(Problem):
        def get_mass_map(self):
            return lambda u, x, w: w[2] * np.ones(1)

        custom_init = Snap.custom_init
    kw = dict(vec=1, dim=rm.dim, ele_type=rm.ele, quadrature_order=2)
    p, pc = Snap(fem.jmesh(rm), **kw), Counter(fem.jmesh(rm), **kw)
    q = onp.asarray(get_q_vec(pc))
    n = len(rm.points)
    dl, psi = case['frac'] * onp.sqrt(n), case['psi']
    try:
        sol, info = solver(p, {'arc_length': {'control': 'force', 'q_vec_aux': np.asarray(q), 'Delta_l': dl, 'psi': psi, 'return_info': True,
                                              'max_continuation_steps': 200, 'newton': {'tol': 1e-9}, 'linear': {'spsolve_solver': {}}}})
    except AssertionError as e:
        if 'No valid solutions' in str(e):      # the arc does not meet the linearised path: the step was too long for this path
            raise Skip()
        raise
    pu, pl = onp.zeros(n), 0.
    for kk, h in enumerate(info['history']):
        u, lam = onp.asarray(h['u']), h['lam']
        c = u.mean()
        require(onp.abs(u - c).max() < 1e-5, "step %d: not uniform (spread %.3g)", kk, onp.abs(u - c).max())
        require(abs(f(c) - lam * F) * onp.linalg.norm(q) / F <= 5e-6, "step %d: (u, lambda) = (%.6f, %.6f) is off the equilibrium path", kk, c, lam)
        got = onp.sqrt(onp.sum((u - pu)**2) + psi**2 * (lam - pl)**2 * onp.sum(q**2))
        close(got, dl, f"arc length of step {kk}", 1e-7, 0)
        require(c > pu.mean(), "step %d: turned back along the path from u = %.5f to %.5f", kk, pu.mean(), c)
        require(pl < 1., "step %d was taken after full load was reached", kk)
        pu, pl = u, lam
    require(pl >= 1. and info['polished'], "full load not reached in %d steps (lambda %.4f)", len(info['history']), pl)
    u = onp.asarray(sol[0]).reshape(-1)
    root = onp.roots([1., -(1. + c2), c2, -F / amp])
    root = root[onp.abs(root.imag) < 1e-9].real.max()
    close(u, onp.full(n, root), "state at full load", 1e-5, 0, scale=1.)
    lams = onp.array([h['lam'] for h in info['history']])
    return {'nontrivial': bool((onp.diff(lams) < 0).any()), 'labels': [rm.ele, 'limit points crossed' if (onp.diff(lams) < 0).any() else 'jumped over'],
            'observed': f'{len(lams)} steps, lambda {onp.round(lams, 3).tolist()[:12]}'}


SUBS = {'path': {'strategy': path_st, 'run': run_path, 'examples': {'quick': 160, 'thorough': 3000}, 'weight': 3},
        'snap': {'strategy': snap_st, 'run': run_snap, 'examples': {'quick': 48, 'thorough': 1500}, 'weight': 1}}

"""C12: dynamic relaxation."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close

RULE = """A case is a uniquely solvable problem with a symmetric law (linear or nonlinear, one or two variables, surface terms,
internal variables, Dirichlet sets), an initial guess (none, zeros, random, violating the boundary values, or the solution), a
tolerance, a tangent refresh interval and a linear backend for the starting state.  The returned state is judged by the
independent residual component by component, by the prescribed values and by an independent dense Newton solve; a second
relaxation from another guess on the same object must agree.  Non-trivial: at least one Dirichlet set and a state that is not
already converged at the start."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 200
T = models.TEMPLATES
POOL = [T[0], T[1], T[2], T[3], T[5], T[7], T[8], T[9], T[4]]


@st.composite
def case_st(draw):
    c = draw(models.solvable_case(templates=POOL, mono=('sym',)))
    c['guess'] = [draw(st.sampled_from(['none', 'zeros', 'random', 'bc_wrong', 'solution', 'far'])) for _ in range(draw(st.integers(1, 2)))]
    c['tol'] = draw(st.sampled_from([None, 1e-4, 1e-8]))
    c['nKMat'] = draw(st.sampled_from([None, 5, 50]))
    c['info'] = draw(st.sampled_from([None, True, False]))
    c['lin'] = draw(st.sampled_from([None, {}, {'spsolve_solver': {}}, {'jax_solver': {}}, {'petsc_solver': {}},
                                     {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}]))
    return c


def run(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    S = models.Setup(case)
    S.prepare_ref()
    exact = models.ref_solve(S)
    n = int(S.offsets[-1])
    rng = onp.random.default_rng(case['seed'] + 31)
    bc = S.dirichlet_ref()
    rows = onp.array(sorted(bc), dtype=int)
    K = models.ref_tangent(S, exact)
    Kf = onp.delete(onp.delete(K, rows, 0), rows, 1)
    stiff = 1. / onp.linalg.norm(onp.linalg.inv(Kf), 2) if len(Kf) else 1.
    started_off = False
    for gname in case['guess']:
        g = {'none': None, 'zeros': onp.zeros(n), 'random': rng.uniform(-1, 1, n), 'solution': exact.copy(), 'bc_wrong': exact.copy(),
             'far': rng.uniform(-20, 20, n)}[gname]
        if gname == 'bc_wrong':
            g[rows] += 0.5
        cfg = {}
        if g is not None:
            cfg['initial_guess'] = [np.asarray(s) for s in S.unflat(g)]
        for k, o in (('tol', 'tol'), ('nKMat', 'nKMat'), ('info', 'info')):
            if case[k] is not None:
                cfg[o] = case[k]
        if case['info'] is False:
            cfg['info_force'] = False
            cfg['nPrint'] = 50
        if case['lin'] is not None:
            cfg['linear'] = {k: dict(v) for k, v in case['lin'].items()}
        sol = solver(S.problem, {'dynamic_relax': cfg})
        require(len(sol) == S.nvars and all(tuple(s.shape) == (len(r.points), v) for s, r, v in zip(sol, S.rms, S.vecs)), "shapes of the solution")
        u = S.flat(sol)
        what = f"with guess {gname}, linear {case['lin']}"
        close(u[rows], [bc[k] for k in rows.tolist()], f"prescribed values {what}", 0, 1e-9)
        r = models.bc_residual(S, S.unflat(u))
        tol = case['tol'] or 1e-6
        rm = float(onp.abs(r).max())
        require(rm <= tol * 1.0001 + 1e-12, "%s: largest residual component %.3g exceeds the tolerance %.3g", what, rm, tol)
        close(u, exact, f"state {what}", 0, 4 * tol * onp.sqrt(n) / stiff + 1e-8)
        started_off |= gname != 'solution'
    return {'nontrivial': bool(case['bcs']) and started_off, 'labels': models.case_labels(case)[:3] + ['guess=' + g for g in case['guess']] +
            [f'nKMat={case["nKMat"]}', 'linear=' + str(case['linear']), f'lin={sorted(case["lin"]) if case["lin"] is not None else None}'],
            'observed': f'max residual {rm:.2g} (tol {tol})'}


SUBS = {'relax': {'strategy': case_st, 'run': run, 'examples': {'quick': 96, 'thorough': 3000}}}

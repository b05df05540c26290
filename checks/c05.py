"""C05: tangent assembly."""
import numpy as onp
import scipy.sparse as sps
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close

RULE = """A case is a generated problem (as for the residual property: element types, 1 to 3 coupled variables, term kinds,
internal variables, surface sets) with up to four Dirichlet sets; the assembled (I, J, V) tangent at a random state is compared,
on every unit direction (small problems) or on random directions, with the complex-step derivative of the independent NumPy
residual, and the system matrix handed to a custom linear solver with identity / untouched rows.  Non-trivial: a nonlinear law
with more than one cell and at least one of surface sets, several variables, several kinds, Dirichlet sets."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
PAL = {'quad': [(1, 1), (2, 1), (3, 2), (4, 5), (7, 3)], 'tri': [(1, 1), (2, 2), (2, 5), (3, 7)],
       'hex': [(1, 1, 1), (2, 1, 1), (2, 2, 2), (7, 3, 1)], 'tet': [(1, 1, 1), (2, 1, 1), (2, 2, 1)]}


def case_st():
    return models.weakform_case(sizes=PAL, bc=True)


def run(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    S = models.Setup(case)
    S.prepare_ref()
    p = S.problem
    sols = S.random_state(0.7)
    n = int(S.offsets[-1])
    res = p.newton_update([np.asarray(s) for s in sols])
    ref = S.ref_residual(sols)
    scale = max(float(onp.abs(r).max()) for r in ref)
    for i in range(S.nvars):
        close(res[i], ref[i], f"residual of variable {i} returned with the tangent", 1e-10, 0, scale=scale)
    K = sps.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(n, n)).tocsr()
    rng = onp.random.default_rng(case['seed'] + 5)
    D = rng.uniform(-1, 1, (n, 4))
    e = onp.eye(n)[:, rng.choice(n, size=min(n, 6), replace=False)]
    D = onp.concatenate([D, e], 1)
    want = S.ref_jvp(sols, D)
    kscale = float(onp.abs(want).max())
    close(K @ D, want, "tangent applied to directions", 1e-9, 0, scale=kscale)
    # the system matrix at the same state
    seen = {}

    class Stop(Exception):
        pass

    def capture(A, b, x0, opts):
        ptr, ind, val = A.getValuesCSR()
        seen['A'] = sps.csr_matrix((val, ind, ptr), shape=A.getSize())
        seen['b'] = onp.asarray(b)
        raise Stop()
    try:
        solver(p, {'newton': {'initial_guess': [np.asarray(s) for s in sols], 'linear': {'custom_solver': capture}, 'tol': 0., 'rel_tol': 0.}})
    except Stop:
        pass
    require('A' in seen, "the linear solver was not called for a residual of size %s", scale)
    bc = S.dirichlet_ref()
    rows = onp.array(sorted(bc), dtype=int)
    A = seen['A']
    free = onp.setdiff1d(onp.arange(n), rows)
    if len(rows):
        R = A[rows].toarray()
        I = onp.zeros_like(R)
        I[onp.arange(len(rows)), rows] = 1.
        close(R, I, "rows of constrained degrees of freedom in the system matrix", 0, 1e-13)
    close((A @ D)[free], want[free], "unconstrained rows of the system matrix", 1e-9, 0, scale=kscale)
    flat = S.flat(sols)
    r = S.flat(ref).copy()
    for d, v in bc.items():
        r[d] = flat[d] - v
    close(seen['b'], -r, "right-hand side of the Newton step", 1e-10, 0, scale=max(scale, onp.abs(flat).max()))
    nt = len(S.rm.cells) > 1 and bool(case['surfs'] or S.nvars > 1 or len(case['kinds']) > 1 or len(rows))
    return {'nontrivial': nt, 'labels': models.case_labels(case) + [f'bc_rows={"0" if not len(rows) else ">0"}'],
            'observed': f'{n} dofs, {len(rows)} constrained, max |tangent direction| {kscale:.4g}'}


SUBS = {'tangent': {'strategy': case_st, 'run': run, 'examples': {'quick': 120, 'thorough': 4000}}}

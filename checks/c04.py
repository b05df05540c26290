"""C04: residual assembly."""
import numpy as onp
from pbt import fem, models
from pbt.core import require, close

RULE = """A case is a mesh of any element type with 1 to 41 cells, 1 to 3 coupled variables of mixed element types and
component counts, a random nonlinear law for each of the drawn term kinds (gradient, value, general kernel), 0 to 2 internal
variables of drawn shapes with independent values at every quadrature point, 0 to 2 surface sets with their own laws and
surface variables, and two random states; the library's residual is compared with an independent NumPy assembly.
Non-trivial: more than one cell and at least one of internal variables, surface sets, several variables or several kinds."""
BUDGET_S = {'quick': 75, 'thorough': 1500}


def run(case):
    S = models.Setup(case)
    S.prepare_ref()
    import jax.numpy as np
    for k in range(2):
        sols = S.random_state(1. if k == 0 else 0.3)
        ref = S.ref_residual(sols)
        got = S.problem.compute_residual([np.asarray(s) for s in sols])
        require(len(got) == S.nvars, "the residual has %d variables, expected %d", len(got), S.nvars)
        scale = max(float(onp.abs(r).max()) for r in ref)
        for i in range(S.nvars):
            close(got[i], ref[i], f"residual of variable {i}", 1e-10, 0, scale=scale)
    nt = len(S.rm.cells) > 1 and bool(case['ivs'] or case['surfs'] or S.nvars > 1 or len(case['kinds']) > 1)
    return {'nontrivial': nt, 'labels': models.case_labels(case), 'observed': f'max |residual| {scale:.4g}'}


SUBS = {'weakform': {'strategy': models.weakform_case, 'run': run, 'examples': {'quick': 144, 'thorough': 5000}}}

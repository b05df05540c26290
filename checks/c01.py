"""C01: interpolation."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close, Violation
from pbt.poly import Poly, frame

RULE = """A case is a mesh (element type, cell counts, grading, vertex jitter, curvature of higher-order nodes, affine
map, node/cell/local-order shuffling), a quadrature order or the default, a component count and a random polynomial;
sub-check 'field' compares interpolated values and gradients with the polynomial, sub-check 'basis' compares the tabulated
basis with an independent Vandermonde tabulation on the same mesh.  Non-trivial: the mesh is distorted, affinely mapped,
graded, curved or shuffled (not the plain unit grid)."""
BUDGET_S = {'quick': 55, 'thorough': 900}
ORDERS = [None, 1, 2, 3, 4, 5]
TWO = {'quad': [(1, 1), (3, 2)], 'tri': [(1, 1), (2, 3)], 'hex': [(1, 1, 1), (2, 2, 1)], 'tet': [(1, 1, 1), (2, 1, 1)]}


@st.composite
def field_case(draw):
    m = draw(fem.mesh_st(sizes=TWO, affine='scale'))
    return {'mesh': m, 'order': draw(st.sampled_from(ORDERS)), 'vec': draw(st.integers(1, 3)), 'pseed': draw(fem.seeds()),
            'faces': draw(st.sampled_from(['boundary', 'all', 'some']))}


def labels(case, *more):
    m = case['mesh']
    nt = bool(m['grade'] or m['jitter'] or m['curve'] or m['affine'] or m['shuffle'])
    return {'nontrivial': nt, 'labels': [m['ele'], 'order=' + str(case['order']), 'affine_cells' if fem.is_affine(m) else 'distorted', *more]}


def select(rm, fe, kind, rng):
    """selected (cell, face) pairs through the public face selection"""
    if kind == 'all':
        nodes = range(len(rm.points))
    elif kind == 'boundary':
        nodes = rm.boundary_nodes
    else:
        nodes = rng.choice(len(rm.points), size=max(1, int(0.8 * len(rm.points))), replace=False)
    inds = onp.asarray(fe.get_boundary_conditions_inds([sut.in_set_fn(nodes)])[0])
    return inds[rng.choice(len(inds), 8)] if len(inds) else inds     # fixed size: compiled code is shared


def run_field(case):
    m = case['mesh']
    rm = fem.make_mesh(m)
    rng = onp.random.default_rng(case['pseed'])
    c, L = frame(rm.points)
    deg = rm.ref.degree if fem.is_affine(m) else 1
    f = Poly(rm.dim, deg, case['vec'], rng, c, L)
    fe = sut.make_fe(rm, case['vec'], case['order'])
    import jax.numpy as np
    sol = np.asarray(f(rm.points))
    x = onp.asarray(fe.get_physical_quad_points())
    require(x.shape[0] == len(rm.cells), "number of cells")
    h = L / max(m['n'])
    close(fe.convert_from_dof_to_quad(sol), f(x), "values at volume quadrature points", 1e-9, 0, scale=1)
    close(fe.sol_to_grad(sol), f.grad(x), "gradients at volume quadrature points", 1e-8, 0, scale=1 / h)
    inds = select(rm, fe, case['faces'], rng)
    if len(inds):
        xs = onp.asarray(fe.get_physical_surface_quad_points(inds))
        close(fe.convert_from_dof_to_face_quad(sol, inds), f(xs), "values at surface quadrature points", 1e-9, 0, scale=1)
        g, _ = fe.get_face_shape_grads(inds)
        gs = onp.einsum('fqnd,fnv->fqvd', onp.asarray(g), onp.asarray(sol)[rm.cells[inds[:, 0]]])
        close(gs, f.grad(xs), "gradients at surface quadrature points", 1e-8, 0, scale=1 / h)
    return labels(case, f'faces={min(len(inds), 1)}+', f'deg={deg}')


def run_basis(case):
    m = case['mesh']
    rm = fem.make_mesh(m)
    rng = onp.random.default_rng(case['pseed'])
    fe = sut.make_fe(rm, case['vec'], case['order'])
    x, N, g, w = rm.tabulate(case['order'])
    size = onp.ptp(rm.points, axis=0).max()
    xi = onp.asarray(fe.get_physical_quad_points())
    close(xi.shape, x.shape, "shape of the physical quadrature points", 0, 0)
    gi, wi = (onp.asarray(a) for a in fe.get_shape_grads())
    vi = onp.asarray(fe.shape_vals)
    p = None
    for cidx in range(len(rm.cells)):
        p = sut.match(xi[cidx], x[cidx], f"physical quadrature points of cell {cidx}", 1e-9 * size)
        close(gi[cidx], g[cidx][p], f"physical shape gradients in cell {cidx}", 1e-8, 0)
        close(wi[cidx], w[cidx][p], f"volume weights in cell {cidx}", 1e-9, 0)
        close(vi, N[p], "shape values", 1e-10, 0, scale=1)
    inds = select(rm, fe, case['faces'], rng)
    if len(inds):
        loc = sut.identify_faces(rm, fe, inds, case['order'])
        xs = onp.asarray(fe.get_physical_surface_quad_points(inds))
        gs, ws = (onp.asarray(a) for a in fe.get_face_shape_grads(inds))
        vs = onp.asarray(fe.face_shape_vals)[inds[:, 1]]
        for k in range(len(inds)):
            X, Nf, gf, wf, _ = rm.tab_face(int(inds[k, 0]), loc[k], case['order'])
            p = sut.match(xs[k], X, f"surface quadrature points of face {inds[k].tolist()}", 1e-9 * size)
            close(vs[k], Nf[p], "face shape values", 1e-10, 0, scale=1)
            close(gs[k], gf[p], "face shape gradients", 1e-8, 0)
            close(ws[k], wf[p], "surface weights", 1e-9, 0)
    return labels(case, f'nfaces>0={len(inds) > 0}')


SUBS = {
    'field': {'strategy': field_case, 'run': run_field, 'examples': {'quick': 260, 'thorough': 6000}, 'weight': 1},
    'basis': {'strategy': field_case, 'run': run_basis, 'examples': {'quick': 260, 'thorough': 6000}, 'weight': 1},
}

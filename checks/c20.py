"""C20: filters of the topology optimiser."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close

RULE = """Generated 2D and 3D meshes of all element types (graded, stretched so that the radius covers many cells, distorted, moved and
scaled over eight decades), random design subsets of any size and order, densities of one or two fields with zeros and ones.
The filter matrix and row sums are compared with the brute-force definition over all pairs, the density filter with the weighted
average, the sensitivity filter with its formula for objective and constraints; bounds, constants and linearity are checked as
metamorphic relations.  Non-trivial: the matrix has an off-diagonal entry."""
BUDGET_S = {'quick': 45, 'thorough': 900}
SZ = {'quad': [[1, 1], [3, 2], [8, 5], [80, 1], [30, 2], [12, 12]], 'tri': [[1, 1], [3, 3], [5, 4], [24, 1]], 'hex': [[1, 1, 1], [2, 2, 2], [5, 2, 2], [4, 4, 3], [40, 1, 1]],
      'tet': [[1, 1, 1], [2, 2, 1], [2, 2, 2]]}


@st.composite
def filter_st(draw):
    ele = draw(st.sampled_from(['QUAD4', 'QUAD4', 'HEX8', 'HEX8', 'TRI3', 'TET4', 'QUAD8', 'TRI6', 'TET10', 'HEX20']))
    return {'mesh': {'ele': ele, 'n': draw(st.sampled_from(SZ[fem.ELE[ele][1]])), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .2])),
                     'curve': 0., 'affine': draw(st.sampled_from([False, True, 'scale'])), 'shuffle': draw(st.booleans())},
            'logs': draw(st.sampled_from([0., 0., -4., 4.])), 'frac': draw(st.sampled_from([1., 1., .6, .2, 0.])), 'order': draw(st.booleans()), 'k': draw(st.sampled_from([1, 1, 2])),
            'm': draw(st.integers(1, 3)), 'rho': draw(st.sampled_from(['random', '01', 'const'])), 'seed': draw(fem.seeds())}


def run_filter(case):
    import jax.numpy as np
    from jax_fem import mma
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    rm.points *= 10. ** case['logs']
    nc = len(rm.cells)
    nf = nc if case['frac'] == 1. else max(1, int(case['frac'] * nc))
    flex = rng.permutation(nc)[:nf]
    if not case['order']:
        flex = onp.sort(flex)
    fe = sut.make_fe(rm)
    fe.flex_inds = np.asarray(flex)
    H, Hs = mma.compute_filter_kd_tree(fe)
    h = onp.asarray(H.todense())
    hs = onp.asarray(Hs)
    V = rm.tabulate(None)[3].sum()
    r = 1.5 * (V / nc)**(1 / rm.dim)
    cen = rm.points[rm.cells].mean(1)[flex]
    dist = onp.linalg.norm(cen[:, None] - cen[None], axis=2)
    want = onp.maximum(0., r - dist)
    require(h.shape == (nf, nf), "filter matrix of shape %s for %d design cells", h.shape, nf)
    close(h, want, "filter matrix against its definition", 0, 1e-9 * r)
    require(not onp.any(h[dist > r * (1 + 1e-9)]), "the filter connects cells beyond the radius")
    close(hs.reshape(-1), want.sum(1), "row sums", 1e-9, 0)
    k = case['k']
    rho = {'random': rng.uniform(0, 1, (nf, k)), '01': rng.integers(0, 2, (nf, k)).astype(float), 'const': onp.full((nf, k), rng.uniform(0, 1))}[case['rho']]
    ft = {'H': H, 'Hs': Hs}
    f = onp.asarray(mma.applyDensityFilter(ft, np.asarray(rho)))
    close(f, want @ rho / want.sum(1)[:, None], "density filter", 1e-9, 0)
    require((f >= rho.min(0) - 1e-12).all() and (f <= rho.max(0) + 1e-12).all(), "the density filter widens the range: %s -> %s", [rho.min(0), rho.max(0)], [f.min(0), f.max(0)])
    c = rng.uniform(-2, 2)
    close(mma.applyDensityFilter(ft, np.full((nf, k), c)), onp.full((nf, k), c), "density filter of a constant", 1e-11, 0)
    dJ, dv = rng.normal(size=(nf, k)), rng.normal(size=(case['m'], nf, k))
    a, b = mma.applySensitivityFilter(ft, np.asarray(rho), np.asarray(dJ), np.asarray(dv))
    w = rho / onp.maximum(1e-3, rho) / want.sum(1)[:, None]
    require(a.shape == dJ.shape and b.shape == dv.shape, "sensitivity filter returns shapes %s and %s", a.shape, b.shape)
    sc = max(onp.abs(w * dJ).max() * want.sum(1).max(), 1e-300)
    close(a, want @ (w * dJ), "sensitivity filter of the objective", 1e-9, 1e-12 * sc)
    sc = max(onp.abs(w[None] * dv).max() * want.sum(1).max(), 1e-300)
    close(b, onp.einsum('ij,mjk->mik', want, w[None] * dv), "sensitivity filter of the constraints", 1e-9, 1e-12 * sc)
    nn = int((want > 0).sum(1).max())
    return {'nontrivial': nn > 1, 'labels': [rm.ele, 'subset' if nf < nc else 'all cells', 'design<20' if nf < 20 else 'design>=20', f'neighbours>20={nn > 20}', f'fields={k}'],
            'observed': f'{nf} of {nc} cells, up to {nn} neighbours'}


SUBS = {'filter': {'strategy': filter_st, 'run': run_filter, 'examples': {'quick': 320, 'thorough': 15000}, 'weight': 1}}

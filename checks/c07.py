"""C07: patch tests."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close
from pbt.poly import Poly, frame

RULE = """A case is a mesh of any element type (graded, jittered, curved, sheared, shuffled), scalar diffusion or vector
elasticity with a random (isotropic or general positive definite, possibly unsymmetric) tensor, a reaction coefficient, a random
polynomial solution of the degree the element reproduces, and for every side of the domain a drawn boundary kind (Dirichlet on
all or some components, Neumann traction, Robin); the source and traction are computed from the polynomial in NumPy and the
solve must return its nodal values.  Non-trivial: a non-plain mesh and at least one Neumann or Robin side."""
BUDGET_S = {'quick': 75, 'thorough': 1200}
PAL = {'quad': [(1, 1), (3, 2)], 'tri': [(1, 1), (2, 2)], 'hex': [(1, 1, 1), (2, 2, 1)], 'tet': [(1, 1, 1), (2, 1, 1)]}


@st.composite
def case_st(draw):
    m = draw(fem.mesh_st(sizes=PAL, affine='scale'))
    dim, _, _, _, _, deg, _ = fem.ELE[m['ele']]
    affine = fem.is_affine(m)
    if deg == 1:
        order = draw(st.sampled_from([None, 3]))
    elif affine:
        order = draw(st.sampled_from([4, 5]))
    else:
        order = 6
    vec = draw(st.sampled_from([1, dim, dim]))
    kinds = [draw(st.sampled_from(['D', 'D', 'N', 'R', 'P'])) for _ in range(2 * dim)]
    case = {'mesh': m, 'order': order, 'vec': vec, 'law': draw(st.sampled_from(['iso', 'general', 'unsym'])), 'c': draw(st.sampled_from([0., 0., 1.])),
            'sides': kinds, 'pseed': draw(fem.seeds()), 'sets': draw(st.sampled_from(['one', 'sides'])),
            'backend': draw(st.sampled_from(['spsolve', 'spsolve', 'spsolve', 'petsc']))}
    if 'D' not in kinds and 'R' not in kinds:
        case['sides'][draw(st.integers(0, 2 * dim - 1))] = draw(st.sampled_from(['D', 'R']))
    return case


def material(case, dim, rng):
    v = case['vec']
    n = v * dim
    if case['law'] == 'iso' and v > 1:
        lam, mu = rng.uniform(0.2, 2, 2)
        I = onp.eye(dim)
        C = lam * onp.einsum('ij,kl->ijkl', I, I) + mu * (onp.einsum('ik,jl->ijkl', I, I) + onp.einsum('il,jk->ijkl', I, I))
        return C.reshape(n, n)
    if case['law'] == 'iso':
        return rng.uniform(0.5, 2) * onp.eye(n)
    Q = rng.uniform(-1, 1, (n, n))
    K = onp.eye(n) + 0.4 * Q @ Q.T
    return K if case['law'] == 'general' else K + 0.5 * (Q - Q.T)


def run(case):
    import jax.numpy as np
    from jax_fem.problem import Problem
    from jax_fem.solver import solver
    m = case['mesh']
    rm = fem.make_mesh(m)
    dim, v = rm.dim, case['vec']
    rng = onp.random.default_rng(case['pseed'])
    affine = fem.is_affine(m)
    c0, L = frame(rm.points)
    u = Poly(dim, rm.ref.degree if affine else 1, v, rng, c0, L)
    K = material(case, dim, rng) * L**2       # so that all terms have comparable size
    alpha = L * rng.uniform(0.5, 2)
    cc = case['c']
    flux = lambda x: (u.grad(x).reshape(x.shape[:-1] + (v * dim,)) @ K.T).reshape(x.shape[:-1] + (v, dim))
    K4 = K.reshape(v, dim, v, dim)
    src = lambda x: -onp.einsum('idje,...jde->...i', K4, u.hess(x)) + cc * u(x)
    # sides
    sides = {}
    for s, kind in enumerate(case['sides']):
        nodes = onp.where(onp.abs(rm.grid[:, s // 2] - s % 2) < 1e-9)[0]
        sides[s] = (kind, nodes)
    locs, comps, vals = [], [], []
    for s, (kind, nodes) in sides.items():
        for k in range(v):
            if kind == 'D' or (kind == 'P' and (k == s // 2 % v)):
                locs.append(sut.in_set_fn(nodes))
                comps.append(k)
                cof = u.coef[:, k]

                def val(x, cof=cof):
                    y = (x - c0) / L
                    return np.prod(y[None, :] ** np.asarray(u.exps), axis=-1) @ cof
                vals.append(val)
    if not any(k in ('D', 'R') for k, _ in sides.values()):
        cc = cc or 1.

    class P(Problem):
        def get_tensor_map(self):
            return lambda g, K, f, c: (K @ g.reshape(-1)).reshape(v, dim)

        def get_mass_map(self):
            return lambda w, x, K, f, c: c * w - f

        def get_surface_maps(self):
            return [lambda w, x, g, a, ue: a * (w - ue) - g for _ in surf_nodes]
    if case['sets'] == 'one':
        surf_nodes = [rm.boundary_nodes]
    else:
        surf_nodes = [n for k, n in sides.values() if k != 'D']
    if not surf_nodes:
        surf_nodes = [rm.boundary_nodes]
    p = P(fem.jmesh(rm), vec=v, dim=dim, ele_type=rm.ele, quadrature_order=case['order'],
          dirichlet_bc_info=[locs, comps, vals] if locs else None, location_fns=[sut.in_set_fn(n) for n in surf_nodes])
    x = onp.asarray(p.fes[0].get_physical_quad_points())
    p.internal_vars = [np.asarray(onp.broadcast_to(K, x.shape[:2] + K.shape)), np.asarray(src(x)), np.full(x.shape[:2], cc)]
    face_side = {}
    for key, l in rm.faces_by_verts.items():
        if len(l) == 1:
            for s in sides:
                if onp.all(onp.abs(rm.grid[list(key), s // 2] - s % 2) < 1e-9):
                    face_side[l[0]] = s
    p.internal_vars_surfaces = []
    size = onp.ptp(rm.points, axis=0).max()
    for inds in p.boundary_inds_list:
        inds = onp.asarray(inds)
        loc = sut.identify_faces(rm, p.fes[0], inds, case['order'])
        xs = onp.asarray(p.fes[0].get_physical_surface_quad_points(inds))
        g, a, ue = onp.zeros(xs.shape[:2] + (v,)), onp.zeros(xs.shape[:2]), u(xs)
        for k, (c, _) in enumerate(inds):
            s = face_side.get((int(c), loc[k]))
            if s is None:
                continue                    # an interior face between boundary nodes: no load
            X, _, _, _, nrm = rm.tab_face(int(c), loc[k], case['order'])
            q = sut.match(xs[k], X, "surface quadrature points", 1e-9 * size)
            g[k] = onp.einsum('qvd,qd->qv', flux(X), nrm)[q]
            a[k] = alpha if sides[s][0] == 'R' else 0.
        p.internal_vars_surfaces.append([np.asarray(g), np.asarray(a), np.asarray(ue)])
    sol = solver(p, {'newton': {'tol': 1e-14 * L**dim, 'rel_tol': 1e-9, 'linear': {case['backend'] + '_solver': {}}}})
    want = u(rm.points)
    close(sol[0], want, "nodal values of the polynomial solution", 1e-7 if case['backend'] == 'petsc' else 1e-8, 0, scale=1.)
    kinds = set(case['sides'])
    nt = bool(m['grade'] or m['jitter'] or m['curve'] or m['affine'] or m['shuffle']) and bool(kinds & {'N', 'R', 'P'})
    return {'nontrivial': nt, 'labels': [m['ele'], f'vec={v}', case['law'], 'affine' if affine else 'distorted', 'kinds=' + ''.join(sorted(kinds)),
                                         'order=' + str(case['order'])],
            'observed': f'degree {rm.ref.degree if affine else 1}, max error {onp.abs(onp.asarray(sol[0]) - want).max():.2g}'}


SUBS = {'patch': {'strategy': case_st, 'run': run, 'examples': {'quick': 200, 'thorough': 6000}}}

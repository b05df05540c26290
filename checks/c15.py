"""C15: balance laws and variational structure."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models, sut
from pbt.core import require, close

RULE = """Sub 'balance': random nonlinear stress laws, sources and tractions on generated meshes of all element types and length units (1e-5 to 1e4); the sum of
internal nodal forces must vanish, their first moments must equal the integrated stress, nodal loads must sum to the integrated
load, and after a solve the reactions must balance the applied load.  Sub 'energy': a random energy in gradient, value and boundary
value; the residual must be its gradient (complex step on an independent NumPy energy) and the tangent symmetric; convex quadratic
ones must be positive semi-definite.  Sub 'rigid': random anisotropic frame-indifferent energies; rigid motions give no force and a
superposed rotation rotates the forces; linear elasticity has the rigid modes in the null space.  Non-trivial: every case (states and
laws are random)."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 150
SZ = {'QUAD4': [[3, 2], [7, 3]], 'TRI3': [[2, 2], [3, 3]], 'QUAD8': [[2, 2]], 'TRI6': [[2, 2]], 'HEX8': [[2, 2, 1]], 'TET4': [[2, 1, 1]],
      'HEX20': [[1, 1, 1]], 'TET10': [[1, 1, 1]], 'HEX27': [[1, 1, 1]]}


@st.composite
def mesh_st(draw):
    ele = draw(st.sampled_from(sorted(SZ)))
    return {'ele': ele, 'n': draw(st.sampled_from(SZ[ele])), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .2])),
            'curve': draw(st.sampled_from([0., .1])) if fem.ELE[ele][5] > 1 else 0., 'affine': draw(st.booleans()), 'shuffle': draw(st.booleans())}


def covered(rm, nodes):
    """every (cell, face) whose vertices all lie in the node set: what a location predicate selects"""
    nodes = set(int(i) for i in nodes)
    return [cf for k, l in rm.faces_by_verts.items() if k <= nodes for cf in l]


def order_of(rm):
    return 4 if rm.ele in ('HEX27', 'QUAD8', 'HEX20') else None if rm.ele in ('QUAD4', 'HEX8') else 2


@st.composite
def balance_st(draw):
    m = draw(mesh_st())
    d = len(m['n'])
    return {'mesh': m, 'vec': draw(st.sampled_from([1, d, d])), 'wseed': draw(st.integers(0, 1)), 'seed': draw(fem.seeds()), 'load': draw(st.sampled_from(['none', 'source', 'traction', 'both', 'both'])),
            'unit': draw(st.sampled_from([1., 1., 1e-5, 1e-3, 1e4])),
            'solve': draw(st.booleans()), 'bcs': draw(st.sampled_from(['side', 'some'])), 'lin': draw(st.booleans())}


def run_balance(case):
    import jax.numpy as np
    from jax_fem.problem import Problem
    from jax_fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    unit = case['unit']         # length unit: displacements scale with it, forces with unit^(d-1)
    rm = fem.RefMesh(rm.ele, rm.points * unit, rm.cells)
    d, vec, order = rm.dim, case['vec'], order_of(rm)
    w = onp.random.default_rng(case['wseed'])
    law = models.MonoLaw(vec * d, d, w, sym=False, lin=case['lin'])
    src, tr = models.Law(d, vec, w), models.Law(d, vec, w)
    source, traction = case['load'] in ('source', 'both'), case['load'] in ('traction', 'both')
    ns = {'get_tensor_map': lambda self: lambda g, x: law(np, np.concatenate([g.reshape(-1), x])).reshape(vec, d)}
    if source:
        ns['get_mass_map'] = lambda self: lambda u, x, xi: src(np, x)
    if traction:
        ns['get_surface_maps'] = lambda self: [lambda u, x: tr(np, x)]

    def custom_init(self):
        self.internal_vars = [self.fes[0].get_physical_quad_points()]
    ns['custom_init'] = custom_init
    cls = type('Balance', (Problem,), ns)
    X = rm.points
    a = rng.normal(size=d)
    pr = X @ a
    cnodes = onp.where(pr <= onp.quantile(pr, .3))[0] if case['bcs'] == 'side' else rng.choice(len(X), size=max(d + 1, len(X) // 4), replace=False)
    cval = unit * rng.uniform(-1, 1, vec)
    bcs = [[sut.in_set_fn(cnodes)] * vec, list(range(vec)), None]
    bcs[2] = [(lambda val: (lambda x: val))(float(cval[v])) for v in range(vec)]
    p = cls(fem.jmesh(rm), vec=vec, dim=d, ele_type=rm.ele, quadrature_order=order, dirichlet_bc_info=bcs,
            location_fns=[sut.in_set_fn(rm.boundary_nodes)] if traction else None)
    # integrated loads by the independent quadrature
    x, N, g, JxW = rm.tabulate(order)
    load = onp.zeros(vec)
    if source:
        load = load + onp.einsum('cqv,cq->v', src(onp, x), JxW)
    if traction:
        for c, f in covered(rm, rm.boundary_nodes):
            xf, Nf, gf, wf, _ = rm.tab_face(c, f, order)
            load = load + tr(onp, xf).T @ wf
    u = unit * rng.uniform(-1, 1, (len(X), vec))
    r = onp.asarray(p.compute_residual([np.asarray(u)])[0])
    sc = onp.abs(r).sum() + 1e-300
    close(r.sum(0), load, "sum of nodal forces (internal forces cancel, loads remain)", 0, 1e-11 * sc)
    # virtual work of linear test fields: sum r (x) X = int stress + load moments
    G = onp.einsum('cnv,cqnd->cqvd', u[rm.cells], g)
    P = law(onp, onp.concatenate([G.reshape(G.shape[:2] + (-1,)), x], -1)).reshape(G.shape)
    mom = onp.einsum('cqvd,cq->vd', P, JxW)
    if source:
        mom = mom + onp.einsum('cqv,cqd,cq->vd', src(onp, x), x, JxW)
    if traction:
        for c, f in covered(rm, rm.boundary_nodes):
            xf, Nf, gf, wf, _ = rm.tab_face(c, f, order)
            mom = mom + onp.einsum('qv,qd,q->vd', tr(onp, xf), xf, wf)
    close(r.T @ X, mom, "first moments of the nodal forces (virtual work of linear fields)", 0, 1e-10 * sc * (unit + onp.abs(X).max()))
    labels = [rm.ele, f'unit={unit:g}', f'vec={vec}', 'load=' + case['load'], f'solve={case["solve"]}']
    if case['solve']:
        # uniformly monotone law: unique solution with every component constrained somewhere
        fu = max(unit**(d - 1), unit**d)
        s = solver(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9 * fu, 'rel_tol': 1e-15}})
        r = onp.asarray(p.compute_residual(s)[0])
        reac = r[cnodes].sum(0)
        sc = onp.abs(r).sum() + onp.abs(P).max() * unit**(d - 1)
        free = onp.setdiff1d(onp.arange(len(X)), cnodes)
        require(onp.abs(r[free]).max(initial=0.) <= 1.1e-9 * fu, "free residual %.3g after the solve", onp.abs(r[free]).max(initial=0.))
        close(reac, load, "reactions against the applied load", 0, 1e-9 * fu * len(X) + 1e-11 * sc)
    return {'nontrivial': True, 'labels': labels, 'observed': f'load {onp.round(load, 6).tolist()}, total |r| {sc:.4g}'}


# -------------------------------------------------------------------------------------------------- energies
@st.composite
def energy_st(draw):
    m = draw(mesh_st())
    d = len(m['n'])
    return {'mesh': m, 'vec': draw(st.sampled_from([1, d, 2])), 'wseed': draw(st.integers(0, 1)), 'seed': draw(fem.seeds()),
            'parts': draw(st.sampled_from([['g'], ['g', 'u'], ['g', 's'], ['g', 'u', 's']])), 'convex': draw(st.booleans())}


class Energy:
    """psi(z, x) = z'Az/2 + sum_k c_k sin(b_k z + e_k x): real or complex NumPy, or JAX"""

    def __init__(self, n, d, rng, convex):
        Q = rng.uniform(-1, 1, (n, n))
        self.A = Q @ Q.T / n + .3 * onp.eye(n) if convex else Q + Q.T
        self.B, self.E = rng.uniform(-1, 1, (n, 4)), rng.uniform(-1, 1, (d, 4))
        self.c = onp.zeros(4) if convex else rng.uniform(-1, 1, 4)

    def __call__(self, xp, z, x):
        return 0.5 * xp.sum((z @ self.A) * z, -1) + xp.sin(z @ self.B + x @ self.E) @ self.c


def run_energy(case):
    import jax
    import jax.numpy as np
    import scipy.sparse as sps
    from jax_fem.problem import Problem
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    d, vec, order = rm.dim, case['vec'], order_of(rm)
    w = onp.random.default_rng(case['wseed'])
    Eg, Eu, Es = Energy(vec * d, d, w, case['convex']), Energy(vec, d, w, case['convex']), Energy(vec, d, w, case['convex'])
    ns = {'get_tensor_map': lambda self: lambda g, x: jax.grad(lambda z: Eg(np, z, x))(g.reshape(-1)).reshape(vec, d)}
    if 'u' in case['parts']:
        ns['get_mass_map'] = lambda self: lambda u, x, xi: jax.grad(lambda z: Eu(np, z, x))(u)
    if 's' in case['parts']:
        ns['get_surface_maps'] = lambda self: [lambda u, x: jax.grad(lambda z: Es(np, z, x))(u)]

    def custom_init(self):
        self.internal_vars = [self.fes[0].get_physical_quad_points()]
    ns['custom_init'] = custom_init
    p = type('EnergyProblem', (Problem,), ns)(fem.jmesh(rm), vec=vec, dim=d, ele_type=rm.ele, quadrature_order=order,
                                              location_fns=[sut.in_set_fn(rm.boundary_nodes)] if 's' in case['parts'] else None)
    x, N, g, JxW = rm.tabulate(order)
    faces = [(c,) + rm.tab_face(c, f, order)[:4] for c, f in covered(rm, rm.boundary_nodes)] if 's' in case['parts'] else []

    def total(u):
        uc = u[rm.cells]
        G = onp.einsum('cnv,cqnd->cqvd', uc, g).reshape(x.shape[:2] + (-1,))
        e = onp.sum(Eg(onp, G, x) * JxW)
        if 'u' in case['parts']:
            e = e + onp.sum(Eu(onp, onp.einsum('cnv,qn->cqv', uc, N), x) * JxW)
        for c, xf, Nf, gf, wf in faces:
            e = e + onp.sum(Es(onp, Nf @ u[rm.cells[c]], xf) * wf)
        return e
    u = rng.uniform(-1, 1, (len(rm.points), vec))
    r = onp.asarray(p.compute_residual([np.asarray(u)])[0])
    h = 1e-30
    if u.size <= 90:
        want = onp.zeros_like(u)
        for k in onp.ndindex(*u.shape):
            uc = u.astype(complex)
            uc[k] += 1j * h
            want[k] = total(uc).imag / h
        close(r, want, "residual against the gradient of the discrete energy", 1e-10, 0)
    else:
        for _ in range(6):
            v = rng.uniform(-1, 1, u.shape) * (rng.random(u.shape) < .5)
            close((r * v).sum(), total(u + 1j * h * v).imag / h, "directional derivative of the discrete energy", 0, 1e-10 * onp.abs(r * v).sum())
    n = u.size
    p.newton_update([np.asarray(u)])
    K = sps.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(n, n)).toarray()
    close(K, K.T, "symmetry of the tangent of an energy", 1e-11, 0)
    if case['convex']:
        ev = onp.linalg.eigvalsh((K + K.T) / 2)
        require(ev[0] >= -1e-10 * ev[-1], "the tangent of a convex energy has eigenvalue %.3g (largest %.3g)", ev[0], ev[-1])
    return {'nontrivial': True, 'labels': [rm.ele, f'vec={vec}', 'parts=' + '+'.join(case['parts']), f'convex={case["convex"]}'], 'observed': f'energy {total(u):.6g}'}


# -------------------------------------------------------------------------------------------------- rigid motions
@st.composite
def rigid_st(draw):
    return {'mesh': draw(mesh_st()), 'wseed': draw(st.integers(0, 1)), 'seed': draw(fem.seeds()), 'linear': draw(st.booleans()), 'amp': draw(st.sampled_from([.02, .2]))}


def run_rigid(case):
    import jax
    import jax.numpy as np
    import scipy.sparse as sps
    from jax_fem.problem import Problem
    from checks.c14 import rotation
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    d, order = rm.dim, order_of(rm)
    w = onp.random.default_rng(case['wseed'])
    m = d * (d + 1) // 2
    A = w.uniform(-1, 1, (m, m))
    A = A @ A.T / m + onp.eye(m)                      # anisotropic stiffness, positive definite
    iu = onp.triu_indices(d)
    B = w.uniform(-1, 1, (m, 3))

    def W(E):
        e = E[iu] * np.where(iu[0] == iu[1], 1., 2.)
        return 0.5 * e @ A @ e + (0. if case['linear'] else np.sum((e @ B)**3) + np.sum((e @ B)**4))

    def stress(g):
        if case['linear']:
            return jax.grad(W)((g + g.T) / 2)
        F = g + np.eye(d)
        S = jax.grad(W)((F.T @ F - np.eye(d)) / 2)
        return F @ ((S + S.T) / 2)
    if case['linear']:
        tmap = lambda g: (lambda S: (S + S.T) / 2)(stress(g))
    else:
        tmap = stress
    p = type('Rigid', (Problem,), {'get_tensor_map': lambda self: tmap})(fem.jmesh(rm), vec=d, dim=d, ele_type=rm.ele, quadrature_order=order)
    X, n = rm.points, rm.points.size
    L = onp.ptp(X, axis=0).max()
    R = rotation('any', d, rng)
    c = rng.uniform(-1, 1, d) * L
    res = lambda u: onp.asarray(p.compute_residual([np.asarray(u)])[0])
    u = case['amp'] * L * rng.uniform(-1, 1, X.shape) / max(2, len(X)**(1 / d))
    ref = onp.abs(res(u)).max()
    if case['linear']:
        S_ = rng.uniform(-1, 1, (d, d))
        rig = X @ (S_ - S_.T).T + c
        close(res(rig), onp.zeros_like(X), "forces under an infinitesimal rigid motion", 0, 1e-10 * ref * max(1., onp.abs(rig).max() / onp.abs(u).max()))
        close(res(u + rig), res(u), "forces with a superposed infinitesimal rigid motion", 0, 1e-10 * ref * max(1., onp.abs(rig).max() / onp.abs(u).max()))
    else:
        close(res(X @ R.T + c - X), onp.zeros_like(X), "forces under a rigid motion", 0, 1e-9 * ref + 1e-12)
        close(res((X + u) @ R.T + c - X), res(u) @ R.T, "forces under a superposed rotation", 0, 1e-9 * ref * (1 + 1 / case['amp']))
    p.newton_update([np.zeros(X.shape)])
    K = sps.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(n, n)).toarray()
    kmax = onp.abs(K).max()
    close(K, K.T, "symmetry of the elastic tangent", 1e-11, 0)
    for i in range(d):
        for j in range(i):
            S_ = onp.zeros((d, d))
            S_[i, j], S_[j, i] = 1., -1.
            close(K @ ((X - X.mean(0)) @ S_.T).reshape(-1), onp.zeros(n), "tangent times an infinitesimal rotation", 0, 1e-9 * kmax * L)
        t = onp.zeros(X.shape)
        t[:, i] = 1.
        close(K @ t.reshape(-1), onp.zeros(n), "tangent times a translation", 0, 1e-10 * kmax)
    ev = onp.linalg.eigvalsh((K + K.T) / 2)
    require(ev[0] >= -1e-9 * ev[-1], "the elastic tangent has eigenvalue %.3g (largest %.3g)", ev[0], ev[-1])
    return {'nontrivial': True, 'labels': [rm.ele, f'linear={case["linear"]}'], 'observed': f'force scale {ref:.4g}, eigenvalues {ev[0]:.2g}..{ev[-1]:.4g}'}


SUBS = {'balance': {'strategy': balance_st, 'run': run_balance, 'examples': {'quick': 88, 'thorough': 3000}, 'weight': 1.2},
        'energy': {'strategy': energy_st, 'run': run_energy, 'examples': {'quick': 72, 'thorough': 3000}, 'weight': 1.2},
        'rigid': {'strategy': rigid_st, 'run': run_rigid, 'examples': {'quick': 64, 'thorough': 2500}, 'weight': 1}}

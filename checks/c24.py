"""C24: geometry that is recomputed and differentiated."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models, sut
from pbt.core import require, close, Skip

RULE = """Random problems (one to three variables, all element families, curved cells, volume and surface terms, internal variables,
Dirichlet sets) whose node coordinates are replaced.  Sub 'history': a sequence of moves and returns with residual, tangent and solve after
each, against the NumPy problem on the moved mesh; at the end a problem is built afresh on the moved mesh and residual, tangent, geometry
tables and solution compared; returning to the first coordinates restores the first results.  Sub 'grad': gradient of a random functional
of the solution with respect to node coordinates (through the adjoint) and the forward derivative of the residual, in random directions,
against central differences of re-solved NumPy problems.  Non-trivial: the nodes move by at least a twentieth of a cell (history), the
gradient is at least 1e-6 (grad)."""
BUDGET_S = {'quick': 80, 'thorough': 1500}
CASE_CPU_S = 240
T = models.TEMPLATES
POOL = [T[0], T[2], T[3], T[4], T[5], T[7], T[8], T[9], T[10], T[12]]
GPOOL = [T[0], T[2], T[3], T[4], T[7], T[8], T[9], T[10], T[12]]
OPS = ['move', 'move', 'move', 'back', 'residual', 'tangent', 'solve']


@st.composite
def history_st(draw):
    c = draw(models.solvable_case(templates=POOL, max_bcs=2))
    c['ops'] = [['move', draw(fem.seeds())]] + [[draw(st.sampled_from(OPS)), draw(fem.seeds())] for _ in range(draw(st.integers(1, 5)))]
    return c


@st.composite
def grad_st(draw):
    c = draw(models.solvable_case(templates=GPOOL, max_bcs=2))
    c['pseed'] = draw(fem.seeds())
    c['moves'] = draw(st.integers(0, 1))
    return c


class Geo:
    """the node coordinates of every variable as linear functions of a parameter array"""

    def __init__(self, S):
        rm = S.rm
        self.rms = S.rms
        if len(S.rms) == 1 or all(r is rm for r in S.rms):
            self.Z0 = rm.points.copy()
            self.W = [onp.eye(len(rm.points))] * len(S.rms)
        else:
            nv = rm.ref.nv
            vs = sorted(set(rm.cells[:, :nv].reshape(-1).tolist()))
            at = {v: k for k, v in enumerate(vs)}
            lin = fem.ref({'quad': 'QUAD4', 'tri': 'TRI3', 'hex': 'HEX8', 'tet': 'TET4'}[rm.ref.shape])
            self.Z0 = rm.points[vs]
            self.W = []
            for r in S.rms:
                L = lin.vals(r.ref.nodes)
                W = onp.zeros((len(r.points), len(vs)))
                for c in range(len(r.cells)):
                    for i, n in enumerate(r.cells[c]):
                        W[n] = 0.
                        for v in range(nv):
                            W[n, at[int(rm.cells[c, v])]] += L[i, v]
                self.W.append(W)
        # straight-sided higher order meshes move with their vertices, so that the first coordinates are reproduced exactly
        self.base = [r.points - W @ self.Z0 for r, W in zip(S.rms, self.W)]

    def points(self, xp, Z):
        return [xp.asarray(W) @ Z + xp.asarray(b) for W, b in zip(self.W, self.base)]

    def move(self, rng, Z, size):
        """admissible random coordinates"""
        h = onp.ptp(Z, axis=0).max() * size
        for k in range(40):
            d = Z.shape[1]
            A = rng.normal(size=(d, d)) * .3
            new = Z + h * (rng.uniform(-1, 1, Z.shape) + onp.sin((Z - Z.mean(0)) @ A.T / h * .2))
            if all(fem.RefMesh(r.ele, p, r.cells).min_det()[0] > .15 * r.min_det()[0] for r, p in zip(self.rms, self.points(onp, new))):
                return new
            h *= .8
        raise Skip('no admissible move')


def on(S, case, geo, Z):
    """the reference setup on the coordinates Z with the selected sets of S"""
    pts = geo.points(onp, Z)
    rms = [fem.RefMesh(r.ele, p, r.cells) for r, p in zip(S.rms, pts)]
    S2 = models.Setup(case, build=False, rm=rms[0])
    S2.rms = rms
    S2.sel_nodes, S2.bcs = S.sel_nodes, S.bcs
    S2.ivs = S.ivs
    return S2


def prep(S, S2):
    """reference tables of S2, in the quadrature order found for S"""
    S2.vol_inv = S.vol_inv
    S2.tab = [r.tabulate(S.order) for r in S2.rms]
    S2.ivs_ref = S.ivs_ref
    S2.surf_ref = []
    for k, fl in enumerate(S.faces):
        lst = []
        for j, (c, f) in enumerate(fl):
            tabs = []
            for i, r in enumerate(S2.rms):
                X, N, g, w, _ = r.tab_face(c, f, S.order)
                if i:
                    q = sut.match(S.surf_ref[k][j][1][0][0], S.rms[i].tab_face(c, f, S.order)[0], "face quadrature", 1e-8)
                    X, N, g, w = X[q], N[q], g[q], w[q]
                tabs.append((X, N, g, w))
            lst.append((c, tabs, S.surf_ref[k][j][2]))
        S2.surf_ref.append(lst)
    return S2


def setup(case):
    S = models.Setup(case, build=False)
    # prescribed values are data of the sets, not of the coordinates
    S.bcs = [(v, n, c, onp.concatenate([0 * co[:-1], co[-1:]])) for v, n, c, co in S.bcs]
    S.problem = S.build()
    S.attach_surface_ivs()
    S.prepare_ref()
    return S


def tangent(p, u, n):
    import jax.numpy as np
    import scipy.sparse as sps
    p.newton_update([np.asarray(a) for a in u])
    return sps.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(n, n)).toarray()


def residual(p, u):
    import jax.numpy as np
    return [onp.asarray(a) for a in p.compute_residual([np.asarray(a) for a in u])]


OPT = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}


def solve(p):
    from jax_fem.solver import solver
    return [onp.asarray(s) for s in solver(p, OPT)]


def run_history(case):
    import jax.numpy as np
    S = setup(case)
    p = S.problem
    geo = Geo(S)
    n = int(S.offsets[-1])
    u = S.random_state()
    first = (residual(p, u), tangent(p, u, n))
    Z, far = geo.Z0, 0.
    size = .25 / max(2., len(S.rm.cells)**(1 / S.dim))
    log = []
    for k, (op, seed) in enumerate(case['ops']):
        rng = onp.random.default_rng(seed)
        what = f"operation {k} of {[o for o, _ in case['ops'][:k + 1]]}"
        if op in ('move', 'back'):
            Z = geo.move(rng, geo.Z0, size) if op == 'move' else geo.Z0
            far = max(far, float(onp.abs(Z - geo.Z0).max() / (onp.ptp(geo.Z0, axis=0).max() * size)))
            p.initialize_geometric_quantities([np.asarray(q) for q in geo.points(onp, Z)])
            if op == 'back':
                close(S.flat(residual(p, u)), S.flat(first[0]), f"residual back on the first coordinates ({what})", 1e-12, 0)
                close(tangent(p, u, n), first[1], f"tangent back on the first coordinates ({what})", 1e-12, 0)
        S2 = prep(S, on(S, case, geo, Z))
        if op != 'solve':
            v = [rng.uniform(-1, 1, a.shape) for a in u]
            close(S.flat(residual(p, v)), S2.flat(S2.ref_residual(v)), f"residual on moved coordinates ({what})", 1e-9, 0)
        if op == 'tangent':
            D = rng.normal(size=(n, 3))
            close(tangent(p, u, n) @ D, S2.ref_jvp(u, D), f"tangent on moved coordinates ({what})", 1e-9, 0)
        if op == 'solve':
            close(S.flat(solve(p)), models.ref_solve(S2), f"solution on moved coordinates ({what})", 1e-7, 1e-8)
        log.append(op)
    # a problem built afresh on the moved mesh
    S2 = on(S, case, geo, Z)
    q = S2.build()
    for k, (a, b) in enumerate(zip(p.boundary_inds_list, q.boundary_inds_list)):
        close(onp.asarray(a), onp.asarray(b), f"boundary set {k}", 0, 0)
    q.internal_vars_surfaces = p.internal_vars_surfaces
    for nm in ('JxW', 'shape_grads', 'v_grads_JxW', 'physical_quad_points'):
        close(onp.asarray(getattr(p, nm)), onp.asarray(getattr(q, nm)), f"{nm} after recomputation against a fresh problem", 1e-12, 0)
    for nm in ('selected_face_shape_grads', 'nanson_scale', 'selected_face_shape_vals', 'physical_surface_quad_points'):
        require(len(getattr(p, nm)) == len(getattr(q, nm)), "%s: %d sets after recomputation, %d expected", nm, len(getattr(p, nm)), len(getattr(q, nm)))
        for a, b in zip(getattr(p, nm), getattr(q, nm)):
            close(onp.asarray(a), onp.asarray(b), f"{nm} after recomputation against a fresh problem", 1e-12, 0)
    for i, (a, b) in enumerate(zip(p.fes, q.fes)):
        for nm in ('shape_grads', 'JxW'):
            close(onp.asarray(getattr(a, nm)), onp.asarray(getattr(b, nm)), f"{nm} of variable {i} after recomputation", 1e-12, 0)
    close(S.flat(residual(p, u)), S.flat(residual(q, u)), "residual after recomputation against a fresh problem", 1e-12, 0)
    close(tangent(p, u, n), tangent(q, u, n), "tangent after recomputation against a fresh problem", 1e-12, 0)
    close(S.flat(solve(p)), S.flat(solve(q)), "solution after recomputation against a fresh problem", 1e-8, 1e-9)
    return {'nontrivial': far > .2, 'labels': models.case_labels(case)[:4] + ['op=' + o for o in log] + [f"curved={case['mesh']['curve'] != 0.}"],
            'observed': f'{n} dofs, {log}, largest move {far:.2f} of a quarter cell'}


def run_grad(case):
    import jax
    import jax.numpy as np
    from jax.flatten_util import ravel_pytree
    from jax_fem.solver import ad_wrapper
    S = setup(case)
    p = S.problem
    geo = Geo(S)
    rng = onp.random.default_rng(case['pseed'])
    n = int(S.offsets[-1])
    size = .25 / max(2., len(S.rm.cells)**(1 / S.dim))
    Z = geo.Z0
    if case['moves']:
        Z = geo.move(rng, Z, size)
    direct = len(S.rms) == 1

    def set_params(params):
        pts = [params] if direct else geo.points(np, params)
        p.initialize_geometric_quantities(pts)
    p.set_params = set_params
    fwd = ad_wrapper(p, OPT, {'spsolve_solver': {}})
    w, a = rng.uniform(-1, 1, n), rng.uniform(.2, 1., n)

    def J(xp, v):
        return xp.sum(w * xp.sin(v) + a * v * v)
    val, g = jax.value_and_grad(lambda z: J(np, ravel_pytree(fwd(z))[0]))(np.asarray(Z))
    g = onp.asarray(g)
    require(g.shape == Z.shape and onp.isfinite(g).all(), "gradient of shape %s with non-finite entries" % (g.shape,))
    Sz = prep(S, on(S, case, geo, Z))
    u0 = models.ref_solve(Sz)
    close(float(val), J(onp, u0), "functional of the solution", 1e-7, 1e-7)
    L = onp.ptp(geo.Z0, axis=0).max()
    h = 1e-5 * L
    vs = rng.normal(size=(2,) + Z.shape)
    vs[1] = 0
    vs[1][rng.integers(len(Z)), rng.integers(Z.shape[1])] = 1.     # one coordinate of one node
    mag = 0.
    for V in vs:
        f = [J(onp, models.ref_solve(prep(S, on(S, case, geo, Z + s * h * V)))) for s in (2, 1, -1, -2)]
        fd = (8 * (f[1] - f[2]) - (f[0] - f[3])) / (12 * h)
        sc = onp.abs(g * V).sum()
        mag = max(mag, abs(fd))
        close(float((g * V).sum()), fd, "derivative of the functional with respect to node coordinates against re-solved problems", 1e-5, 1e-7, scale=sc)
    # the problem is usable afterwards, on these coordinates
    v = S.random_state()
    close(S.flat(residual(p, v)), Sz.flat(Sz.ref_residual(v)), "residual after the gradient", 1e-9, 0)
    # forward derivative of the residual
    sols = [np.asarray(x) for x in v]

    def R(z):
        set_params(z)
        return ravel_pytree(p.compute_residual(sols))[0]
    V = vs[0]
    _, dr = jax.jvp(R, (np.asarray(Z),), (np.asarray(V),))
    set_params(np.asarray(Z))
    rr = []
    for s in (2, 1, -1, -2):
        Q = prep(S, on(S, case, geo, Z + s * h * V))
        rr.append(Q.flat(Q.ref_residual(v)))
    close(onp.asarray(dr), (8 * (rr[1] - rr[2]) - (rr[0] - rr[3])) / (12 * h), "forward derivative of the residual with respect to node coordinates", 1e-6, 1e-8)
    return {'nontrivial': mag > 1e-6, 'labels': models.case_labels(case)[:4] + [f"curved={case['mesh']['curve'] != 0.}", f'moved first={case["moves"]}'],
            'observed': f'{n} dofs, directional derivative up to {mag:.4g}'}


SUBS = {'history': {'strategy': history_st, 'run': run_history, 'examples': {'quick': 56, 'thorough': 1500}, 'weight': 1.2},
        'grad': {'strategy': grad_st, 'run': run_grad, 'examples': {'quick': 48, 'thorough': 1500}, 'weight': 1.2}}

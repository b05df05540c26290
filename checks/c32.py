"""C32: solutions converge at the order of the element; error norms and nodal gradients report what they say."""
import itertools
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, Skip

RULE = """Sub 'rate': nonlinear reaction-diffusion with random smooth solutions, coefficients and boundary data (Dirichlet and flux sides) on smoothly
graded meshes of every element type at two resolutions: error against the interpolant on each mesh and order of convergence, both by independent
high-order quadrature.  Sub 'norm': the L2 and H1 error norms of the convergence example for random fields, exact fields and scalings.
Sub 'nodal': gradients at the nodes of distorted Lagrange cells.  Non-trivial: the solution is nowhere near the element space and a flux side exists."""
BUDGET_S = {'quick': 60, 'thorough': 900}
CASE_CPU_S = 240

N_OF = {'QUAD4': ([4, 4], [8, 8]), 'TRI3': ([4, 4], [8, 8]), 'QUAD8': ([3, 3], [6, 6]), 'TRI6': ([3, 3], [6, 6]),
        'HEX8': ([3, 3, 3], [6, 6, 6]), 'TET4': ([3, 3, 3], [6, 6, 6]), 'HEX20': ([2, 2, 2], [4, 4, 4]), 'TET10': ([2, 2, 2], [4, 4, 4]), 'HEX27': ([1, 1, 1], [2, 2, 2])}


def graded(ele, n, seed, amount, shuffle, dim):
    """unit box, smoothly graded, sides plane; refining keeps the grading"""
    rm = fem.make_mesh({'ele': ele, 'n': n, 'seed': seed, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': shuffle, 'flip': False})
    rng = onp.random.default_rng(seed)
    a = amount * rng.uniform(-1, 1, (dim, dim))
    G = rm.grid
    P = G.copy()
    for k in range(dim):
        s = onp.sin(onp.pi * G[:, k])
        o = onp.ones(len(G))
        for j in range(dim):
            o = o + (a[k, j] * onp.cos(onp.pi * G[:, j]) if j != k else 0.)
        P[:, k] = G[:, k] + .1 * amount * rng.choice([-1, 1]) * s * o
    r = rm.ref
    if len(r.nodes) > r.nv:
        W = fem.ref({'quad': 'QUAD4', 'tri': 'TRI3', 'hex': 'HEX8', 'tet': 'TET4'}[r.shape]).vals(r.nodes)
        for c in rm.cells:
            P[c] = W @ P[c[:r.nv]]
    out = fem.RefMesh(ele, P, rm.cells)
    require(out.min_det()[0] > 0, "harness: mesh is inverted")
    return out


class Field:
    def __init__(self, rng, dim, terms, wmax):
        self.w = rng.uniform(-wmax, wmax, (terms, dim))
        self.p = rng.uniform(0, 2 * onp.pi, terms)
        self.a = rng.uniform(.3, 1., terms) * rng.choice([-1, 1], terms)

    def val(self, xp, x):
        return (self.a * xp.sin(x @ self.w.T + self.p)).sum(-1)

    def grad(self, xp, x):
        return (self.a * xp.cos(x @ self.w.T + self.p)) @ self.w

    def lap(self, xp, x):
        return (-self.a * (self.w**2).sum(1) * xp.sin(x @ self.w.T + self.p)).sum(-1)


@st.composite
def rate_st(draw):
    ele = draw(st.sampled_from(list(N_OF)))
    return {'ele': ele, 'grade': draw(st.sampled_from([0., .5, 1.])), 'shuffle': draw(st.booleans()), 'seed': draw(fem.seeds()), 'flux': draw(st.integers(0, 2 * fem.ELE[ele][0] - 1)),
            'b': draw(st.sampled_from([0., 1.])), 'kvar': draw(st.sampled_from([0., .3]))}


def run_rate(case):
    import jax.numpy as np
    from jax_fem.problem import Problem
    from jax_fem.solver import solver
    ele = case['ele']
    dim, deg = fem.ELE[ele][0], fem.ELE[ele][5]
    rng = onp.random.default_rng(case['seed'])
    U = Field(rng, dim, 3, 2.5)
    kf = Field(rng, dim, 1, 2.)
    c0, b, kv, side = 1., case['b'], case['kvar'], case['flux']
    kfun = lambda xp, x: 1. + kv * kf.val(xp, x)
    sgn = 1. if side % 2 else -1.

    def load(x):
        return -(kv * (kf.grad(np, x) * U.grad(np, x)).sum(-1) + kfun(np, x) * U.lap(np, x)) + c0 * U.val(np, x) + b * U.val(np, x) ** 3

    class P(Problem):
        def get_tensor_map(self):
            return lambda g, k: k * g

        def get_mass_map(self):
            return lambda u, x, k: c0 * u + b * u**3 - load(x)

        def get_surface_maps(self):
            return [lambda u, x: -np.array([kfun(np, x) * sgn * U.grad(np, x)[side // 2]])]

    def on(s):
        return lambda point: np.isclose(point[s // 2], float(s % 2), atol=1e-6)

    errs = []
    for n in N_OF[ele]:
        rm = graded(ele, n, case['seed'], case['grade'], case['shuffle'], dim)
        others = [s for s in range(2 * dim) if s != side]
        p = P(fem.jmesh(rm), vec=1, dim=dim, ele_type=ele, dirichlet_bc_info=[[on(s) for s in others], [0] * len(others), [lambda point: U.val(np, point)] * len(others)],
              location_fns=[on(side)])
        p.internal_vars = [kfun(np, p.fes[0].get_physical_quad_points())]
        u = onp.asarray(solver(p, solver_options={'spsolve_solver': {}, 'tol': 1e-10})[0])[:, 0]
        x, N, G, JxW = rm.tabulate(6)
        tv, tg = U.val(onp, x), U.grad(onp, x)

        def norms(w):
            e = w[rm.cells] @ N.T - tv
            g = onp.einsum('ca,cqai->cqi', w[rm.cells], G) - tg
            return onp.sqrt((e**2 * JxW).sum()), onp.sqrt((g**2 * JxW[..., None]).sum())

        errs.append((norms(u), norms(U.val(onp, rm.points))))
    (l2, h1), (il2, ih1) = errs[1]
    for lev, ((a, c), (ia, ic)) in enumerate(errs):
        require(c <= 2. * ic + 1e-9, "%s mesh %s: gradient error %.4g, the interpolant's is %.4g", ele, N_OF[ele][lev], c, ic)
        require(a <= 6. * ia + 1e-9, "%s mesh %s: error %.4g, the interpolant's is %.4g", ele, N_OF[ele][lev], a, ia)
    rl, rh = onp.log2(errs[0][0][0] / l2), onp.log2(errs[0][0][1] / h1)
    il, ih = onp.log2(errs[0][1][0] / il2), onp.log2(errs[0][1][1] / ih1)
    # the interpolant's own order on these two meshes tells how far from the asymptotic range they are
    require(rh >= min(deg, ih) - .35, "%s: gradient error converges with order %.2f (interpolant %.2f)", ele, rh, ih)
    require(rl >= min(deg + 1, il) - .6, "%s: error converges with order %.2f (interpolant %.2f)", ele, rl, il)
    return {'nontrivial': True, 'labels': [ele, f"grade={case['grade']}"], 'observed': f"orders {rl:.2f} {rh:.2f} (interpolant {il:.2f} {ih:.2f}), ratios {l2 / il2:.2f} {h1 / ih1:.2f}"}


# ------------------------------------------------------------------------------------------------------------ norms

@st.composite
def norm_st(draw):
    return {'mesh': draw(fem.mesh_st(eles=['TET4', 'TET10', 'HEX8', 'HEX20', 'HEX27'], sizes={'hex': [(2, 1, 1)], 'tet': [(1, 1, 1)]})), 'seed': draw(fem.seeds()),
            'kind': draw(st.sampled_from(['random', 'random', 'inside', 'shift', 'ramp'])), 'vec': draw(st.sampled_from([1, 2, 3]))}


def run_norm(case):
    import jax.numpy as np
    m = app.load('/applications/convergence_rate/example.py', 'convergence_rate_example')
    rm = fem.make_mesh(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    p = m.LinearPoisson(fem.jmesh(rm), vec=1, dim=3, ele_type=rm.ele)
    n = len(rm.points)
    U = Field(rng, 3, 3, 3.)
    a, g0 = float(rng.normal()), rng.normal(size=3)
    lin = lambda x: a + x @ g0
    kind = case['kind']
    x, N, G, JxW = rm.tabulate()
    if kind in ('inside', 'shift', 'ramp'):
        true, tv, tg = (lambda q: np.array([a + q @ np.asarray(g0)])), lin(x), onp.broadcast_to(g0, x.shape)
        w = lin(rm.points)
    else:
        true, tv, tg = (lambda q: np.array([U.val(np, q)])), U.val(onp, x), U.grad(onp, x)
        w = rng.normal(size=n)
    if kind == 'shift':
        w = w + 2.
    h = rng.normal(size=3)
    if kind == 'ramp':
        w = w + rm.points @ h
    l2, h1 = float(p.compute_l2_norm_error(np.asarray(w[:, None]), true)), float(p.compute_h1_norm_error(np.asarray(w[:, None]), true))
    e = w[rm.cells] @ N.T - tv
    ge = onp.einsum('ca,cqai->cqi', w[rm.cells], G) - tg
    rl, rg = onp.sqrt((e**2 * JxW).sum()), onp.sqrt((ge**2 * JxW[..., None]).sum())
    size = onp.sqrt(JxW.sum()) * (onp.abs(w).max() + 1)
    gs = onp.sqrt(JxW.sum()) * onp.abs(G).max() * (onp.abs(w).max() + 1)
    close(l2, rl, "L2 error", rtol=1e-8, atol=1e-10 * size)
    close(h1, rl + rg, "H1 error", rtol=1e-8, atol=1e-10 * (size + gs))
    V = JxW.sum()
    if case['vec'] > 1:                                  # vector fields: the squares of all components add up
        v = case['vec']
        pv = m.LinearPoisson(fem.jmesh(rm), vec=v, dim=3, ele_type=rm.ele)
        W, B = onp.column_stack([w] + [rng.normal(size=n) for _ in range(v - 1)]), rng.normal(size=(v - 1, 4))
        tvec = lambda q: np.concatenate([true(q), np.asarray(B[:, 0]) + np.asarray(B[:, 1:]) @ q])
        E = onp.stack([e] + [W[rm.cells, k + 1] @ N.T - B[k, 0] - x @ B[k, 1:] for k in range(v - 1)], -1)
        GE = onp.stack([ge] + [onp.einsum('ca,cqai->cqi', W[rm.cells, k + 1], G) - B[k, 1:] for k in range(v - 1)], -2)
        al, ag = onp.sqrt((E**2 * JxW[..., None]).sum()), onp.sqrt((GE**2 * JxW[..., None, None]).sum())
        close(float(pv.compute_l2_norm_error(np.asarray(W), tvec)), al, f"L2 error of a field with {v} components", rtol=1e-8, atol=1e-10 * size)
        close(float(pv.compute_h1_norm_error(np.asarray(W), tvec)), al + ag, f"H1 error of a field with {v} components", rtol=1e-8, atol=1e-10 * (size + gs))
    if kind == 'inside':
        require(l2 <= 1e-9 * size and h1 <= 1e-9 * (size + gs), "errors of an exact field are %.3g and %.3g", l2, h1)
    if kind == 'shift':
        close(l2, 2 * onp.sqrt(V), "L2 error of a shift by two", rtol=1e-8)
        close(h1, l2, "H1 error of a shift", rtol=1e-8, atol=1e-9 * gs)
    if kind == 'ramp':
        close(h1 - l2, onp.linalg.norm(h) * onp.sqrt(V), "gradient error of a ramp", rtol=1e-8, atol=1e-9 * gs)
    # the load of the example is the Laplacian of its solution
    if kind == 'random':
        y = rng.uniform(0, 1, 3)
        want = 1e2 * ((y[0] - .5) ** 3 + 2 * (y[1] - .5) ** 3 + 1e1 * onp.exp(-(y[2] - .5) ** 2))
        close(onp.asarray(m.true_u_fn(np.asarray(y)))[0], want, "example solution", rtol=1e-12)
        s = y[2] - .5
        lap = 1e2 * (6 * (y[0] - .5) + 12 * (y[1] - .5) + 1e1 * (4 * s**2 - 2) * onp.exp(-s**2))
        close(onp.asarray(p.get_mass_map()(np.zeros(1), np.asarray(y)))[0], lap, "example load", rtol=1e-10, atol=1e-8)
    return {'nontrivial': kind != 'inside', 'labels': [rm.ele, kind], 'observed': f"L2 {l2:.4g}, H1 {h1:.4g}"}


# ------------------------------------------------------------------------------------------------------ nodal gradients

@st.composite
def nodal_st(draw):
    return {'mesh': draw(fem.mesh_st(eles=[e for e in fem.ALL_ELES if e not in ('QUAD8', 'HEX20')], sizes={'quad': [(2, 1)], 'tri': [(2, 1)], 'hex': [(1, 1, 1), (2, 1, 1)], 'tet': [(1, 1, 1)]})), 'seed': draw(fem.seeds())}


_order = {}


def run_nodal(case):
    from jax_fem.problem import Problem
    m = app.load('/applications/nodal_stress/example.py', 'nodal_stress_example')
    rm = fem.make_mesh(case['mesh'])
    rng = onp.random.default_rng(case['seed'])

    class P(Problem):
        def get_tensor_map(self):
            return lambda g: g

    p = P(fem.jmesh(rm), vec=1, dim=rm.dim, ele_type=rm.ele)
    got = onp.asarray(m.get_shape_grads_physical(p))
    r = rm.ref
    nn = len(r.nodes)
    require(got.shape == (len(rm.cells), nn, nn, rm.dim), "gradients have shape %s", got.shape)
    dN = r.grads(r.nodes)
    X = rm.points[rm.cells]
    J = onp.einsum('cni,qnj->cqij', X, dN)
    want = onp.einsum('qnj,cqji->cqni', dN, onp.linalg.inv(J))
    sc = onp.abs(want).max()
    # the evaluation points are the nodes of the cell, listed in some order that depends on the element type only
    D = onp.abs(got[:, :, None] - want[:, None]).max((0, 3, 4))
    ok = D < 1e-7 * sc
    if rm.ele in fem.SIMPLEX and fem.ELE[rm.ele][5] == 1:
        require(ok.all(), "constant gradient is wrong by %.3g", D.max())
    else:
        perm = D.argmin(1)
        require(ok[onp.arange(nn), perm].all() and len(set(perm.tolist())) == nn, "gradients at the nodes are wrong by %.3g (scale %.3g)", D.min(1).max(), sc)
        if rm.ele in _order and (ok.sum(1) == 1).all():
            require((perm == _order[rm.ele]).all(), "the order of the nodes changes between meshes of %s", rm.ele)
        elif (ok.sum(1) == 1).all():
            _order[rm.ele] = perm
    # linear fields have their own gradient, everywhere
    g = rng.normal(size=rm.dim)
    w = rm.points @ g
    gr = onp.einsum('cn,cqni->cqi', w[rm.cells], got)
    close(gr, onp.broadcast_to(g, gr.shape), "gradient of a linear field", rtol=1e-7, atol=1e-9 * sc * onp.abs(w).max())
    return {'nontrivial': not fem.is_affine(case['mesh']) or r.degree > 1, 'labels': [rm.ele], 'observed': f"{len(rm.cells)} cells"}


SUBS = {
    'rate': {'strategy': rate_st, 'run': run_rate, 'examples': {'quick': 40, 'thorough': 800}, 'weight': 2.},
    'norm': {'strategy': norm_st, 'run': run_norm, 'examples': {'quick': 60, 'thorough': 1500}, 'weight': .8},
    'nodal': {'strategy': nodal_st, 'run': run_nodal, 'examples': {'quick': 80, 'thorough': 2000}, 'weight': .6},
}

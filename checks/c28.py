"""C28: phase-field fracture (applications/phase_field_fracture/example.py)."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, Skip, Violation

RULE = """Sub 'point': batches of strains (tension, compression, shear, mixed signs, repeated principal strains, six decades) and damage values:
energy split, degraded stress, their derivative relation, bounds.  Sub 'fields': random displacement and damage fields on distorted quadrilateral
meshes: history update over a sequence of states, traction post-processing, the assembled damage equation.  Sub 'staggered': load histories with
unloading and reversal run through the staggered scheme; every half-step is judged against NumPy.  Non-trivial: principal strains of both signs
with damage between 0 and 1 ('point'); a history with a decrease of the load ('fields', 'staggered')."""
BUDGET_S = {'quick': 120, 'thorough': 900}
CASE_CPU_S = 200
B = 24


def mod():
    return app.load('/applications/phase_field_fracture/example.py', 'phase_field_fracture_example', defs_only=True)


def pos(x):
    return onp.maximum(x, 0.)


def split(e, m):
    """(psi_plus, sigma_plus, psi_minus, sigma_minus) by the spectral decomposition"""
    w, V = onp.linalg.eigh(e)
    tr = onp.trace(e, axis1=-2, axis2=-1)
    I = onp.eye(e.shape[-1])
    out = []
    for s in (1., -1.):
        t, v = s * pos(s * tr), s * pos(s * w)
        out += [m.lmbda / 2 * t**2 + m.mu * (v**2).sum(-1), m.lmbda * t[..., None, None] * I + 2 * m.mu * onp.einsum('...ia,...a,...ja->...ij', V, v, V)]
    return out


def sym(H):
    return .5 * (H + onp.swapaxes(H, -1, -2))


_c = {}


def mesh0():
    return fem.make_mesh({'ele': 'QUAD4', 'n': [1, 1], 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': False})


def maps():
    if 'm' not in _c:
        import jax
        p = mod().Elasticity(fem.jmesh(mesh0()), vec=2, dim=2, ele_type='QUAD4')
        psi, sig = p.get_maps()
        T = p.get_tensor_map()
        _c['m'] = (jax.jit(jax.vmap(psi)), jax.jit(jax.vmap(sig)), jax.jit(jax.vmap(T)), jax.jit(jax.vmap(jax.jacfwd(T))))
    return _c['m']


@st.composite
def point_st(draw):
    return {'kind': draw(st.sampled_from(['mixed', 'mixed', 'tension', 'compression', 'shear', 'equal', 'uniaxial', 'zero'])), 'amp': draw(st.sampled_from([-6., -4., -3., -2., -1.])),
            'd': draw(st.sampled_from(['random', 'random', 'intact', 'broken', 'outside'])), 'seed': draw(fem.seeds())}


def run_point(case):
    import jax.numpy as np
    m = mod()
    rng = onp.random.default_rng(case['seed'])
    a = 10. ** case['amp'] * rng.uniform(.3, 1., (B, 2))
    k = case['kind']
    w = {'mixed': a * rng.choice([-1., 1.], (B, 2)), 'tension': a, 'compression': -a, 'shear': a[:, :1] * onp.array([[1., -1.]]),
         'equal': a[:, :1] * onp.array([[1., 1.]]) * rng.choice([-1., 1.], (B, 1)), 'uniaxial': a * onp.array([[1., 0.]]) * rng.choice([-1., 1.], (B, 1)),
         'zero': 0 * a}[k]
    t = rng.uniform(-onp.pi, onp.pi, B)
    V = onp.stack([onp.stack([onp.cos(t), -onp.sin(t)], -1), onp.stack([onp.sin(t), onp.cos(t)], -1)], 1)
    e = onp.einsum('bia,ba,bja->bij', V, w, V)
    spin = 10. ** case['amp'] * rng.uniform(-1, 1, B)
    H = e + spin[:, None, None] * onp.array([[0., 1.], [-1., 0.]])
    d = {'random': rng.uniform(0, 1, (B, 1)), 'intact': onp.zeros((B, 1)), 'broken': onp.ones((B, 1)), 'outside': rng.uniform(-.02, 1.02, (B, 1))}[case['d']]
    psi, sig, T, J = maps()
    p = onp.asarray(psi(np.asarray(H)))
    s = onp.asarray(sig(np.asarray(H), np.asarray(d)))
    s2 = onp.asarray(T(np.asarray(H), np.asarray(d)))
    pp, sp, pm, sm = split(e, m)
    g = (1 - d[:, 0]) ** 2
    amp = 10. ** case['amp']
    M = m.lmbda + 2 * m.mu
    close(p, pp, "tensile energy", rtol=1e-9, atol=1e-13 * M)
    require((p >= 0).all(), "negative tensile energy")
    # the stress perturbs the strain by up to 1e-8 to keep principal strains apart
    want = g[:, None, None] * sp + sm
    close(s, want, "degraded stress", rtol=1e-8, atol=4e-8 * M)
    close(s2, s, "the tensor map is not the stress", rtol=1e-12, atol=1e-12)
    close(s, onp.swapaxes(s, 1, 2), "stress is not symmetric", rtol=1e-9, atol=1e-9 * M)
    if case['d'] == 'intact':
        close(s, m.lmbda * onp.trace(e, axis1=1, axis2=2)[:, None, None] * onp.eye(2) + 2 * m.mu * e, "undamaged stress is not Hooke's law", rtol=1e-8, atol=4e-8 * M)
    jac = onp.asarray(J(np.asarray(H), np.asarray(d)))
    require(onp.isfinite(jac).all(), "the tangent is not finite")
    gap = onp.abs(w[:, 0] - w[:, 1]).min()
    if gap > 1e-5 and onp.abs(w).min() > 1e-5 and onp.abs(w.sum(1)).min() > 1e-5:
        h = 1e-6
        D = rng.normal(size=H.shape)
        D /= onp.abs(D).max((1, 2), keepdims=True)
        A = [split(sym(H + q * h * D), m) for q in (1, -1)]
        fd = sum(q * (g[:, None, None] * r[1] + r[3]) for q, r in zip((1, -1), A)) / (2 * h)
        close(onp.einsum('bijkl,bkl->bij', jac, D), fd, "tangent of the degraded stress", rtol=1e-4, atol=1e-5 * M)
    both = ((w[:, 0] * w[:, 1]) < 0).any()
    return {'nontrivial': bool(both and case['d'] == 'random'), 'labels': [k, case['d'], f"amp={case['amp']}"], 'observed': f"psi up to {p.max():.3g}"}


# ----------------------------------------------------------------------------------------------------- fields

def square(desc):
    rm = fem.make_mesh(desc)
    P = rm.points.copy()
    for k in range(2):
        P[rm.grid[:, k] < 1e-9, k] = 0.
        P[rm.grid[:, k] > 1 - 1e-9, k] = 1.
    out = fem.RefMesh(rm.ele, P - .5, rm.cells)
    return out if out.min_det()[0] > 1e-4 else fem.RefMesh(rm.ele, rm.grid - .5, rm.cells)


@st.composite
def mesh_desc(draw):
    return {'ele': 'QUAD4', 'n': draw(st.sampled_from([[2, 2], [3, 2]])), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
            'jitter': draw(st.sampled_from([0., .2])), 'curve': 0., 'affine': False, 'shuffle': draw(st.booleans())}


@st.composite
def fields_st(draw):
    return {'mesh': draw(mesh_desc()), 'seed': draw(fem.seeds()), 'amps': draw(st.lists(st.sampled_from([1e-4, 1e-3, -1e-3, 1e-2, -1e-2, 0.]), min_size=1, max_size=4))}


@st.composite
def stag_st(draw):
    return {'mesh': draw(mesh_desc()), 'seed': draw(fem.seeds()),
            'disps': draw(st.lists(st.sampled_from([1e-3, 3e-3, 6e-3, 1e-2, 0., -3e-3]), min_size=2, max_size=4)), 'inner': draw(st.sampled_from([1, 2])),
            'crack': draw(st.booleans())}


def problems(rm):
    m = mod()
    m.dirichlet_bc_info[-1][-1] = m.get_dirichlet_load(0.)
    pd = m.PhaseField(fem.jmesh(rm), vec=1, dim=2, ele_type='QUAD4')
    pu = m.Elasticity(fem.jmesh(rm), vec=2, dim=2, ele_type='QUAD4', dirichlet_bc_info=m.dirichlet_bc_info)
    return m, pd, pu


def grads(rm, u):
    x, N, G, JxW = rm.tabulate()
    return onp.einsum('cni,cqnj->cqij', u[rm.cells], G), N, G, JxW


def ref_traction(rm, m, u, d):
    out = onp.zeros(2)
    for k, (c, f) in rm.boundary:
        if all(abs(rm.points[v, 1] - .5) < 1e-9 for v in k):
            x, N, g, w, n = rm.tab_face(c, f)
            e = sym(onp.einsum('ni,qnj->qij', u[rm.cells[c]], g))
            _, sp, _, sm = split(e, m)
            s = ((1 - N @ d[rm.cells[c], 0]) ** 2)[:, None, None] * sp + sm
            out += onp.einsum('qij,j,q->i', s, onp.array([0., 1.]), w)
    return out


def ref_damage(rm, m, hist):
    """assemble and solve  Gc l (grad d, grad v) + (Gc/l + 2H) (d, v) = (2H, v)"""
    x, N, G, JxW = rm.tabulate()
    n = len(rm.points)
    K, F = onp.zeros((n, n)), onp.zeros(n)
    for c, ids in enumerate(rm.cells):
        K[onp.ix_(ids, ids)] += m.G_c * m.l * onp.einsum('qai,qbi,q->ab', G[c], G[c], JxW[c]) + onp.einsum('qa,qb,q->ab', N, N, (m.G_c / m.l + 2 * hist[c]) * JxW[c])
        F[ids] += onp.einsum('qa,q->a', N, 2 * hist[c] * JxW[c])
    return K, F


def run_fields(case):
    import jax.numpy as np
    rm = square(case['mesh'])
    m, pd, pu = problems(rm)
    rng = onp.random.default_rng(case['seed'])
    x, N, G, JxW = rm.tabulate()
    n = len(rm.points)
    hist = onp.zeros(JxW.shape)
    drop = False
    for k, a in enumerate(case['amps']):
        u = a * (onp.stack([.3 * rm.points[:, 1], rm.points[:, 1] + .5], 1) + .5 * rng.uniform(-1, 1, (n, 2)))
        d = rng.uniform(0, 1, (n, 1))
        H = grads(rm, u)[0]
        psi = split(sym(H), m)[0]
        new = onp.asarray(pu.compute_history(np.asarray(u), np.asarray(hist)))
        close(new, onp.maximum(psi, hist), f"history after state {k + 1}", rtol=1e-9, atol=1e-15)
        require((new >= hist).all(), "the history field decreases")
        drop = drop or bool((psi < hist - 1e-12).any())
        hist = new
        tr = onp.asarray(pu.compute_traction(m.top, np.asarray(u), np.asarray(d)))
        want = ref_traction(rm, m, u, d)
        close(tr, want, "traction on the top edge", rtol=1e-7, atol=1e-6, scale=abs(a) * m.E)
        # damage equation at this state
        pd.set_params(np.asarray(hist))
        K, F = ref_damage(rm, m, hist)
        r = onp.asarray(pd.compute_residual([np.asarray(d)])[0])
        close(r[:, 0], K @ d[:, 0] - F, "residual of the damage equation", rtol=1e-10, atol=1e-13, scale=onp.abs(K).max())
        # momentum balance at this state, with the damage and load of set_params
        pu.set_params([np.asarray(d), a])
        _, sp, _, sm = split(sym(H), m)
        dq = d[rm.cells, 0] @ N.T
        s = ((1 - dq) ** 2)[..., None, None] * sp + sm
        R = onp.zeros((n, 2))
        onp.add.at(R, rm.cells, onp.einsum('cqij,cqnj,cq->cni', s, G, JxW))
        r = onp.asarray(pu.compute_residual([np.asarray(u)])[0])
        close(r, R, "internal force of the damaged solid", rtol=1e-7, atol=1e-5)
        vals = {int(i): float(v) for ids, cs, vs in zip(pu.fes[0].node_inds_list, pu.fes[0].vec_inds_list, pu.fes[0].vals_list)
                for i, c, v in zip(onp.asarray(ids), onp.asarray(cs), onp.asarray(vs)) if c == 1 and rm.points[int(i), 1] > 0}
        want = {i: a for i in range(n) if abs(rm.points[i, 1] - .5) < 1e-9}
        require(set(vals) == set(want) and all(abs(vals[i] - a) < 1e-12 for i in want), "set_params(disp=%r) prescribes %s at the top edge", a, vals)
    return {'nontrivial': drop, 'labels': [f"states={len(case['amps'])}"], 'observed': f"history up to {hist.max():.3g}"}


def run_staggered(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    rm = square(case['mesh'])
    m, pd, pu = problems(rm)
    rng = onp.random.default_rng(case['seed'])
    x, N, G, JxW = rm.tabulate()
    n = len(rm.points)
    bot, top = rm.points[:, 1] < -.5 + 1e-9, rm.points[:, 1] > .5 - 1e-9
    bl = bot & (rm.points[:, 0] < -.5 + 1e-9)
    free = onp.ones((n, 2), bool)
    free[bot | top, 1] = False
    free[bl, 0] = False
    hist_old = onp.zeros(JxW.shape)
    if case['crack']:
        hist_old[rng.integers(len(rm.cells))] = 5.
    sol_d = onp.zeros((n, 1))
    drop, dmax = False, 0.
    opt = {'spsolve_solver': {}}
    for k, disp in enumerate(case['disps']):
        for _ in range(case['inner']):
            pu.set_params([np.asarray(sol_d), disp])
            u = onp.asarray(solver(pu, solver_options=opt)[0])
            require(onp.isfinite(u).all(), "displacement is not finite")
            close(u[top, 1], onp.full(int(top.sum()), disp), "displacement of the top edge", atol=1e-8)
            close(u[bot, 1], onp.zeros(int(bot.sum())), "displacement of the bottom edge", atol=1e-8)
            close(u[bl, 0], onp.zeros(1), "displacement of the corner", atol=1e-8)
            e = sym(grads(rm, u)[0])
            pp, sp, pm, sm = split(e, m)
            dq = sol_d[rm.cells, 0] @ N.T
            s = ((1 - dq) ** 2)[..., None, None] * sp + sm
            R = onp.zeros((n, 2))
            onp.add.at(R, rm.cells, onp.einsum('cqij,cqnj,cq->cni', s, G, JxW))
            close(R[free], 0 * R[free], f"out-of-balance force in step {k + 1}", atol=2e-5)
            hist = onp.asarray(pu.compute_history(np.asarray(u), np.asarray(hist_old)))
            close(hist, onp.maximum(pp, hist_old), f"history in step {k + 1}", rtol=1e-9, atol=1e-15)
            pd.set_params(np.asarray(hist))
            sol_d = onp.asarray(solver(pd, solver_options=opt)[0])
            K, F = ref_damage(rm, m, hist)
            close(sol_d[:, 0], onp.linalg.solve(K, F), f"damage in step {k + 1}", rtol=1e-6, atol=1e-8)
        drop = drop or bool((pp < hist_old - 1e-12).any())
        hist_old = hist
        dmax = max(dmax, float(sol_d.max()))
        close(onp.asarray(pu.compute_traction(m.top, np.asarray(u), np.asarray(sol_d))), ref_traction(rm, m, u, sol_d), "traction on the top edge", rtol=1e-6, atol=1e-5)
    return {'nontrivial': drop and dmax > .02, 'labels': ['crack' if case['crack'] else 'intact', 'damaged' if dmax > .2 else 'mild'],
            'observed': f"damage up to {dmax:.3g}, history up to {hist_old.max():.3g}"}


SUBS = {
    'point': {'strategy': point_st, 'run': run_point, 'examples': {'quick': 1200, 'thorough': 20000}, 'weight': .7},
    'fields': {'strategy': fields_st, 'run': run_fields, 'examples': {'quick': 160, 'thorough': 1500}, 'weight': 1.},
    'staggered': {'strategy': stag_st, 'run': run_staggered, 'examples': {'quick': 96, 'thorough': 800}, 'weight': 1.2},
}

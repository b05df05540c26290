"""C26: updated Lagrangian stepping (applications/updated_lagrangian/example.py)."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, Skip

RULE = """Each case draws a mesh of the bar (hexahedra or tetrahedra, distorted, renumbered), a load (shortening and twist), a number of
updated-Lagrangian steps and a density field with voids, and runs the example's end_to_end_ul.  The accumulated displacement must satisfy
the total-Lagrangian equilibrium (assembled in NumPy on the undeformed mesh) and the boundary values; the accumulated deformation gradients must
be I + grad u; the result must not depend on the number of steps; the gradient of the objective with respect to every density must equal the
total-Lagrangian adjoint gradient.  Non-trivial: more than one step, twist, non-uniform density."""
BUDGET_S = {'quick': 90, 'thorough': 900}
CASE_CPU_S = 200


def mod():
    return app.load('/applications/updated_lagrangian/example.py', 'updated_lagrangian_example')


@st.composite
def case_st(draw):
    ele = draw(st.sampled_from(['HEX8', 'HEX8', 'TET4']))
    return {'mesh': {'ele': ele, 'n': draw(st.sampled_from([[2, 1, 1], [3, 1, 1]] if ele == 'HEX8' else [[2, 1, 1]])), 'seed': draw(fem.seeds()),
                     'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .1, .2])), 'curve': 0., 'affine': False,
                     'shuffle': draw(st.booleans())},
            'steps': draw(st.sampled_from([1, 2, 2, 3])), 'lam': draw(st.sampled_from([.1, .2, .3])), 'pull': draw(st.sampled_from([-.1, .2, 0., -.3])),
            'rho': draw(st.sampled_from(['uniform', 'random', 'random', 'voids', 'outside'])), 'seed': draw(fem.seeds())}


def bar(case):
    rm = fem.make_mesh(case['mesh'])
    P = rm.grid.copy()
    d = rm.points - rm.grid
    left, right = P[:, 0] < 1e-9, P[:, 0] > 1 - 1e-9
    Q = P + d
    Q[left, 0], Q[right, 0] = 0., 1.
    if (Q[~(left | right), 0] < .05).any() or (Q[~(left | right), 0] > .95).any():
        Q = P
    Q = onp.stack([Q[:, 0], .2 * (Q[:, 1] - .5), .2 * (Q[:, 2] - .5)], 1)
    out = fem.RefMesh(rm.ele, Q, rm.cells)
    return out if out.min_det()[0] > 0 else fem.RefMesh(rm.ele, onp.stack([P[:, 0], .2 * (P[:, 1] - .5), .2 * (P[:, 2] - .5)], 1), rm.cells)


def stress(m, u_grad, rho):
    """first Piola-Kirchhoff stress of the total description, and the density-free part"""
    F = u_grad + onp.eye(3)
    J = onp.linalg.det(F)
    Fi = onp.linalg.inv(F)
    tau = m.MU * (F @ onp.swapaxes(F, -1, -2) - onp.eye(3)) + m.LAMBDA * onp.log(J)[..., None, None] * onp.eye(3)
    return tau @ onp.swapaxes(Fi, -1, -2)


def tangent(m, u_grad):
    """dP_ij / dF_kl"""
    F = u_grad + onp.eye(3)
    J = onp.linalg.det(F)
    Fi = onp.linalg.inv(F)
    I = onp.eye(3)
    A = m.MU * onp.einsum('ik,jl->ijkl', I, I) + m.LAMBDA * onp.einsum('...ji,...lk->...ijkl', Fi, Fi)
    return A + (m.MU - m.LAMBDA * onp.log(J))[..., None, None, None, None] * onp.einsum('...li,...jk->...ijkl', Fi, Fi)




def run(case):
    import jax
    import jax.numpy as jnp
    from jax_fem.solver import ad_wrapper
    m = mod()
    rm = bar(case)
    rng = onp.random.default_rng(case['seed'])
    nc = len(rm.cells)
    rho = {'uniform': onp.full(nc, .7), 'random': rng.uniform(.3, 1., nc), 'voids': onp.where(rng.uniform(size=nc) < .3, .1, rng.uniform(.5, 1., nc)),
           'outside': rng.uniform(.3, 1., nc)}[case['rho']]
    if case['rho'] == 'outside':
        rho[rng.integers(nc)] = 1.3                    # beyond the admissible range: treated as full material
    keep = (m.N_STEPS, m.LOAD_SCHEDULE_STEPS, m.RIGHT_PULL)
    n = case['steps']
    try:
        m.N_STEPS, m.LOAD_SCHEDULE_STEPS, m.RIGHT_PULL = n, n / case['lam'], case['pull']
        tags = m.boundary_node_tags(rm.points)
        want = onp.where(onp.abs(rm.points[:, 0]) < 1e-8, 1, onp.where(onp.abs(rm.points[:, 0] - 1) < 1e-8, 2, 0))
        require((onp.asarray(tags) == want).all(), "boundary tags are wrong")
        p = m.UpdatedLagrangian(mesh=fem.jmesh(rm), vec=3, dim=3, ele_type=rm.ele, dirichlet_bc_info=m.build_dirichlet_bc_by_tag(tags),
                                location_fns=None, additional_info=(tags,))
        fe0 = p.fes[0]
        pred = ad_wrapper(p, solver_options={'spsolve_solver': {}, 'tol': 1e-10, 'rel_tol': 1e-10}, adjoint_solver_options={'spsolve_solver': {}})
        f = lambda r: m.end_to_end_ul(r, p, fe0, pred, aut=True)
        (J, aux), g = jax.value_and_grad(f, has_aux=True)(jnp.asarray(rho))
        # the accumulated deformation gradient of the same history
        dus = onp.asarray(aux['delta_us'])
        Fp = jnp.broadcast_to(jnp.eye(3), fe0.shape_grads.shape[:2] + (3, 3))
        acc = onp.zeros_like(rm.points)
        for du in dus:
            Fp = m.push_F_prev(fe0, jnp.asarray(rm.points + acc), jnp.asarray(du), Fp)
            acc = acc + du
    finally:
        m.N_STEPS, m.LOAD_SCHEDULE_STEPS, m.RIGHT_PULL = keep
    J, g = float(J), onp.asarray(g)
    require(dus.shape == (n,) + rm.points.shape, "the history has shape %s", dus.shape)
    require(onp.isfinite(dus).all() and onp.isfinite(g).all(), "displacements or gradient are not finite")
    u = dus.sum(0)
    # boundary values
    th = case['lam'] * onp.pi
    P0 = rm.points
    y, z = P0[:, 1], P0[:, 2]
    rot = onp.stack([onp.full(len(P0), case['lam'] * case['pull']), y * (onp.cos(th) - 1) - z * onp.sin(th), y * onp.sin(th) + z * (onp.cos(th) - 1)], 1)
    close(u[want == 1], onp.zeros((int((want == 1).sum()), 3)), "displacement of the clamped end", atol=1e-9)
    close(u[want == 2], rot[want == 2], "displacement of the turned end", atol=1e-9)
    # equilibrium of the total description
    x, N, G, JxW = rm.tabulate()
    ug = onp.einsum('cni,cqnj->cqij', u[rm.cells], G)
    if not (onp.linalg.det(ug + onp.eye(3)) > 1e-3).all():
        raise Skip('the equilibrium that was found is folded over (the example clamps the determinant)')
    close(onp.asarray(Fp), ug + onp.eye(3), "accumulated deformation gradient", rtol=1e-9, atol=1e-9)
    rc = onp.clip(rho, m.RHO_MIN, 1.)
    s = rc ** m.SIMP_P
    P = stress(m, ug, None)
    fc = onp.einsum('cqij,cqnj,cq->cni', P, G, JxW)                   # per cell, unscaled
    R, mag = onp.zeros_like(P0), onp.zeros(len(P0))
    for c in range(nc):
        onp.add.at(R, rm.cells[c], s[c] * fc[c])
    big = onp.abs(s[:, None, None] * fc).max() + 1e-12
    free = want == 0
    close(R[free], onp.zeros((int(free.sum()), 3)), f"out-of-balance force of the total description after {n} steps", atol=1e-7 * max(big, 1e-3) + 1e-9)
    close(J, (u ** 2).sum(), "objective", rtol=1e-9, atol=1e-12)
    # adjoint gradient of the total description
    A = tangent(m, ug)
    nd = 3 * len(P0)
    K = onp.zeros((nd, nd))
    Kc = onp.einsum('cqijkl,cqnj,cqml,cq,c->cnimk', A, G, G, JxW, s)
    k = G.shape[2]
    for c in range(nc):
        ids = (3 * rm.cells[c][:, None] + onp.arange(3)).ravel()
        K[onp.ix_(ids, ids)] += Kc[c].reshape(3 * k, 3 * k)
    fr = onp.repeat(free, 3)
    lam = onp.zeros(nd)
    Kff = K[onp.ix_(fr, fr)]
    cond = 1.
    if fr.any():
        lam[fr] = onp.linalg.solve(Kff.T, 2 * u.reshape(-1)[fr])
        cond = onp.linalg.cond(Kff)
        if cond > 1e7:
            raise Skip()
    ds = onp.where((rho > m.RHO_MIN) & (rho < 1.), m.SIMP_P * rc ** (m.SIMP_P - 1), 0.)
    want_g = -onp.array([ds[c] * (lam.reshape(-1, 3)[rm.cells[c]] * fc[c]).sum() for c in range(nc)])
    close(g, want_g, f"gradient of the objective with respect to the densities ({n} steps)", rtol=1e-5, atol=1e-9, scale=onp.abs(want_g).max())
    return {'nontrivial': n > 1 and bool(free.any()) and case['rho'] != 'uniform', 'labels': [rm.ele, f'steps={n}', case['rho']],
            'observed': f"J {J:.6g}, gradient up to {onp.abs(g).max():.3g}, cond {cond:.2g}"}


SUBS = {'steps': {'strategy': case_st, 'run': run, 'examples': {'quick': 96, 'thorough': 800}, 'weight': 1.}}

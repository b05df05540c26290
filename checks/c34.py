"""C34: derivative and path examples: mesh sensitivities, force- and displacement-driven beams."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, quiet, Skip

RULE = """Sub 'shape': the nonlinear Poisson problem of the mesh-derivative example on random quadrilateral meshes: residual against NumPy, derivative of
the objective with respect to all mesh points (automatic) and the example's own difference quotient against differences of a NumPy solver.
Sub 'beam': both beam main programs on regraded beams: load vectors, every recorded state an equilibrium at its load level by NumPy.
Non-trivial: distorted meshes; a loaded node moved; at least two continuation steps with a growing load."""
BUDGET_S = {'quick': 100, 'thorough': 900}
CASE_CPU_S = 240


def load(path, name, **kw):
    return app.load('/applications/' + path, 'c34_' + name, **kw)


# --------------------------------------------------------------------------------------------------------------- shape

@st.composite
def shape_st(draw):
    return {'n': draw(st.tuples(st.integers(2, 4), st.integers(2, 4))), 'jitter': draw(st.sampled_from([0., .2, .3])), 'shuffle': draw(st.booleans()), 'seed': draw(fem.seeds()),
            'objective': draw(st.sampled_from(['sum', 'random']))}


def square(case, lx=1., ly=1.):
    rm = fem.make_mesh({'ele': 'QUAD4', 'n': list(case['n']), 'seed': case['seed'], 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': case['shuffle'], 'flip': False})
    P = rm.grid.copy()
    rng = onp.random.default_rng(case['seed'] + 1)
    # tangential moves on the boundary, free ones inside
    d = case['jitter'] * rng.uniform(-1, 1, P.shape) / onp.array(case['n'])
    d[(P < 1e-9) | (P > 1 - 1e-9)] = 0.
    return fem.RefMesh('QUAD4', (P + d) * [lx, ly], rm.cells)


class Poisson:
    """-lap u + u^3 = g with u = sin(pi x)(1 + y)"""

    def __init__(self, rm):
        self.rm = rm
        P = rm.points
        lr = (onp.abs(P[:, 0]) < 1e-5) | (onp.abs(P[:, 0] - 1) < 1e-5)
        top = onp.abs(P[:, 1] - 1) < 1e-5
        self.bc = lr | top
        self.bcv = onp.where(lr, 0., 2 * onp.sin(onp.pi * P[:, 0]))

    def residual(self, u, tangent=False):
        rm = self.rm
        x, N, G, JxW = rm.tabulate()
        ex = onp.sin(onp.pi * x[..., 0]) * (1 + x[..., 1])
        uq = u[rm.cells] @ N.T
        g = onp.einsum('ca,cqai->cqi', u[rm.cells], G)
        r = onp.einsum('cqi,cqai,cq->ca', g, G, JxW) + onp.einsum('cq,qa,cq->ca', uq**3 - onp.pi**2 * ex - ex**3, N, JxW)
        R = onp.zeros(len(u))
        onp.add.at(R, rm.cells, r)
        for k, (c, f) in rm.boundary:
            if all(abs(rm.points[v, 1]) < 1e-3 for v in k):
                xf, Nf, _, w, _ = rm.tab_face(c, f)
                onp.add.at(R, rm.cells[c], Nf.T @ (w * onp.sin(onp.pi * xf[:, 0])))
        if not tangent:
            return R
        K = onp.zeros((len(u),) * 2)
        k = onp.einsum('cqai,cqbi,cq->cab', G, G, JxW) + onp.einsum('qa,qb,cq->cab', N, N, 3 * uq**2 * JxW)
        for c, ke in zip(rm.cells, k):
            K[onp.ix_(c, c)] += ke
        return R, K

    def solve(self):
        u = onp.where(self.bc, self.bcv, 0.)
        for _ in range(40):
            R, K = self.residual(u, True)
            f = ~self.bc
            if onp.abs(R[f]).max() < 1e-14:
                break
            u[f] -= onp.linalg.solve(K[onp.ix_(f, f)], R[f])
        return u


def run_shape(case):
    import jax
    import jax.numpy as np
    from jax_fem.solver import ad_wrapper
    m = load('differentiable_mesh/example.py', 'diffmesh')
    rm = square(case)
    rng = onp.random.default_rng(case['seed'])
    n = len(rm.points)
    info = [[m.left, m.right, m.top], [0] * 3, [m.u0, m.u0, m.u0_top]]
    p = m.NonlinearPoisson(mesh=fem.jmesh(rm), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=info, location_fns=[m.bottom])
    ref = Poisson(rm)
    u = rng.normal(size=n)
    close(onp.asarray(p.compute_residual([np.array(u)[:, None]])[0])[:, 0], ref.residual(u), "residual", rtol=1e-9)
    w = onp.ones(n) if case['objective'] == 'sum' else rng.uniform(.5, 2, n)
    obj = m.objective_sum_u_squared if case['objective'] == 'sum' else (lambda s: np.sum(np.array(w)[:, None] * s[0]**2))
    fwd = ad_wrapper(p)
    val, grad = jax.value_and_grad(lambda q: obj(fwd(q)))(np.array(rm.points))
    want = ref.solve()
    close(val, (w * want**2).sum(), "objective", rtol=1e-6)
    J = lambda Q: (w * Poisson(fem.RefMesh('QUAD4', Q, rm.cells)).solve()**2).sum()
    grad = onp.asarray(grad)
    require(grad.shape == rm.points.shape, "gradient shape %s", grad.shape)
    # prescribed values and loaded sides are those of the initial mesh: move inner nodes freely, bottom nodes too (their side stays selected)
    bottom = onp.flatnonzero((onp.abs(rm.points[:, 1]) < 1e-9) & ~ref.bc)
    inner = onp.flatnonzero(~ref.bc & (rm.points[:, 1] > 1e-9))
    h = 1e-5
    fds = []
    for a in [*rng.permutation(inner)[:2], *rng.permutation(bottom)[:2]]:
        for k in range(2):
            Q = rm.points.copy()
            Q[a, k] += h
            jp = J(Q)
            Q[a, k] -= 2 * h
            fds.append((a, k, (jp - J(Q)) / (2 * h)))
    sc = max(onp.abs(grad).max(), 1.)
    for a, k, fd in fds:
        close(grad[a, k], fd, f"derivative with respect to coordinate {k} of node {a}", rtol=2e-6, scale=sc)
    a = int(bottom[onp.argmin(onp.abs(rm.points[bottom, 0] - .35))])
    pick = m.pick_fd_node_on_neumann_edge(np.array(rm.points))
    d = lambda b: abs(rm.points[b, 0] - .35)
    require(int(pick) in bottom and abs(d(pick) - d(a)) < 1e-12, "picked node %d, nearest loaded node is %d", pick, a)
    k = int(rng.integers(2))
    h = 5e-4
    fd, Jm, Jp, nm, npl = m.fd.gold_fd_two_independent_problems(rm.points, rm.cells, 'QUAD4', info, [m.bottom], m.NonlinearPoisson, obj, int(pick), k, h)
    Q = rm.points.copy()
    Q[pick, k] += h
    jp = J(Q)
    Q[pick, k] -= 2 * h
    jm = J(Q)
    close([Jm, Jp], [jm, jp], "objectives of the perturbed meshes", rtol=1e-5)          # the example solves to the default tolerance
    close(fd, (Jp - Jm) / (2 * h), "central difference", rtol=1e-10, atol=1e-9)
    require(nm == npl == case['n'][0] or case['shuffle'], "number of loaded sides")
    close(m.u_exact_fn(rm.points[:, 0], rm.points[:, 1]), onp.sin(onp.pi * rm.points[:, 0]) * (1 + rm.points[:, 1]), "exact solution", rtol=1e-12)
    return {'nontrivial': case['jitter'] > 0, 'labels': [f"objective={case['objective']}"], 'observed': f"largest derivative {onp.abs(grad).max():.3g}"}


# ---------------------------------------------------------------------------------------------------------------- beam

@st.composite
def beam_st(draw):
    return {'driver': draw(st.sampled_from(['force', 'displacement'])), 'n': draw(st.sampled_from([(25, 2), (17, 2), (31, 2)])), 'jitter': draw(st.sampled_from([0., .25])),
            'shuffle': draw(st.booleans()), 'seed': draw(fem.seeds()), 'dl': draw(st.sampled_from([.1, .2])), 'steps': draw(st.integers(2, 5))}


class Beam:
    def __init__(self, rm):
        self.rm = rm
        E, nu = 1e3, .3
        self.mu, self.kappa = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))
        self.tab = rm.tabulate()

    def internal(self, u):
        x, N, G, JxW = self.tab
        F = onp.einsum('cai,cqaj->cqij', u[self.rm.cells], G) + onp.eye(2)
        J = onp.linalg.det(F)[..., None, None]
        Fit = onp.swapaxes(onp.linalg.inv(F), -1, -2)
        I1 = (F * F).sum((-1, -2))[..., None, None]
        P = self.mu / J * (F - I1 / 2 * Fit) + self.kappa * (J - 1) * J * Fit
        r = onp.einsum('cqij,cqaj,cq->cai', P, G, JxW)
        R = onp.zeros(u.shape)
        onp.add.at(R, self.rm.cells, r)
        return R

    def load(self, accept, t):
        """residual contribution of a surface term with value t"""
        R = onp.zeros(self.rm.points.shape)
        for k, (c, f) in self.rm.boundary:
            if all(accept(self.rm.points[v]) for v in k):
                _, N, _, w, _ = self.rm.tab_face(c, f)
                onp.add.at(R, self.rm.cells[c], onp.einsum('qa,q,i->ai', N, w, t))
        return R


def run_beam(case):
    m = load(f"arc_length/beam2d_{case['driver']}.py", case['driver'])
    rm = square(case, 50., 2.)
    beam = Beam(rm)
    n = len(rm.points)
    rec, seen = [], {}
    real = m.solver
    keep = {k: m.__dict__.get(k) for k in ('make_mesh', 'solver')}

    def record(problem, solver_options=None, **k):
        o = dict(solver_options or k)
        arc = dict(o['arc_length'])
        old = arc.get('step_callback')

        def cb(step, u, lam):
            rec.append((step, onp.asarray(u).reshape(n, 2), float(lam)))
            return old(step, u, lam) if old else None

        arc.update(step_callback=cb, Delta_l=case['dl'], max_continuation_steps=case['steps'], return_info=True)
        seen.update(problem=problem, q=arc.get('q_vec_aux'))
        o['arc_length'] = arc
        out = real(problem, solver_options=o)
        seen['out'] = out
        return out

    m.make_mesh, m.solver = lambda *a, **k: fem.jmesh(rm), record
    m.__dict__['print'] = lambda *a, **k: None
    try:
        with quiet():
            m.main()
    except AssertionError as e:
        if 'No valid solutions' in str(e):                     # documented refusal: the arc does not meet the tangent
            raise Skip("arc length too large")
        raise
    finally:
        m.__dict__.update(keep)
        m.__dict__.pop('print', None)
    if 'problem' not in seen:
        raise Skip("the program did not call the solver")
    P = rm.points
    mid = beam.load(lambda q: abs(q[1]) < 1e-5 and 23. < q[0] < 27., onp.array([0., 1e-5]))
    end = beam.load(lambda q: abs(q[0] - 50.) < 1e-5, onp.array([5., 0.]))
    left, right = onp.abs(P[:, 0]) < 1e-5, onp.abs(P[:, 0] - 50.) < 1e-5
    force = case['driver'] == 'force'
    fixed = left if force else left | right
    if force:
        close(onp.asarray(seen['q']).reshape(n, 2), -end, "load vector of the counter load", rtol=1e-9)
    rng = onp.random.default_rng(case['seed'])
    u = .02 * rng.normal(size=(n, 2))
    import jax.numpy as np
    r = onp.asarray(seen['problem'].compute_residual([np.array(u)])[0])
    close(r, beam.internal(u) + mid + (end if force else 0.), "residual", rtol=1e-8)
    require(len(rec) == case['steps'], "%d continuation steps of %d", len(rec), case['steps'])
    for step, u, lam in rec:
        R = beam.internal(u) + mid + (lam * end if force else 0.)
        close(R[~fixed], 0 * R[~fixed], f"step {step}: equilibrium at load level {lam:.4g}", atol=2e-4, rtol=1e-6, scale=onp.abs(R[fixed]).max())
        close(u[left], 0 * u[left], f"step {step}: clamped end", atol=1e-8)
        if not force:
            want = onp.tile([lam * -.05 * 50., 0.], (right.sum(), 1))
            close(u[right], want, f"step {step}: prescribed end displacement", rtol=1e-7, atol=1e-8)
    lams = onp.array([0.] + [r[2] for r in rec])
    require(lams[1] > 0, "the load does not grow from the unloaded state: %s", lams)
    sol, info = seen['out']
    close(info['lam'], lams[-1], "reported load level", rtol=1e-9)
    return {'nontrivial': case['jitter'] > 0 and len(rec) > 1, 'labels': [case['driver'], f"dl={case['dl']}"], 'observed': f"load levels {onp.round(lams, 4).tolist()}"}


SUBS = {
    'shape': {'strategy': shape_st, 'run': run_shape, 'examples': {'quick': 20, 'thorough': 300}, 'weight': 4.},
    'beam': {'strategy': beam_st, 'run': run_beam, 'examples': {'quick': 32, 'thorough': 300}, 'weight': 2.},
}

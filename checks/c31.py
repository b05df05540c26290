"""C31: time stepping in the example applications (waves, dendrite growth, explicit dynamics)."""
import contextlib
import io
import os
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, Skip

RULE = """Sub 'wave': implicit wave steps from random states with prescribed boundary values, each against NumPy, discrete energy never grows.  Sub 'dendrite':
Kobayashi's model with random parameters, fields (including flat regions, where the angle is undefined) and noise, implicit and explicit scheme: each
step against NumPy, enthalpy of the insulated box conserved.  Sub 'fd': the finite-difference program on random grids, with
random parameters, against NumPy (tolerance from the measured sensitivity to round-off).  Sub 'explicit': the whole wave-guide script on regraded and renumbered meshes: leapfrog
history against NumPy, energy bounded.  Non-trivial: a moving wave; both phases present with noise; a mesh that is not the uniform one."""
BUDGET_S = {'quick': 120, 'thorough': 900}
CASE_CPU_S = 200


def keep_x64(path, name, **kw):
    """scripts may switch JAX to single precision when imported"""
    import jax
    try:
        m = app.load(path, name, **kw)
    finally:
        jax.config.update('jax_enable_x64', True)
        onp.set_printoptions()
    return m


def mass(rm, order=None):
    n = len(rm.points)
    M, K = onp.zeros((n, n)), onp.zeros((n, n))
    _, N, G, JxW = rm.tabulate(order)
    for c, ids in enumerate(rm.cells):
        M[onp.ix_(ids, ids)] += onp.einsum('qa,qb,q->ab', N, N, JxW[c])
        K[onp.ix_(ids, ids)] += onp.einsum('qai,qbi,q->ab', G[c], G[c], JxW[c])
    return M, K


def at(ids):
    import jax.numpy as np
    ids = np.array(ids)
    return lambda point, ind: np.any(ind == ids)


# ------------------------------------------------------------------------------------------------------------ wave

@st.composite
def wave_st(draw):
    ele = draw(st.sampled_from(['TRI3', 'TRI3', 'QUAD4', 'TRI6']))
    return {'mesh': {'ele': ele, 'n': {'TRI3': [3, 3], 'QUAD4': [3, 2], 'TRI6': [2, 2]}[ele], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., .15])), 'curve': 0., 'affine': False, 'shuffle': draw(st.booleans()), 'flip': draw(st.booleans())},
            'dt': draw(st.sampled_from([1e-7, 4e-6, 4e-6, 1e-4, 1e-2])), 'c': draw(st.sampled_from([5000., 1., 340.])), 'steps': draw(st.integers(2, 5)),
            'bc': draw(st.sampled_from(['one', 'zero', 'free', 'mixed'])), 'seed': draw(fem.seeds())}


def run_wave(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    m = app.load('/applications/wave/example.py', 'wave_example', defs_only=True)
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    n = len(rm.points)
    b = rm.boundary_nodes
    b = {'one': b, 'zero': b, 'free': b[:0], 'mixed': b[::2]}[case['bc']]
    v = {'one': 1., 'zero': 0., 'free': 0., 'mixed': float(rng.normal())}[case['bc']]
    keep = m.dt, m.c
    m.dt, m.c = case['dt'], case['c']
    try:
        p = m.wave(fem.jmesh(rm), vec=1, dim=2, ele_type=rm.ele, quadrature_order=2, dirichlet_bc_info=[[at(b)], [0], [lambda point: v]] if len(b) else None)
        M, K = mass(rm, 2)
        a = (m.c * m.dt) ** 2
        S = M + a * K
        fr = onp.setdiff1d(onp.arange(n), b)
        u0, u1 = rng.normal(size=n), rng.normal(size=n)
        u0[b] = u1[b] = v
        moving = 0.
        E = None
        for k in range(case['steps']):
            p.set_params([np.asarray(u0[:, None]), np.asarray(u1[:, None])])
            w = rng.normal(size=n)
            r = onp.asarray(p.compute_residual([np.asarray(w[:, None])])[0])[:, 0]
            close(r, S @ w - M @ (2 * u1 - u0), f"residual of step {k + 1}", rtol=1e-9, scale=onp.abs(S @ w).max() + onp.abs(M).max() * (onp.abs(u0).max() + onp.abs(u1).max()))
            z = onp.full(n, v)
            z[fr] = onp.linalg.solve(S[onp.ix_(fr, fr)], (M @ (2 * u1 - u0))[fr] - S[onp.ix_(fr, b)] @ z[b])
            size = onp.abs(S).sum(1).max() * max(onp.abs(z).max(), onp.abs(u1).max(), onp.abs(u0).max())
            new = onp.asarray(solver(p, solver_options={'spsolve_solver': {}, 'tol': 1e-13 + 1e-14 * n * size, 'rel_tol': 1e-11})[0])[:, 0]
            cond = onp.linalg.cond(S[onp.ix_(fr, fr)]) if len(fr) else 1.
            close(new, z, f"wave after step {k + 1}", rtol=1e-8 + 1e-13 * n * cond, scale=max(onp.abs(u0).max(), onp.abs(u1).max(), onp.abs(z).max()))
            # the scheme dissipates: kinetic plus elastic energy, measured at the new step, does not grow
            e = (new - u1) @ M @ (new - u1) + a * new @ K @ new
            if E is not None:
                require(e <= E * (1 + 1e-6) + 1e-10 * onp.abs(M).max(), "step %d: energy grows from %.9g to %.9g", k + 1, E, e)
            E = e
            moving = max(moving, onp.abs(new - u1).max())
            u0, u1 = u1, new
    finally:
        m.dt, m.c = keep
    return {'nontrivial': moving > 1e-3 and len(fr) > 0, 'labels': [rm.ele, case['bc'], f"cdt={case['c'] * case['dt']:.1e}"], 'observed': f"moves by {moving:.3g} per step"}


# -------------------------------------------------------------------------------------------------------- dendrite

@st.composite
def dendrite_st(draw):
    return {'scheme': draw(st.sampled_from(['implicit', 'explicit'])),
            'mesh': {'ele': 'QUAD4', 'n': draw(st.sampled_from([[3, 3], [4, 2]])), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., 0., .15])), 'curve': 0., 'affine': False, 'shuffle': draw(st.booleans())},
            'par': {'J': draw(st.sampled_from([4, 6])), 'K': draw(st.sampled_from([.8, 1.6, 2.])), 'T_eq': draw(st.sampled_from([1., .7])),
                    'a': draw(st.sampled_from([.01, .01, 1., 0.])), 'alpha': .9, 'delta': draw(st.sampled_from([.04, 0., .1])), 'dt': draw(st.sampled_from([1e-4, 2e-4, 1e-3])),
                    'eps_bar': draw(st.sampled_from([.01, .03])), 'gamma': 10., 'tau': draw(st.sampled_from([3e-4, 1e-3]))},
            'size': draw(st.sampled_from([.1, .3, 1.])), 'start': draw(st.sampled_from(['seed', 'random', 'patch', 'axis'])), 'steps': draw(st.integers(1, 4)), 'seed': draw(fem.seeds())}


def forces(rm, par, p, T, chi):
    """NumPy integrals of everything that does not involve the new fields: anisotropic operator (matrix), reaction, noise"""
    n = len(rm.points)
    _, N, G, JxW = rm.tabulate()
    A, F, W = onp.zeros((n, n)), onp.zeros(n), onp.zeros(n)
    for c, ids in enumerate(rm.cells):
        g = onp.einsum('a,qai->qi', p[ids], G[c])
        th = onp.where((g == 0).all(1), 0., onp.arctan2(g[:, 1], g[:, 0]))
        e = par['eps_bar'] * (1 + par['delta'] * onp.cos(par['J'] * (th - onp.pi / 2)))
        de = -par['eps_bar'] * par['delta'] * par['J'] * onp.sin(par['J'] * (th - onp.pi / 2))
        D = e[:, None, None] ** 2 * onp.eye(2) + (e * de)[:, None, None] * onp.array([[0., -1.], [1., 0.]])
        A[onp.ix_(ids, ids)] += onp.einsum('qai,qij,qbj,q->ab', G[c], D, G[c], JxW[c])
        pq, Tq = N @ p[ids], N @ T[ids]
        mm = par['alpha'] / onp.pi * onp.arctan(par['gamma'] * (par['T_eq'] - Tq))
        F[ids] += N.T @ (JxW[c] * pq * (1 - pq) * (pq - .5 + mm))
        W[ids] += N.T @ (JxW[c] * par['a'] * pq * (1 - pq) * chi[c])
    return A, F, W


def run_dendrite(case):
    import jax
    import jax.numpy as np
    from jax_fem.solver import solver
    par, rng = case['par'], onp.random.default_rng(case['seed'])
    imp = case['scheme'] == 'implicit'
    m = keep_x64(f"/applications/dendrite/{case['scheme']}_fem/example.py", f"dendrite_{case['scheme']}")
    rm = fem.make_mesh(case['mesh'])
    rm2 = fem.RefMesh('QUAD4', rm.points * case['size'], rm.cells)
    rm2.grid = rm.grid
    rm = rm2
    n, nc = len(rm.points), len(rm.cells)
    kw = dict(mesh=[fem.jmesh(rm)] * 2, vec=[1, 1], dim=2, ele_type=['QUAD4'] * 2, additional_info=[par])
    if case['start'] == 'seed':
        p = (((rm.grid - .5) ** 2).sum(1) < .1) * rng.uniform(.6, 1., n)     # no plateau at one: the gradient's direction would be round-off there
    elif case['start'] == 'patch':
        p = (rm.grid[:, 0] < .4) * rng.uniform(.6, 1., n)
    elif case['start'] == 'axis':
        p = rm.points[:, int(rng.integers(2))] / case['size'] * float(rng.choice([-.5, .5])) + .5
    else:
        p = rng.uniform(0, 1, n)
    T = onp.zeros(n) if rng.uniform() < .3 else rng.uniform(0, 1, n)
    M, K = mass(rm)
    one = onp.ones(n)
    if imp:
        prob = m.Solidification(**kw)
    else:
        pm, pf = m.SolidificationMass(**kw), m.SolidificationForce(**kw)
        L = M.sum(1)
        ml = onp.asarray(m.get_mass(pm)).reshape(-1)
        close(ml, onp.concatenate([par['tau'] * L, L]) / par['dt'], "lumped mass", rtol=1e-10)
        step = m.get_explicit_dynamics(pm, pf)
    noisy = False
    tr = []
    for k in range(case['steps']):
        chi = rng.uniform(-.5, .5, nc)
        A, F, W = forces(rm, par, p, T, chi)
        old = p, T
        if imp:
            tau, dt = par['tau'], par['dt']
            prob.set_params([np.asarray(p[:, None]), np.asarray(T[:, None]), np.asarray(chi)])
            x, y = rng.normal(size=n), rng.normal(size=n)
            r = prob.compute_residual([np.asarray(x[:, None]), np.asarray(y[:, None])])
            r1 = [A @ x, tau / dt * M @ (x - p), -F, -W]
            r2 = [K @ y, M @ (y - T) / dt, -par['K'] * M @ (x - p) / dt]
            close(onp.asarray(r[0])[:, 0], sum(r1), f"phase residual of step {k + 1}", rtol=1e-9, scale=sum(onp.abs(q).max() for q in r1))
            close(onp.asarray(r[1])[:, 0], sum(r2), f"heat residual of step {k + 1}", rtol=1e-9, scale=sum(onp.abs(q).max() for q in r2))
            pn = onp.linalg.solve(A + tau / dt * M, tau / dt * M @ p + F + W)
            Tn = onp.linalg.solve(K + M / dt, M @ T / dt + par['K'] * M @ (pn - p) / dt)
            sol = solver(prob, solver_options={'spsolve_solver': {}, 'tol': 1e-12, 'rel_tol': 1e-12, 'initial_guess': [np.asarray(p[:, None]), np.asarray(T[:, None])]})
            got = [onp.asarray(s)[:, 0] for s in sol]
        else:
            rate = F + W - A @ p
            pn = p + par['dt'] / par['tau'] * rate / L
            Tn = T + par['dt'] * (-K @ T) / L + par['K'] * (pn - p)
            got = [onp.asarray(s)[:, 0] for s in step([np.asarray(p[:, None]), np.asarray(T[:, None])], np.asarray(chi))]
        sc = max(1., onp.abs(p).max(), onp.abs(T).max(), onp.abs(pn).max(), onp.abs(Tn).max())
        require(all(onp.isfinite(g).all() for g in got), "step %d is not finite", k + 1)
        close(got[0], pn, f"phase field after step {k + 1} ({case['scheme']})", rtol=1e-7, scale=sc)
        # latent heat: temperature plus latent heat of the solid is conserved in the insulated box
        h = M.sum(0)
        a, b = h @ (got[1] - par['K'] * got[0]), h @ (T - par['K'] * p)
        tr.append(abs(a - b) / (h.sum() * sc))
        close(a, b, f"enthalpy in step {k + 1} ({case['scheme']})", rtol=1e-7, scale=h.sum() * sc)
        close(got[1], Tn, f"temperature after step {k + 1} ({case['scheme']})", rtol=1e-7, scale=sc)
        noisy = noisy or onp.abs(W).max() > 0
        p, T = got
        if max(onp.abs(p).max(), onp.abs(T).max()) > 50:
            break
    return {'nontrivial': noisy, 'labels': [case['scheme'], case['start']], 'observed': f"p in [{p.min():.3g}, {p.max():.3g}], enthalpy drift {max(tr):.2g}"}


# -------------------------------------------------------------------------------------------------- explicit dynamics

@st.composite
def explicit_st(draw):
    return {'n': draw(st.sampled_from([[80, 2, 2], [40, 1, 1], [40, 2, 1]])), 'grade': draw(st.sampled_from([0., .1, .3])), 'shuffle': draw(st.booleans()),
            'jitter': draw(st.sampled_from([0., .1])), 'seed': draw(fem.seeds())}


def run_explicit(case):
    import meshio
    m = app.load('/applications/explicit_dynamics/example.py', 'explicit_dynamics_example', defs_only=True)
    rng = onp.random.default_rng(case['seed'])
    made = {}

    def box_mesh(Nx, Ny, Nz, Lx, Ly, Lz, *a, **k):
        rm = fem.make_mesh({'ele': 'HEX8', 'n': case['n'], 'seed': case['seed'], 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': case['shuffle']})
        P = rm.points.copy()
        x = P[:, 0]
        if case['grade']:
            P[:, 0] = x + case['grade'] / (2 * onp.pi) * onp.sin(2 * onp.pi * x)
        L = onp.array([Lx, Ly, Lz])
        P = P * L
        inside = (x > 1e-9) & (x < 1 - 1e-9)
        P[inside, 0] += case['jitter'] * Lx / case['n'][0] * rng.uniform(-1, 1, inside.sum())
        made['rm'] = fem.RefMesh('HEX8', P, rm.cells)
        return meshio.Mesh(P, {'hexahedron': rm.cells})

    saved = []
    keep = m.box_mesh, m.save_sol
    m.box_mesh = box_mesh
    m.save_sol = lambda fe, sol, f, **k: saved.append((os.path.basename(f), onp.array(sol)))
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            m.main()
    finally:
        m.box_mesh, m.save_sol = keep
    rm = made['rm']
    P, n = rm.points, len(rm.points)
    vals = dict((l.split('=')[0].strip(), float(l.split('=')[1])) for l in out.getvalue().splitlines() if l.count('=') == 1 and not l.startswith('Running'))
    # the leapfrog recurrence, in NumPy
    E, nu, rho, amp, Lx = 1., .3, 1., 1e-3, 1.
    mu, lam = E / 2 / (1 + nu), E * nu / (1 + nu) / (1 - 2 * nu)
    cp = onp.sqrt((lam + 2 * mu) / rho)
    _, N, G, JxW = rm.tabulate()
    import scipy.sparse as sp
    kk = lam * onp.einsum('cqai,cqbj,cq->caibj', G, G, JxW) + mu * (onp.einsum('cqaj,cqbi,cq->caibj', G, G, JxW) + onp.einsum('cqak,cqbk,ij,cq->caibj', G, G, onp.eye(3), JxW))
    du = (3 * rm.cells[:, :, None] + onp.arange(3)).reshape(len(rm.cells), -1)
    K = sp.csr_matrix((kk.reshape(-1), (onp.repeat(du, 24, 1).reshape(-1), onp.tile(du, (1, 24)).reshape(-1))), shape=(3 * n, 3 * n))
    ml = onp.zeros(n)
    onp.add.at(ml, rm.cells, rho * onp.einsum('qa,cq->ca', N, JxW))
    fixed = onp.zeros((n, 3), bool)
    fixed[P[:, 0] < 1e-6, 0] = True
    for d in (1, 2):
        fixed[(P[:, d] < 1e-6) | (P[:, d] > .1 - 1e-6), d] = True
    period = 4 * Lx / cp
    steps = int(onp.ceil(period / (.5 * (Lx / 80) / cp)))
    dt = period / steps
    acc = lambda u: onp.where(fixed, 0., -(K @ u.reshape(-1)).reshape(n, 3) / ml[:, None])
    u = onp.zeros((n, 3))
    u[:, 0] = amp * onp.sin(onp.pi / 2 * P[:, 0] / Lx)
    prev = onp.where(fixed, 0., u + .5 * dt**2 * acc(u))
    hist = [u]
    for _ in range(steps):
        prev, u = u, onp.where(fixed, 0., 2 * u - prev + dt**2 * acc(u))
        hist.append(u)
    hist = onp.array(hist)
    names = [f'u_{i:05d}.vtu' for i in range(0, steps + 1, 10)]
    require([s[0] for s in saved] == names, "saved files %s..., expected %s...", [s[0] for s in saved][:3], names[:3])
    growth = onp.abs(hist).max()
    require(growth < 2 * amp, "reference is unstable on this mesh")
    for i, (name, s) in enumerate(saved):
        close(s, hist[10 * i], f"displacement at step {10 * i}", rtol=1e-7, scale=amp)
    close(vals['Theoretical P-wave speed'], cp, "theoretical wave speed", rtol=1e-7)
    # the true frequency is approached: coarse meshes overestimate stiffness a little
    require(vals['Relative speed error'] < 5e-3, "wave speed off by %.3g", vals['Relative speed error'])
    require(vals['Maximum normalized L2 error over one period'] < 2e-2, "L2 error %.3g", vals['Maximum normalized L2 error over one period'])
    require(vals['Maximum relative total-energy drift'] < 1e-2, "energy drift %.3g", vals['Maximum relative total-energy drift'])
    # reported numbers against the reference history
    mode = onp.sin(onp.pi / 2 * P[:, 0])
    t = onp.arange(steps + 1) * dt
    ex = amp * onp.cos(cp * onp.pi / 2 * t[:, None]) * mode
    l2 = onp.sqrt((ml * (hist[:, :, 0] - ex) ** 2).sum(1)).max() / (amp * onp.sqrt((ml * mode**2).sum()))
    close(vals['Maximum normalized L2 error over one period'], l2, "reported L2 error", rtol=1e-2, atol=1e-6)
    v = onp.zeros_like(hist)
    v[1:-1] = (hist[2:] - hist[:-2]) / (2 * dt)
    v[-1] = (3 * hist[-1] - 4 * hist[-2] + hist[-3]) / (2 * dt)
    en = .5 * (ml[None, :, None] * v**2).sum((1, 2)) + .5 * onp.array([h.reshape(-1) @ (K @ h.reshape(-1)) for h in hist])
    close(vals['Maximum relative total-energy drift'], onp.abs(en / en[0] - 1).max(), "reported energy drift", rtol=1e-2, atol=1e-6)
    return {'nontrivial': bool(case['grade'] or case['jitter']), 'labels': [f"n={case['n']}", f"grade={case['grade']}"], 'observed': out.getvalue().strip().splitlines()[-1]}


# -------------------------------------------------------------------------------------------- dendrite, finite differences

@st.composite
def fd_st(draw):
    return {'nx': draw(st.integers(12, 28)), 'ny': draw(st.integers(12, 28)), 'hx': draw(st.sampled_from([.03, .02, .04])), 'hy': draw(st.sampled_from([.03, .025])),
            'J': draw(st.sampled_from([4, 6, 1, 3])), 'delta': draw(st.sampled_from([.04, .1, .2, 0.])), 'eps_bar': draw(st.sampled_from([.01, .006, .015])), 'a': draw(st.sampled_from([.01, .1, 1.])),
            'K': draw(st.sampled_from([1.6, .8, 0.])), 'gamma': draw(st.sampled_from([10., 2.])), 'alpha': draw(st.sampled_from([.9, .5])), 'T_eq': draw(st.sampled_from([1., .6])),
            'steps': draw(st.sampled_from([20, 40, 60]))}


class Recorder:
    """stands in for pyplot: any call works, two-dimensional arrays are kept"""
    def __init__(self):
        self.seen = []

    def __getattr__(self, k):
        return self

    def __call__(self, *a, **k):
        self.seen += [onp.array(x, float) for x in a if getattr(x, 'ndim', 0) == 2]
        return self

    def __iter__(self):
        return iter((self, self))


def fd_history(c, chi, noise=0., seed=0, snap=0.):
    """Kobayashi (1993) on a grid: edge values repeated beyond the boundary, then boundary values copied from inside"""
    nx, ny, hx, hy, dt, tau = c['nx'], c['ny'], c['hx'], c['hy'], 1e-4, 3e-4
    pad = lambda m: onp.pad(m, 1, mode='edge')

    def grad(m):
        q = pad(m)
        return (q[2:, 1:-1] - q[:-2, 1:-1]) / (2 * hx), (q[1:-1, 2:] - q[1:-1, :-2]) / (2 * hy)

    def lap(m):
        q = pad(m)
        return (q[2:, 1:-1] + q[:-2, 1:-1] - 2 * m) / hx**2 + (q[1:-1, 2:] + q[1:-1, :-2] - 2 * m) / hy**2

    def noflux(m):
        m = m.copy()
        m[0] = m[1]
        m[:, 0] = m[:, 1]
        m[-1] = m[-2]
        m[:, -1] = m[:, -2]
        return m

    i, j = onp.indices((nx, ny))
    p = ((i - nx / 2)**2 + (j - ny / 2)**2 < 20.).astype(float)
    T = onp.zeros((nx, ny))
    out = [p]
    rng = onp.random.default_rng(seed)
    inner = (i > 0) & (i < nx - 1), (j > 0) & (j < ny - 1)                   # elsewhere, and on plateaus, differences are exact zeros
    for _ in range(c['steps']):
        px, py = (g + ((g != 0) | q & (p != 0) & (p != 1)) * noise / hx * rng.uniform(-1, 1, p.shape) for g, q in zip(grad(p), inner))
        px, py = (onp.where(onp.abs(g) < snap, 0., g) for g in (px, py))
        th = onp.arctan2(py, px)
        e = c['eps_bar'] * (1 + c['delta'] * onp.cos(c['J'] * th))
        de = -c['eps_bar'] * c['J'] * c['delta'] * onp.sin(c['J'] * th)
        ex, ey = grad(e**2)
        m = c['alpha'] / onp.pi * onp.arctan(c['gamma'] * (c['T_eq'] - T))
        rhs = -grad(e * de * py)[0] + grad(e * de * px)[1] + ex * px + ey * py + e**2 * lap(p) + p * (1 - p) * (p - .5 + m) + c['a'] * p * (1 - p) * chi
        pn = noflux(p + dt / tau * rhs * (1 + noise * rng.uniform(-1, 1, p.shape)))
        T = noflux(T + dt * lap(T) + c['K'] * (pn - p))
        p = pn
        out.append(p)
    return out


def run_fd(case):
    import contextlib
    import sys
    import types
    import jax
    for k in ('imageio', 'imageio.v2'):
        if k not in sys.modules:
            try:
                __import__(k)
            except ImportError:
                sys.modules[k] = types.ModuleType(k)
    if not hasattr(sys.modules['imageio'], 'v2'):
        sys.modules['imageio'].v2 = sys.modules['imageio.v2']
    m = keep_x64('/applications/dendrite/explicit_fd/example.py', 'dendrite_fd')
    par = {k: v for k, v in case.items() if k not in ('steps', 'sub')}
    par.update(dt=1e-4, tau=3e-4, t_OFF=(case['steps'] - .5) * 1e-4)
    rec = Recorder()
    keep = m.plt, m.json_parse
    m.plt, m.json_parse = rec, lambda *a, **k: dict(par)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.simulation()
    finally:
        m.plt, m.json_parse = keep
    if not rec.seen:
        raise Skip("nothing was drawn")
    chi = onp.asarray(jax.random.uniform(jax.random.PRNGKey(0), shape=(case['nx'], case['ny']))) - .5
    with onp.errstate(all='ignore'):
        want = fd_history(case, chi)
        # round-off decides the gradient direction on plateaus, and strong anisotropy amplifies it: measured, not guessed
        other = [fd_history(case, chi, a, k) for a in (4e-16, 1e-14, 1e-12) for k in (1, 2, 3)] + [fd_history(case, chi, snap=1e-10)]
    if not onp.isfinite(want[-1]).all() or max(onp.abs(w - .5).max() for w in want) > 1.:
        raise Skip("explicit scheme unstable for these parameters")
    require(len(rec.seen) == case['steps'] // 20, "%d pictures for %d steps", len(rec.seen), case['steps'])
    seen = 0
    for n, got in enumerate(rec.seen):
        k = 20 * (n + 1)
        tol = 1e-7 + 100 * max(onp.abs(o[k] - want[k]).max() for o in other)
        if tol < 1e-3:
            close(got, want[k], f"phase field after {k} steps", rtol=0., atol=tol)
            seen += 1
    ch = onp.abs(want[-1] - want[0]).max()
    return {'nontrivial': seen > 0 and case['delta'] > 0 and ch > .05, 'labels': [f"pictures={seen}", f"fd J={case['J']}", f"square={case['nx'] == case['ny']}"], 'observed': f"largest change {ch:.3f}"}


SUBS = {
    'fd': {'strategy': fd_st, 'run': run_fd, 'examples': {'quick': 20, 'thorough': 300}, 'weight': .8},
    'wave': {'strategy': wave_st, 'run': run_wave, 'examples': {'quick': 120, 'thorough': 1500}, 'weight': 1.},
    'dendrite': {'strategy': dendrite_st, 'run': run_dendrite, 'examples': {'quick': 160, 'thorough': 2000}, 'weight': 1.6},
    'explicit': {'strategy': explicit_st, 'run': run_explicit, 'examples': {'quick': 20, 'thorough': 120}, 'weight': 1.},
}

"""C30: mixed and coupled weak forms of the example applications (Stokes flow, thermo-elasticity, Robin boundary, split elasticity)."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem, models
from pbt.core import require, close, Skip

RULE = """Sub 'stokes': Taylor-Hood meshes with randomly oriented triangles (repaired by the example's transform_cells) and holes; residual and tangent
against the bilinear form assembled in NumPy, no-slip contour against the true boundary, solutions against NumPy and against exact polynomial flows.
Sub 'thermoelastic': random states and backward-Euler histories with changing step sizes; every step against NumPy, energy decay when insulated.
Sub 'robin': nonlinear Robin boundary on random faces as kernel and as surface map.  Sub 'split': one displacement variable against two.
Non-trivial: flow with inflow and pressure; at least two steps with strain and temperature; both faces sets nonempty; nonzero load."""
BUDGET_S = {'quick': 60, 'thorough': 900}
CASE_CPU_S = 200


def stokes():
    return app.load('/applications/stokes/example.py', 'stokes_example')


def thermo():
    return app.load('/applications/thermal_mechanical_full/example.py', 'thermal_mechanical_full_example')


def robin():
    return app.load('/applications/robin_bc/example.py', 'robin_bc_example')


def split(n):
    return app.load(f'/applications/stokes/example_{n}.py', f'stokes_example_{n}')


def straight(desc, keep=None, box=True):
    """mesh of the unit square whose sides stay plane; keep selects cells by their (unjittered) centre"""
    rm = fem.make_mesh(dict(desc, curve=0., affine=False))
    lin = rm.ref.nv
    P = rm.points.copy()
    for k in range(rm.dim):
        P[rm.grid[:, k] < 1e-9, k] = 0.
        P[rm.grid[:, k] > 1 - 1e-9, k] = 1.
    out = fem.RefMesh(rm.ele, P, rm.cells)
    # mid nodes back onto the straight edges
    if len(rm.ref.nodes) > lin:
        W = fem.ref({'quad': 'QUAD4', 'tri': 'TRI3', 'hex': 'HEX8', 'tet': 'TET4'}[rm.ref.shape]).vals(rm.ref.nodes)
        for c in rm.cells:
            P[c] = W @ P[c[:lin]]
        out = fem.RefMesh(rm.ele, P, rm.cells)
    grid = rm.grid
    inside = ~((grid < 1e-9) | (grid > 1 - 1e-9))
    if out.min_det()[0] < 1e-3 * onp.median(out.min_det()[1]) or out.min_det()[0] <= 0 or (P[inside] < 1e-3).any() or (P[inside] > 1 - 1e-3).any():
        out = fem.RefMesh(rm.ele, grid.copy(), rm.cells)
    if keep is not None:
        k = keep(grid[rm.cells].mean(1))
        cells = out.cells[k]
        used = onp.unique(cells)
        renum = -onp.ones(len(grid), int)
        renum[used] = onp.arange(len(used))
        out, grid = fem.RefMesh(rm.ele, out.points[used], renum[cells]), grid[used]
    out.grid = grid
    return out


FLIP = {'TRI3': [0, 2, 1], 'TRI6': [0, 2, 1, 5, 4, 3]}


def turned(rm, rng):
    """the same triangles with about half of them clockwise"""
    cells = rm.cells.copy()
    t = rng.uniform(size=len(cells)) < .5
    cells[t] = cells[t][:, FLIP[rm.ele]]
    return cells, t


def fix_cells(m, rm, rng):
    cells, t = turned(rm, rng)
    keep = cells.copy()
    new = onp.asarray(m.transform_cells(cells, rm.points, rm.ele))
    require((cells == keep).all(), "transform_cells modifies the cells it was given")
    require(new.shape == rm.cells.shape, "transform_cells returns shape %s", new.shape)
    require((onp.sort(new, 1) == onp.sort(rm.cells, 1)).all(), "transform_cells changes which nodes a cell has")
    bad = fem.RefMesh(rm.ele, rm.points, new).min_det()[0]
    require(bad > 0, "transform_cells leaves an inverted triangle (determinant %.3g)", bad)
    require((new[~t] == cells[~t]).all(), "transform_cells touches counter-clockwise triangles")
    return new


@st.composite
def stokes_st(draw):
    return {'mesh': {'ele': 'TRI6', 'n': draw(st.sampled_from([[2, 2], [4, 2]])), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., .1, .2])), 'shuffle': draw(st.booleans()), 'flip': True},
            'kind': draw(st.sampled_from(['residual', 'exact', 'data', 'hole', 'hole', 'natural'])), 'seed': draw(fem.seeds())}


def stokes_matrix(ru, rp):
    nu, np_ = len(ru.points), len(rp.points)
    _, _, G, JxW = ru.tabulate(2)
    Np = rp.tabulate(2)[1]
    A = onp.zeros((2 * nu + np_, 2 * nu + np_))
    for c in range(len(ru.cells)):
        k = onp.einsum('qai,qbi,q->ab', G[c], G[c], JxW[c])
        b = onp.einsum('qm,qai,q->mai', Np, G[c], JxW[c])
        iu, ip = ru.cells[c], 2 * nu + rp.cells[c]
        for d in range(2):
            A[onp.ix_(2 * iu + d, 2 * iu + d)] += k
            A[onp.ix_(ip, 2 * iu + d)] += b[:, :, d]
            A[onp.ix_(2 * iu + d, ip)] += b[:, :, d].T
    return A


def at(ids):
    import jax.numpy as np
    ids = np.array(ids)
    return lambda point, ind: np.any(ind == ids)


def table(vals, pts):
    """value function that returns the row of the nearest node"""
    import jax.numpy as np
    v, p = np.array(vals), np.array(pts)
    return lambda point: v[np.argmin(np.sum((p - point) ** 2, 1))]


def run_stokes(case):
    import jax
    import jax.numpy as np
    from jax_fem.solver import solver
    m = stokes()
    rng = onp.random.default_rng(case['seed'])
    kind = case['kind']
    keep = None
    if kind == 'hole':
        # one or more grid squares removed from the inside of a larger grid
        case['mesh'] = dict(case['mesh'], n=[4, 4], jitter=min(case['mesh']['jitter'], .1))
        pick = [[(1, 1)], [(1, 1), (2, 1)], [(2, 2)], [(1, 1), (2, 2)]][int(rng.integers(4))]
        keep = None
        base = fem.make_mesh(dict(case['mesh'], curve=0., affine=False, jitter=0., grade=False))
        gone = lambda c: onp.any([(onp.floor(c * 4 + 1e-9).astype(int) == onp.array(p)).all(1) for p in pick], axis=0)
        case['mesh']['grade'] = False
        keep = lambda c: ~gone(c)
    ru = straight(case['mesh'], keep)
    rp = models.second_mesh(ru, 'TRI3')
    nu, npn = len(ru.points), len(rp.points)
    from jax_fem.generate_mesh import Mesh
    cu, cp = fix_cells(m, ru, rng), fix_cells(m, rp, rng)
    # velocity and pressure share cells, so the two meshes have to be turned alike
    cp = onp.stack([rp.cells[i][[list(ru.cells[i][:3]).index(v) for v in cu[i][:3]]] for i in range(len(cu))])
    mu_, mp_ = Mesh(ru.points, cu), Mesh(rp.points, cp)
    A = stokes_matrix(ru, rp)
    sc = onp.abs(A).max()
    bnodes = ru.boundary_nodes
    P = ru.points
    u_exact = onp.zeros((nu, 2))
    # divergence-free quadratic velocity (from a cubic stream function) and the pressure gradient that balances it
    a = rng.normal(size=10)
    X, Y = P[:, 0], P[:, 1]
    # psi = a0 x + a1 y + a2 x^2 + a3 xy + a4 y^2 + a5 x^3 + a6 x^2 y + a7 x y^2 + a8 y^3;  u = (psi_y, -psi_x)
    u_exact[:, 0] = a[1] + a[3] * X + 2 * a[4] * Y + a[6] * X**2 + 2 * a[7] * X * Y + 3 * a[8] * Y**2
    u_exact[:, 1] = -(a[0] + 2 * a[2] * X + a[3] * Y + 3 * a[5] * X**2 + 2 * a[6] * X * Y + a[7] * Y**2)
    lap = onp.array([2 * a[6] + 6 * a[8], -(6 * a[5] + 2 * a[7])])
    p_exact = a[9] - rp.points @ lap
    pin = int(rng.integers(npn))
    free_out = kind == 'natural'
    fixed = bnodes if not free_out else onp.array([b for b in bnodes if P[b, 0] < 1 - 1e-9])
    if kind == 'hole':
        right = onp.where(P[:, 0] > 1 - 1e-9)[0]
        fixed = right
    vals = u_exact if kind == 'exact' else rng.normal(size=(nu, 2))
    if kind in ('data', 'hole'):
        vals = vals * .5
    uinfo = [[at(fixed), at(fixed)], [0, 1], [table(vals[:, 0], P), table(vals[:, 1], P)]]
    pval = float(p_exact[pin]) if kind == 'exact' else float(rng.normal())
    pinfo = [[at([pin])], [0], [lambda point: pval]] if not free_out and kind != 'hole' else None
    if kind == 'hole':
        left = onp.where(rp.points[:, 0] < 1e-9)[0]
        pinfo = [[at(left)], [0], [lambda point: pval]]
    p = m.StokesFlow([mu_, mp_], vec=[2, 1], dim=2, ele_type=['TRI6', 'TRI3'], quadrature_order=[2, 2], dirichlet_bc_info=[uinfo, pinfo])
    bc = {}
    for n in fixed:
        for d in range(2):
            bc[2 * int(n) + d] = vals[n, d]
    if pinfo is not None:
        for n in ([pin] if kind != 'hole' else left):
            bc[2 * nu + int(n)] = pval
    if kind == 'hole':
        before = [list(p.fes[0].node_inds_list), list(p.fes[0].vec_inds_list), list(p.fes[0].vals_list)]
        p.configure_Dirichlet_BC_for_dolphin()
        want = set(int(b) for b in bnodes if 1e-5 < P[b, 0] < 1 - 1e-5)
        new = [onp.asarray(x) for x in p.fes[0].node_inds_list[2:]]
        require(len(new) == 2 and len(p.fes[0].vec_inds_list) == 4 and len(p.fes[0].vals_list) == 4, "the contour is added as %d sets", len(new))
        for d in range(2):
            require(len(set(new[d].tolist())) == len(new[d]) and set(new[d].tolist()) == want,
                    "the no-slip contour has nodes %s, expected the boundary nodes away from inlet and outlet %s (component %d)", sorted(new[d].tolist()), sorted(want), d)
            require((onp.asarray(p.fes[0].vec_inds_list[2 + d]) == d).all() and (onp.asarray(p.fes[0].vals_list[2 + d]) == 0).all(), "the contour does not hold component %d at zero", d)
        for n in want:
            for d in range(2):
                bc.setdefault(2 * n + d, 0.)
    # residual
    u, q = rng.normal(size=(nu, 2)), rng.normal(size=(npn, 1))
    z = onp.concatenate([u.reshape(-1), q.reshape(-1)])
    r = p.compute_residual([np.asarray(u), np.asarray(q)])
    R = A @ z
    close(onp.asarray(r[0]).reshape(-1), R[:2 * nu], "momentum residual", rtol=1e-9, scale=sc)
    close(onp.asarray(r[1]).reshape(-1), R[2 * nu:], "continuity residual", rtol=1e-9, scale=sc)
    if kind == 'residual':
        p.newton_update([np.asarray(u), np.asarray(q)])
        T = onp.zeros_like(A)
        onp.add.at(T, (onp.asarray(p.I), onp.asarray(p.J)), onp.asarray(p.V))
        close(T, A, "tangent", rtol=1e-9, atol=1e-11 * sc)
        return {'nontrivial': False, 'labels': [kind], 'observed': f"{len(ru.cells)} cells"}
    idx = onp.array(sorted(bc))
    fr = onp.setdiff1d(onp.arange(len(A)), idx)
    zz = onp.zeros(len(A))
    zz[idx] = [bc[int(i)] for i in idx]
    K = A[onp.ix_(fr, fr)]
    s = onp.linalg.svd(K, compute_uv=False)
    if s[-1] < 1e-8 * s[0]:
        raise Skip('the mixed system is singular (spurious pressure mode)')
    zz[fr] = onp.linalg.solve(K, -A[onp.ix_(fr, idx)] @ zz[idx])
    sol = solver(p, solver_options={'spsolve_solver': {}, 'tol': 1e-9, 'rel_tol': 1e-12})
    U, Q = onp.asarray(sol[0]), onp.asarray(sol[1])
    tol = 1e-6 + 1e-8 * s[0] / s[-1]
    close(U.reshape(-1), zz[:2 * nu], "velocity", rtol=tol, scale=max(1., onp.abs(zz).max()))
    close(Q.reshape(-1), zz[2 * nu:], "pressure", rtol=tol, scale=max(1., onp.abs(zz).max()))
    if kind == 'exact':
        close(U, u_exact, "quadratic flow", rtol=tol, scale=max(1., onp.abs(zz).max()))
        close(Q[:, 0], p_exact, "linear pressure", rtol=tol, scale=max(1., onp.abs(zz).max()))
    # discrete incompressibility wherever the pressure is free
    fp = onp.setdiff1d(onp.arange(2 * nu, len(A)), idx)
    div = A[fp] @ onp.concatenate([U.reshape(-1), Q.reshape(-1)])
    close(div, 0 * div, "weak divergence", atol=tol * sc)
    return {'nontrivial': bool(onp.abs(Q).max() > 1e-6), 'labels': [kind], 'observed': f"{len(ru.cells)} cells, max |p| {onp.abs(Q).max():.3g}"}


# ---------------------------------------------------------------------------------------------- thermo-elasticity

@st.composite
def thermo_st(draw):
    ele = draw(st.sampled_from(['TRI3', 'TRI3', 'QUAD4', 'TRI6']))
    return {'mesh': {'ele': ele, 'n': {'TRI3': [3, 2], 'QUAD4': [3, 2], 'TRI6': [2, 1]}[ele], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., .15])), 'shuffle': draw(st.booleans()), 'flip': draw(st.booleans())},
            'dts': draw(st.lists(st.sampled_from([.1, 1., 10., 500., 1e4, 1e6]), min_size=2, max_size=5)),
            'bc': draw(st.sampled_from(['insulated', 'isolated', 'heated', 'heated'])), 'start': draw(st.sampled_from(['rest', 'random', 'random'])), 'seed': draw(fem.seeds())}


def thermo_blocks(rm, m):
    """(stiffness, coupling, heat capacity, conduction) with physical constants"""
    E, nu, al = m.E, m.nu, m.alpha
    mu, lam = E / 2 / (1 + nu), E * nu / (1 + nu) / (1 - 2 * nu)
    kap = al * (2 * mu + 3 * lam)
    C, k = 910e-6 * m.rho, m.k
    n = len(rm.points)
    K, B, M, D = onp.zeros((2 * n, 2 * n)), onp.zeros((2 * n, n)), onp.zeros((n, n)), onp.zeros((n, n))
    _, N, G, JxW = rm.tabulate(2)
    for c, ids in enumerate(rm.cells):
        g, w = G[c], JxW[c]
        kk = lam * onp.einsum('qai,qbj,q->aibj', g, g, w) + mu * (onp.einsum('qaj,qbi,q->aibj', g, g, w) + onp.einsum('qak,qbk,ij,q->aibj', g, g, onp.eye(2), w))
        du = (2 * ids[:, None] + onp.arange(2)).reshape(-1)
        K[onp.ix_(du, du)] += kk.reshape(len(du), -1)
        B[onp.ix_(du, ids)] += kap * onp.einsum('qai,qb,q->aib', g, N, w).reshape(len(du), -1)
        M[onp.ix_(ids, ids)] += C * onp.einsum('qa,qb,q->ab', N, N, w)
        D[onp.ix_(ids, ids)] += k * onp.einsum('qai,qbi,q->ab', g, g, w)
    return K, B, M, D


def run_thermo(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    m = thermo()
    rng = onp.random.default_rng(case['seed'])
    rm = straight(case['mesh'])
    n = len(rm.points)
    P = rm.points
    if rm.ele in FLIP:
        cells = fix_cells(m, rm, rng)
    else:
        cells = rm.cells
    from jax_fem.generate_mesh import Mesh
    mesh = Mesh(P, cells, ele_type=rm.ele)
    left, bottom = onp.where(P[:, 0] < 1e-9)[0], onp.where(P[:, 1] < 1e-9)[0]
    zero = lambda point: 0.
    hot = {'insulated': [], 'isolated': onp.where(P[:, 1] > 1 - 1e-9)[0], 'heated': onp.where(P[:, 0] > 1 - 1e-9)[0]}[case['bc']]
    Th = m.theta_hole if case['bc'] == 'heated' else 0.
    ui = [[at(left), at(bottom)], [0, 1], [zero, zero]]
    ti = [[at(hot)], [0], [lambda point: Th]] if len(hot) else None
    p = m.thermal_mechanical_full([mesh, mesh], vec=[2, 1], dim=2, ele_type=[rm.ele] * 2, quadrature_order=[2, 2], dirichlet_bc_info=[ui, ti])
    K, B, M, D = thermo_blocks(rm, m)
    u, th = onp.zeros(2 * n), onp.zeros(n)
    if case['start'] == 'random':
        u, th = 1e-3 * rng.normal(size=2 * n), 10 * rng.normal(size=n)
        u[2 * left] = 0
        u[2 * bottom + 1] = 0
        th[hot] = Th
    bc = onp.concatenate([2 * left, 2 * bottom + 1, 2 * n + onp.asarray(hot, int)])
    fr = onp.setdiff1d(onp.arange(3 * n), bc)
    # the mechanical state is in equilibrium with its temperature before the energy is measured
    energy = None
    moved = False
    for k, dt in enumerate(case['dts']):
        p.set_params([np.asarray(u.reshape(n, 2)), np.asarray(th[:, None]), dt])
        uu, tt = 1e-3 * rng.normal(size=2 * n), 10 * rng.normal(size=n)
        r = p.compute_residual([np.asarray(uu.reshape(n, 2)), np.asarray(tt[:, None])])
        close(onp.asarray(r[0]).reshape(-1), K @ uu - B @ tt, f"momentum residual in step {k + 1}", rtol=1e-9, scale=onp.abs(K @ uu).max() + onp.abs(B @ tt).max())
        parts = [M @ (tt - th) / dt, m.T0 * B.T @ (uu - u) / dt, D @ tt]
        close(onp.asarray(r[1]).reshape(-1), sum(parts), f"heat residual in step {k + 1}", rtol=1e-9, scale=sum(onp.abs(x).max() for x in parts))
        A = onp.block([[K, -B], [m.T0 / dt * B.T, M / dt + D]])
        f = onp.concatenate([onp.zeros(2 * n), M @ th / dt + m.T0 / dt * B.T @ u])
        z = onp.zeros(3 * n)
        z[2 * n + onp.asarray(hot, int)] = Th
        f = f - A @ z
        if onp.linalg.norm(f[fr]) < 1e-8 and not z.any():
            break                                       # everything has decayed: the zero guess is within the solver's tolerance
        z[fr] = onp.linalg.solve(A[onp.ix_(fr, fr)], f[fr])
        sol = solver(p, solver_options={'spsolve_solver': {}, 'tol': 1e-10, 'rel_tol': 1e-13})
        nu_, nt = onp.asarray(sol[0]).reshape(-1), onp.asarray(sol[1]).reshape(-1)
        close(nu_, z[:2 * n], f"displacement after step {k + 1}", rtol=1e-6, atol=1e-13, scale=max(onp.abs(z[:2 * n]).max(), onp.abs(u).max()))
        close(nt, z[2 * n:], f"temperature after step {k + 1}", rtol=1e-6, atol=1e-9, scale=max(onp.abs(z[2 * n:]).max(), onp.abs(th).max()))
        e = .5 * nu_ @ K @ nu_ + .5 / m.T0 * nt @ M @ nt
        if energy is not None and case['bc'] != 'heated':
            require(e <= energy * (1 + 1e-7) + 1e-12, "step %d (dt=%g) creates energy: %.9g after %.9g", k + 1, dt, e, energy)
        if case['bc'] == 'insulated':
            a, b = onp.ones(n) @ (M @ nt + m.T0 * B.T @ nu_), onp.ones(n) @ (M @ th + m.T0 * B.T @ u)
            close(a, b, "entropy of the insulated body", rtol=1e-7, atol=1e-9, scale=abs(onp.ones(n) @ (M @ onp.abs(th))) + abs(m.T0 * onp.ones(n) @ onp.abs(B).T @ onp.abs(u)))
        energy = e
        moved = moved or onp.abs(nu_).max() > 1e-8
        u, th = nu_, nt
    return {'nontrivial': moved and len(set(case['dts'])) > 1, 'labels': [rm.ele, case['bc'], case['start']], 'observed': f"{len(case['dts'])} steps, max |T| {onp.abs(th).max():.3g}"}


# ----------------------------------------------------------------------------------------------------- Robin

@st.composite
def robin_st(draw):
    ele = draw(st.sampled_from(['TRI3', 'TRI3', 'QUAD4', 'TRI6']))
    return {'mesh': {'ele': ele, 'n': {'TRI3': [3, 3], 'QUAD4': [3, 2], 'TRI6': [2, 2]}[ele], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., .15])), 'shuffle': draw(st.booleans()), 'flip': draw(st.booleans())},
            'sides': draw(st.sampled_from([[0, 1], [1, 2], [3, 0], [2, 3]])), 'solve': draw(st.booleans()), 'seed': draw(fem.seeds())}


def side_fn(s):
    import jax.numpy as np
    return lambda point: np.isclose(point[s // 2], float(s % 2), atol=1e-5)


def run_robin(case):
    import jax
    import jax.numpy as np
    from jax_fem.solver import solver
    m = robin()
    rng = onp.random.default_rng(case['seed'])
    rm = straight(case['mesh'])
    n = len(rm.points)
    P = rm.points
    kw = dict(vec=1, dim=2, ele_type=rm.ele, quadrature_order=2)
    rest = [s for s in range(4) if s not in case['sides']]
    bc = [[side_fn(s) for s in rest], [0] * len(rest), [lambda point: 1.] * len(rest)]
    fns = [side_fn(s) for s in case['sides']]
    p = m.Poisson(fem.jmesh(rm), dirichlet_bc_info=bc, location_fns=fns, **kw)

    class ByMap(m.Problem):
        get_universal_kernel = m.Poisson.get_universal_kernel

        def get_surface_maps(self):
            f = lambda u, x: 5 * u**2
            return [f, f]

    p2 = ByMap(fem.jmesh(rm), dirichlet_bc_info=bc, location_fns=fns, **kw)
    x, N, G, JxW = rm.tabulate(2)
    body = x[..., 0] * onp.sin(5 * onp.pi * x[..., 1]) + onp.exp(-((x[..., 0] - .5) ** 2 + (x[..., 1] - .5) ** 2) / .02)
    F = onp.zeros(n)
    onp.add.at(F, rm.cells, onp.einsum('cq,qa,cq->ca', body, N, JxW))
    K = onp.zeros((n, n))
    for c, ids in enumerate(rm.cells):
        K[onp.ix_(ids, ids)] += onp.einsum('qai,qbi,q->ab', G[c], G[c], JxW[c])
    faces = [[cf for k, cf in rm.boundary if all(abs(P[v, s // 2] - s % 2) < 1e-9 for v in k)] for s in case['sides']]
    require([len(b) for b in p.boundary_inds_list] == [len(f) for f in faces], "selected %s faces, expected %s", [len(b) for b in p.boundary_inds_list], [len(f) for f in faces])

    def surf(u):
        out, J = onp.zeros(n), onp.zeros((n, n))
        for fs in faces:
            for c, f in fs:
                _, Nf, _, w, _ = rm.tab_face(c, f, 2)
                ids = rm.cells[c]
                uq = Nf @ u[ids]
                out[ids] += Nf.T @ (w * 5 * uq**2)
                J[onp.ix_(ids, ids)] += onp.einsum('qa,qb,q->ab', Nf, Nf, w * 10 * uq)
        return out, J

    u = rng.uniform(-1, 1, n)
    R = K @ u - F + surf(u)[0]
    sc = onp.abs(K).max() + onp.abs(F).max()
    r = onp.asarray(p.compute_residual([np.asarray(u[:, None])])[0])[:, 0]
    close(r, R, "residual with the surface kernel", rtol=1e-9, scale=sc)
    r2 = onp.asarray(p2.compute_residual([np.asarray(u[:, None])])[0])[:, 0]
    close(r2, R, "residual with the surface map", rtol=1e-9, scale=sc)
    for q, name in ((p, 'kernel'), (p2, 'map')):
        q.newton_update([np.asarray(u[:, None])])
        T = onp.zeros((n, n))
        onp.add.at(T, (onp.asarray(q.I), onp.asarray(q.J)), onp.asarray(q.V))
        close(T, K + surf(u)[1], f"tangent with the surface {name}", rtol=1e-9, scale=sc)
    if case['solve']:
        fixed = onp.unique(onp.concatenate([onp.where(onp.abs(P[:, s // 2] - s % 2) < 1e-5)[0] for s in rest]))
        fr = onp.setdiff1d(onp.arange(n), fixed)
        w = onp.zeros(n)
        w[fixed] = 1.
        for it in range(40):
            R = (K @ w - F + surf(w)[0])[fr]
            if len(fr) == 0 or onp.abs(R).max() < 1e-12:
                break
            J = K + surf(w)[1]
            w[fr] -= onp.linalg.solve(J[onp.ix_(fr, fr)], R)
        else:
            raise Skip('no convergence of the reference')
        try:
            sols = [onp.asarray(solver(q, solver_options={'spsolve_solver': {}, 'tol': 1e-10})[0])[:, 0] for q in (p, p2)]
        except AssertionError:
            raise Skip('no convergence')
        close(sols[0], sols[1], "solutions with surface kernel and surface map", rtol=1e-7)
        Rs = (K @ sols[0] - F + surf(sols[0])[0])[fr]
        close(Rs, 0 * Rs, "balance at the solution", atol=1e-7)
        close(sols[0][fixed], onp.ones(len(fixed)), "boundary values", atol=1e-12)
        if onp.abs(w - sols[0]).max() > 1e-6 and (w > 0).all() and (sols[0] > 0).all():
            require(False, "two different positive solutions of a monotone problem")
    return {'nontrivial': all(len(f) for f in faces), 'labels': [rm.ele, 'solve' if case['solve'] else 'residual'], 'observed': f"{[len(f) for f in faces]} faces"}


# ------------------------------------------------------------------------------------------------ elasticity split in two

@st.composite
def split_st(draw):
    ele = draw(st.sampled_from(['HEX8', 'HEX8', 'TET4']))
    return {'mesh': {'ele': ele, 'n': [2, 1, 1] if ele == 'HEX8' else [1, 1, 1], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .15])),
                     'shuffle': draw(st.booleans())}, 'solve': draw(st.booleans()), 'seed': draw(fem.seeds())}


def run_split(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    m1, m2 = split('1var'), split('2vars')
    rng = onp.random.default_rng(case['seed'])
    rm = straight(case['mesh'])
    n = len(rm.points)
    P = rm.points
    left, right = onp.where(P[:, 0] < 1e-9)[0], onp.where(P[:, 0] > 1 - 1e-9)[0]
    vals = .1 * rng.normal(size=6)
    V = [(lambda point, v=float(v): v) for v in vals]
    b1 = [[at(left)] * 3 + [at(right)] * 3, [0, 1, 2] * 2, V]
    bx = [[at(left), at(right)], [0, 0], [V[0], V[3]]]
    by = [[at(left)] * 2 + [at(right)] * 2, [0, 1] * 2, [V[1], V[2], V[4], V[5]]]
    mesh = fem.jmesh(rm)
    p1 = m1.LinearElasticity(mesh, vec=3, dim=3, ele_type=rm.ele, dirichlet_bc_info=b1)
    p2 = m2.LinearElasticity([mesh] * 2, vec=[1, 2], dim=3, ele_type=[rm.ele] * 2, quadrature_order=[None, None], dirichlet_bc_info=[bx, by])
    E, nu = 70e3, .3
    mu, lam = E / 2 / (1 + nu), E * nu / (1 + nu) / (1 - 2 * nu)
    _, _, G, JxW = rm.tabulate()
    K = onp.zeros((3 * n, 3 * n))
    for c, ids in enumerate(rm.cells):
        g, w = G[c], JxW[c]
        kk = lam * onp.einsum('qai,qbj,q->aibj', g, g, w) + mu * (onp.einsum('qaj,qbi,q->aibj', g, g, w) + onp.einsum('qak,qbk,ij,q->aibj', g, g, onp.eye(3), w))
        du = (3 * ids[:, None] + onp.arange(3)).reshape(-1)
        K[onp.ix_(du, du)] += kk.reshape(len(du), -1)
    u = rng.normal(size=(n, 3))
    R = (K @ u.reshape(-1)).reshape(n, 3)
    r1 = onp.asarray(p1.compute_residual([np.asarray(u)])[0])
    r2 = [onp.asarray(x) for x in p2.compute_residual([np.asarray(u[:, :1]), np.asarray(u[:, 1:])])]
    close(r1, R, "residual of the displacement problem", rtol=1e-9, scale=onp.abs(K).max())
    close(onp.concatenate(r2, 1), R, "residual of the split problem", rtol=1e-9, scale=onp.abs(K).max())
    if case['solve']:
        z = onp.zeros((n, 3))
        z[left], z[right] = vals[:3], vals[3:]
        fixed = (3 * onp.concatenate([left, right])[:, None] + onp.arange(3)).reshape(-1)
        fr = onp.setdiff1d(onp.arange(3 * n), fixed)
        z = z.reshape(-1)
        if len(fr):
            z[fr] = onp.linalg.solve(K[onp.ix_(fr, fr)], -(K[onp.ix_(fr, fixed)] @ z[fixed]))
        o = {'spsolve_solver': {}}
        s1 = onp.asarray(solver(p1, solver_options=o)[0])
        s2 = onp.concatenate([onp.asarray(x) for x in solver(p2, solver_options=o)], 1)
        close(s1.reshape(-1), z, "displacement", rtol=1e-7)
        close(s2.reshape(-1), z, "displacement of the split problem", rtol=1e-7)
    return {'nontrivial': True, 'labels': [rm.ele, 'solve' if case['solve'] else 'residual'], 'observed': f"{n} nodes"}


SUBS = {
    'stokes': {'strategy': stokes_st, 'run': run_stokes, 'examples': {'quick': 64, 'thorough': 1500}, 'weight': 1.6},
    'thermoelastic': {'strategy': thermo_st, 'run': run_thermo, 'examples': {'quick': 40, 'thorough': 1000}, 'weight': 1.2},
    'robin': {'strategy': robin_st, 'run': run_robin, 'examples': {'quick': 32, 'thorough': 600}, 'weight': 1.},
    'split': {'strategy': split_st, 'run': run_split, 'examples': {'quick': 24, 'thorough': 300}, 'weight': .8},
}

"""C29: laser powder bed fusion (applications/thermal_mechanical/example.py)."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, Skip, Violation

RULE = """Sub 'point': histories of strain and temperature increments with phase changes for a batch of material points: return-mapping conditions, elastic
steps, thermal strain of solid only, soft powder, tangent.  Sub 'state': sequences of temperature and displacement fields on meshes: phase
transitions, temperature increments, stress and strain memory.  Sub 'heat': laser passes solved in time against NumPy (every step) and energy balance.
Sub 'coupled': heat, phase change and mechanics solved alternately; equilibrium judged with NumPy.  Non-trivial: some point yields and some does not
('point'); all three phases occur ('state'); the laser is switched ('heat'); yielding with solid present ('coupled')."""
BUDGET_S = {'quick': 120, 'thorough': 900}
CASE_CPU_S = 200
B = 24
E0, SIG0, NU, AV = 70e9, 250e6, .3, 1e-5


def mod():
    return app.load('/applications/thermal_mechanical/example.py', 'thermal_mechanical_example', defs_only=True)


def sym(H):
    return .5 * (H + onp.swapaxes(H, -1, -2))


def dev(s):
    return s - onp.trace(s, axis1=-2, axis2=-1)[..., None, None] / 3 * onp.eye(3)


def mises(s):
    d = dev(s)
    return onp.sqrt(1.5 * (d * d).sum((-1, -2)))


def hooke(e, E):
    mu, lam = E / (2 * (1 + NU)), E * NU / ((1 + NU) * (1 - 2 * NU))
    t = onp.trace(e, axis1=-2, axis2=-1)
    return onp.asarray(lam * t)[..., None, None] * onp.eye(3) + 2 * onp.asarray(mu)[..., None, None] * e


def ref_update(H, s_old, e_old, dT, phase, m):
    """stress, trial stress; dT and phase have a trailing axis of one"""
    solid = (phase[..., 0] == m.SOLID)
    E = onp.where(solid, E0, 1e-2 * E0)
    th = onp.where(solid, AV, 0.) * dT[..., 0]
    trial = hooke(sym(H) - e_old - th[..., None, None] * onp.eye(3), E) + s_old
    q = mises(trial)
    f = onp.where(q > 0, pos(q - SIG0) / onp.where(q > 0, q, 1.), 0.)
    return trial - f[..., None, None] * dev(trial), trial


def pos(x):
    return onp.maximum(x, 0.)


_c = {}


def tet():
    return fem.make_mesh({'ele': 'TET4', 'n': [1, 1, 1], 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': False})


def maps():
    if 'm' not in _c:
        import jax
        p = mod().Plasticity(fem.jmesh(tet()), vec=3, dim=3, ele_type='TET4')
        strain, ret, yv = p.get_maps()
        T = p.get_tensor_map()
        v = lambda f: jax.jit(jax.vmap(f))
        _c['m'] = (v(strain), v(ret), v(yv), v(T), v(jax.jacfwd(T)))
    return _c['m']


KINDS = ['stretch', 'stretch', 'iso', 'vol', 'rot', 'reverse', 'hold', 'edge', 'heat', 'heat']


@st.composite
def point_st(draw):
    n = draw(st.integers(1, 5))
    return {'steps': [[draw(st.sampled_from(KINDS)), draw(st.sampled_from([-5., -4., -3., -2.5, -2., -1.])), draw(st.sampled_from([0., 0., 100., -400., 1500.]))]
                      for _ in range(n)],
            'phases': draw(st.sampled_from(['solid', 'mixed', 'mixed', 'powder'])), 'seed': draw(fem.seeds())}


def run_point(case):
    import jax.numpy as np
    m = mod()
    rng = onp.random.default_rng(case['seed'])
    strain, ret, yv, T, J = maps()
    phase = {'solid': onp.full((B, 1), m.SOLID), 'powder': onp.full((B, 1), m.POWDER), 'mixed': rng.choice([m.POWDER, m.LIQUID, m.SOLID], (B, 1))}[case['phases']]
    phase = phase.astype(onp.int32)
    H, s, e = onp.zeros((B, 3, 3)), onp.zeros((B, 3, 3)), onp.zeros((B, 3, 3))
    plastic = elastic = False
    last = onp.zeros_like(H)
    for k, (kind, amp, dTv) in enumerate(case['steps']):
        D = rng.normal(size=(B, 3, 3))
        D /= onp.abs(D).max((1, 2), keepdims=True)
        D *= 10. ** amp * rng.uniform(.3, 1., (B, 1, 1))
        if kind == 'iso':
            D = dev(sym(D))
        elif kind == 'vol':
            D = onp.trace(D, axis1=1, axis2=2)[:, None, None] / 3 * onp.eye(3)
        elif kind == 'rot':
            D = .5 * (D - onp.swapaxes(D, 1, 2))
        elif kind == 'reverse':
            D = -last
        elif kind in ('hold', 'heat'):
            D = 0 * D
        elif kind == 'edge':
            # scale the increment so that the trial stress is close to the yield surface
            lo, hi = onp.zeros(B), onp.full(B, 1.)
            for _ in range(60):
                mid = .5 * (lo + hi)
                q = mises(ref_update(H + mid[:, None, None] * D, s, e, onp.zeros((B, 1)), phase, m)[1])
                lo, hi = onp.where(q < SIG0, mid, lo), onp.where(q < SIG0, hi, mid)
            D = D * (lo * (1 + rng.choice([-1e-6, 1e-6, 1e-3], B)))[:, None, None]
        last = D
        dT = onp.full((B, 1), dTv) * rng.uniform(.5, 1., (B, 1)) if kind == 'heat' or dTv == 0. else onp.zeros((B, 1))
        H = H + D
        a = [np.asarray(x) for x in (H, s, e, dT, phase)]
        new = onp.asarray(ret(*a))
        want, trial = ref_update(H, s, e, dT, phase, m)
        # the stress is a difference of terms of this size, which limits what rounding leaves of it
        sc = max(float(onp.abs(trial).max()), float(onp.abs(s).max()), 3 * E0 * float(onp.abs(sym(H)).max()), 3 * E0 * float(onp.abs(e).max()), 1e3)
        require(onp.isfinite(new).all(), "step %d: stress is not finite", k + 1)
        close(new, want, f"step {k + 1} ({kind}): stress", rtol=1e-10, scale=sc)
        close(onp.asarray(T(*a)), new, f"step {k + 1}: the tensor map is not the stress update", rtol=1e-14, scale=sc)
        q, qt = mises(new), mises(trial)
        require((q <= SIG0 * (1 + 1e-9) + 1e-12 * sc).all(), "step %d: stress outside the yield surface (%.9g)", k + 1, q.max() / SIG0)
        el = qt < SIG0 * (1 - 1e-9)
        close(new[el], trial[el], f"step {k + 1}: an elastic step is not elastic", rtol=1e-11, scale=sc)
        close(onp.trace(new, axis1=1, axis2=2), onp.trace(trial, axis1=1, axis2=2), f"step {k + 1}: pressure changed by the return", rtol=1e-10, scale=sc)
        f, s00 = yv(*a)
        close(onp.asarray(f), pos(qt - SIG0), f"step {k + 1}: reported overstress", rtol=1e-9, scale=sc)
        close(onp.asarray(s00), new[:, 0, 0], f"step {k + 1}: reported stress", rtol=1e-12, scale=sc)
        jac = onp.asarray(J(*a))
        require(onp.isfinite(jac).all(), "step %d: tangent is not finite", k + 1)
        off = onp.abs(qt - SIG0) > 2e-3 * SIG0
        X = rng.normal(size=(B, 3, 3))
        h = 1e-7
        fd = (ref_update(H + h * X, s, e, dT, phase, m)[0] - ref_update(H - h * X, s, e, dT, phase, m)[0]) / (2 * h)
        close(onp.einsum('bijkl,bkl->bij', jac, X)[off], fd[off], f"step {k + 1}: tangent", rtol=1e-4, atol=1e-6 * E0)
        eps = onp.asarray(strain(np.asarray(H)))
        close(eps, sym(H), f"step {k + 1}: strain", rtol=1e-13, atol=1e-16)
        plastic, elastic = plastic or bool((qt > SIG0).any()), elastic or bool(el.any())
        s, e = new, eps
    # holding the strain changes nothing
    a = [np.asarray(x) for x in (H, s, e, onp.zeros((B, 1)), phase)]
    close(onp.asarray(ret(*a)), s, "holding the state changes the stress", rtol=1e-8, atol=1.)
    return {'nontrivial': plastic and elastic, 'labels': [case['phases']] + sorted({k for k, _, _ in case['steps']}), 'observed': f"{len(case['steps'])} steps, mises {mises(s).max():.4g}"}


# ------------------------------------------------------------------------------------------------------ meshes

def plate(desc):
    """mesh of the example's plate; its sides stay plane"""
    m = mod()
    rm = fem.make_mesh(desc)
    P = rm.points.copy()
    for k in range(3):
        P[rm.grid[:, k] < 1e-9, k] = 0.
        P[rm.grid[:, k] > 1 - 1e-9, k] = 1.
    L = onp.array([m.Lx, m.Ly, m.Lz])
    out = fem.RefMesh(rm.ele, P * L, rm.cells)
    if out.min_det()[0] <= 0 or ((P > .7) & (rm.grid < 1 - 1e-9)).any() or ((P < .3) & (rm.grid > 1e-9)).any():
        out = fem.RefMesh(rm.ele, rm.grid * L, rm.cells)
    return out


@st.composite
def plate_st(draw, sizes=((2, 2, 1), (3, 2, 2))):
    return {'ele': 'HEX8', 'n': list(draw(st.sampled_from(sizes))), 'seed': draw(fem.seeds()), 'grade': False, 'jitter': draw(st.sampled_from([0., .1])),
            'curve': 0., 'affine': False, 'shuffle': draw(st.booleans())}


@st.composite
def state_st(draw):
    return {'mesh': draw(plate_st()), 'seed': draw(fem.seeds()),
            'T': draw(st.lists(st.sampled_from(['cold', 'hot', 'patchy', 'patchy', 'edge', 'warm']), min_size=2, max_size=6)), 'amp': draw(st.sampled_from([1e-4, 1e-3, 1e-2]))}


def grads(rm, u, tab):
    return onp.einsum('cni,cqnj->cqij', u[rm.cells], tab[2])


def run_state(case):
    import jax.numpy as np
    m = mod()
    rm = plate(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    tab = rm.tabulate()
    N = tab[1]
    p = m.Plasticity(fem.jmesh(rm), vec=3, dim=3, ele_type='HEX8')
    par = list(p.internal_vars)
    shp = tab[3].shape
    require([onp.asarray(x).shape for x in par] == [shp + (3, 3), shp + (3, 3), shp + (1,), shp + (1,)], "initial state has shapes %s", [onp.asarray(x).shape for x in par])
    require(all(not onp.asarray(x).any() for x in par[:3]) and (onp.asarray(par[3]) == m.POWDER).all(), "the initial state is not unstressed powder")
    ph, s, e = onp.full(shp + (1,), m.POWDER), onp.zeros(shp + (3, 3)), onp.zeros(shp + (3, 3))
    n = len(rm.points)
    Told, u = onp.full((n, 1), m.T0), onp.zeros((n, 3))
    seen = set()
    for k, kind in enumerate(case['T']):
        T = {'cold': onp.full((n, 1), 400.), 'hot': onp.full((n, 1), 2000.), 'patchy': rng.uniform(300, 2900, (n, 1)), 'edge': onp.full((n, 1), float(m.Tl)),
             'warm': m.Tl + rng.uniform(-5, 5, (n, 1))}[kind]
        par = list(p.update_dT_and_phase(np.asarray(T - Told), np.asarray(T), par))
        Tq = (T[rm.cells, 0] @ N.T)[..., None]
        dq = ((T - Told)[rm.cells, 0] @ N.T)[..., None]
        old = ph
        if kind == 'edge':
            ph = onp.asarray(par[3])               # at the liquidus itself rounding decides; take what was decided if it is legal
            ok = (ph == old) | ((old == m.POWDER) & (ph == m.LIQUID)) | ((old == m.LIQUID) & (ph == m.SOLID))
            require(ok.all(), "illegal phase change at the liquidus temperature")
        else:
            ph = onp.where((old == m.POWDER) & (Tq > m.Tl), m.LIQUID, onp.where((old == m.LIQUID) & (Tq < m.Tl), m.SOLID, old))
            sure = onp.abs(Tq - m.Tl) > 1e-6
            bad = (onp.asarray(par[3]) != ph) & sure
            if bad.any():
                i = tuple(int(j) for j in onp.argwhere(bad)[0])
                require(False, "state %d: phase %d at %.6g K becomes %d, expected %d (liquidus %g)", k + 1, old[i], Tq[i], int(onp.asarray(par[3])[i]), ph[i], m.Tl)
            ph = onp.asarray(par[3])
        seen |= set(onp.unique(ph).tolist())
        close(onp.asarray(par[2]), dq, "temperature increment at the quadrature points", rtol=1e-10, atol=1e-9)
        close(onp.asarray(par[0]), s, "heating alone changes the stored stress", rtol=1e-12, atol=1e-9)
        close(onp.asarray(par[1]), e, "heating alone changes the stored strain", rtol=1e-12, atol=1e-15)
        u = u + case['amp'] * m.Lz * rng.uniform(-1, 1, u.shape)
        H = grads(rm, u, tab)
        want, trial = ref_update(H, s, e, dq, ph, m)
        # the force the solver balances uses the state before the update
        p.set_params(par)
        R = onp.zeros_like(u)
        onp.add.at(R, rm.cells, onp.einsum('cqij,cqnj,cq->cni', want, tab[2], tab[3]))
        r = onp.asarray(p.compute_residual([np.asarray(u)])[0])
        close(r, R, f"internal force in state {k + 1}", rtol=1e-8, atol=1e-9 * onp.abs(R).max() + 1e-12)
        par, info = p.update_stress_strain(np.asarray(u), par)
        par = list(par)
        close(onp.asarray(par[0]), want, f"stored stress after state {k + 1}", rtol=1e-9, atol=1., scale=onp.abs(trial).max())
        close(onp.asarray(par[1]), sym(H), f"stored strain after state {k + 1}", rtol=1e-9, atol=1e-14)
        close(onp.asarray(par[2]), dq, "the mechanical update changes the temperature increment", rtol=1e-10, atol=1e-9)
        require((onp.asarray(par[3]) == ph).all(), "the mechanical update changes the phase")
        close(onp.asarray(info[0]), pos(mises(trial) - SIG0), "reported overstress", rtol=1e-8, atol=1., scale=onp.abs(trial).max())
        s, e, Told = onp.asarray(par[0]), onp.asarray(par[1]), T
    return {'nontrivial': len(seen) == 3, 'labels': ['phases=' + ','.join(str(int(i)) for i in sorted(seen))] + sorted(set(case['T'])), 'observed': f"{len(case['T'])} states, phases {sorted(seen)}"}


def sets(rm):
    m = mod()
    L = [m.Lx, m.Ly, m.Lz]
    P = rm.points
    top, walls = [], []
    for k, (c, f) in rm.boundary:
        v = P[sorted(k)]
        if onp.abs(v[:, 2] - m.Lz).max() < 1e-9:
            top.append((c, f))
        if any(onp.abs(v[:, j] - t).max() < 1e-9 for j in (0, 1) for t in (0., L[j])):
            walls.append((c, f))
    return top, walls


def heat_system(rm, m, T_old, dt, centre, switch):
    x, N, G, JxW = rm.tabulate()
    n = len(rm.points)
    K, F = onp.zeros((n, n)), onp.zeros(n)
    cap = m.rho * m.Cp / dt
    told = T_old[rm.cells] @ N.T
    for c, ids in enumerate(rm.cells):
        K[onp.ix_(ids, ids)] += m.k * onp.einsum('qai,qbi,q->ab', G[c], G[c], JxW[c]) + cap * onp.einsum('qa,qb,q->ab', N, N, JxW[c])
        F[ids] += cap * onp.einsum('qa,q,q->a', N, told[c], JxW[c])
    top, walls = sets(rm)
    power = 0.
    for name, faces in (('top', top), ('walls', walls)):
        for c, f in faces:
            xs, Nf, _, w, _ = rm.tab_face(c, f)
            ids = rm.cells[c]
            t = Nf @ T_old[ids]
            q = m.h * (m.T0 - t) + m.SB_constant * m.emissivity * (m.T0**4 - t**4)
            if name == 'top':
                q = q + 2 * m.eta * m.P / (onp.pi * m.rb**2) * onp.exp(-2 * ((xs[:, :2] - centre[:2]) ** 2).sum(1) / m.rb**2) * switch
            F[ids] += Nf.T @ (w * q)
            power += (w * q).sum()
    return K, F, power, cap, N, JxW


@st.composite
def heat_st(draw):
    return {'mesh': draw(plate_st()), 'seed': draw(fem.seeds()), 'dt': draw(st.sampled_from([2e-6, 2e-5, 1e-3])),
            'switch': draw(st.lists(st.sampled_from([0., 1., 1.]), min_size=2, max_size=4)), 'start': draw(st.sampled_from(['ambient', 'hot']))}


def run_heat(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    m = mod()
    rm = plate(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    keep = m.dt
    m.dt = case['dt']
    try:
        p = m.Thermal(fem.jmesh(rm), vec=1, dim=3, ele_type='HEX8', location_fns=[m.top, m.walls], dirichlet_bc_info=[[m.bottom], [0], [m.thermal_dirichlet_bottom]])
        n = len(rm.points)
        bottom = rm.points[:, 2] < 1e-9
        top, walls = sets(rm)
        require([len(b) for b in p.boundary_inds_list] == [len(top), len(walls)], "selected %s faces, expected %s", [len(b) for b in p.boundary_inds_list], [len(top), len(walls)])
        T = onp.full(n, m.T0) if case['start'] == 'ambient' else rng.uniform(300, 1800, n)
        rise = 0.
        for k, sw in enumerate(case['switch']):
            centre = onp.array([rng.uniform(0, m.Lx), rng.uniform(0, m.Ly), m.Lz])
            p.set_params([np.asarray(T[:, None]), np.asarray(centre), sw])
            new = onp.asarray(solver(p, solver_options={'spsolve_solver': {}})[0])[:, 0]
            K, F, power, cap, N, JxW = heat_system(rm, m, T, m.dt, centre, sw)
            want = onp.full(n, float(m.T0))
            fr = ~bottom
            want[fr] = onp.linalg.solve(K[onp.ix_(fr, fr)], F[fr] - K[onp.ix_(fr, bottom)] @ want[bottom])
            sc = max(onp.abs(want).max(), onp.abs(T).max())
            close(new, want, f"temperature after step {k + 1}", rtol=1e-6, atol=1e-4, scale=sc)
            # energy: heat stored = heat through the surfaces + reaction at the cooled bottom
            stored = cap * onp.einsum('cq,cq->', (new - T)[rm.cells] @ N.T, JxW)
            react = (K @ new - F)[bottom].sum()
            close(stored, power + react, "energy balance", rtol=1e-5, atol=1e-9, scale=abs(power) + abs(react))
            rise = max(rise, onp.abs(new - m.T0).max())
            T = new
    finally:
        m.dt = keep
    return {'nontrivial': len(set(case['switch'])) == 2, 'labels': [case['start'], f"dt={case['dt']:g}"], 'observed': f"temperatures within {rise:.4g} K of ambient"}


@st.composite
def coupled_st(draw):
    return {'mesh': draw(plate_st(sizes=((2, 2, 1),))), 'seed': draw(fem.seeds()), 'T': draw(st.lists(st.sampled_from(['cold', 'hot', 'patchy', 'warm']), min_size=2, max_size=4))}


def run_coupled(case):
    """temperatures are prescribed fields, mechanics is solved"""
    import jax.numpy as np
    from jax_fem.solver import solver
    m = mod()
    rm = plate(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    tab = rm.tabulate()
    p = m.Plasticity(fem.jmesh(rm), vec=3, dim=3, ele_type='HEX8', dirichlet_bc_info=[[m.bottom] * 3, [0, 1, 2], [m.displacement_dirichlet_bottom] * 3])
    bottom = rm.points[:, 2] < 1e-9
    par = list(p.internal_vars)
    n = len(rm.points)
    Told, sol = onp.full((n, 1), m.T0), [np.zeros((n, 3))]
    yielded = solid = False
    for k, kind in enumerate(case['T']):
        T = {'cold': onp.full((n, 1), 400.), 'hot': onp.full((n, 1), 2000.), 'patchy': rng.uniform(300, 2900, (n, 1)), 'warm': rng.uniform(1000, 1500, (n, 1))}[kind]
        par = list(p.update_dT_and_phase(np.asarray(T - Told), np.asarray(T), par))
        p.set_params(par)
        try:
            sol = solver(p, solver_options={'spsolve_solver': {}, 'initial_guess': sol, 'tol': 1e-6, 'rel_tol': 1e-8})
        except AssertionError as err:
            # without hardening the tangent may be singular and Newton may diverge; residual and tangent themselves are judged in 'state' and 'point'
            if 'NaN' not in str(err):
                raise
            raise Skip('no convergence')
        u = onp.asarray(sol[0])
        require(onp.isfinite(u).all(), "displacement is not finite")
        close(u[bottom], 0 * u[bottom], "the base moves", atol=1e-12)
        old = [onp.asarray(x) for x in par]
        s, trial = ref_update(grads(rm, u, tab), old[0], old[1], old[2], old[3], m)
        f = onp.einsum('cqij,cqnj,cq->cqni', s, tab[2], tab[3])
        R = onp.zeros_like(u)
        onp.add.at(R, rm.cells, f.sum(1))
        # the solver stops at |residual| < 1e-6 (absolute) or 1e-8 of the first one; forces of SIG0 on a face of the mesh are about 1
        close(R[~bottom], 0 * R[~bottom], f"out-of-balance force in step {k + 1}", atol=2e-6 + 1e-7 * onp.abs(f).max() + 2e-8 * AV * E0 * onp.abs(tab[2] * tab[3][..., None, None]).max() * 3000)
        par, info = p.update_stress_strain(sol[0], par)
        par = list(par)
        close(onp.asarray(par[0]), s, f"stored stress after step {k + 1}", rtol=1e-9, atol=1., scale=onp.abs(trial).max())
        yielded = yielded or bool((onp.asarray(info[0]) > 0).any())
        solid = solid or bool((old[3] == m.SOLID).any())
        Told = T
    return {'nontrivial': yielded and solid, 'labels': sorted(set(case['T'])) + (['yield'] if yielded else []), 'observed': f"{len(case['T'])} steps"}


SUBS = {
    'point': {'strategy': point_st, 'run': run_point, 'examples': {'quick': 800, 'thorough': 10000}, 'weight': .7},
    'state': {'strategy': state_st, 'run': run_state, 'examples': {'quick': 120, 'thorough': 1500}, 'weight': 1.},
    'heat': {'strategy': heat_st, 'run': run_heat, 'examples': {'quick': 80, 'thorough': 800}, 'weight': 1.},
    'coupled': {'strategy': coupled_st, 'run': run_coupled, 'examples': {'quick': 64, 'thorough': 600}, 'weight': 1.},
}

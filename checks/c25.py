"""C25: element birth (applications/quiet_element/example.py)."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, Skip

RULE = """Sub 'faces': activation histories (monotone, starting from nothing, part or all; cell by cell, in layers, by a moving disc, with
holes) on renumbered meshes of hexahedra and tetrahedra; after every event the incremental face tables, flags and quiet nodes must equal
the ones recomputed from scratch by an independent face count, and from the code's own initialiser.  Sub 'heat': the same kind of history
solved in time; every step must equal the heat equation assembled in NumPy on the active cells alone, quiet nodes must stay at ambient
temperature.  Non-trivial: at least two births, the second joining faces of cells born earlier."""
BUDGET_S = {'quick': 120, 'thorough': 900}
CASE_CPU_S = 150


def mod():
    return app.load('/applications/quiet_element/example.py', 'quiet_element_example')


ELES = ['HEX8', 'HEX8', 'HEX8', 'TET4', 'HEX20', 'TET10']


@st.composite
def births(draw, nmax):
    return [[draw(st.sampled_from(['cell', 'layer', 'disc', 'random', 'none', 'rest', 'many'])), draw(st.integers(0, 2**16))]
            for _ in range(draw(st.integers(2, nmax)))]


@st.composite
def faces_st(draw):
    ele = draw(st.sampled_from(ELES))
    sizes = [[2, 2, 1], [3, 2, 2]] if ele == 'HEX8' else [[1, 1, 1]] if 'TET' in ele else [[2, 2, 1]]
    return {'mesh': {'ele': ele, 'n': draw(st.sampled_from(sizes)), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., .15])), 'curve': 0., 'affine': False, 'shuffle': draw(st.booleans())},
            'start': draw(st.sampled_from(['empty', 'layer', 'random', 'cell', 'all'])), 'births': draw(births(6)),
            'seed': draw(fem.seeds()), 'z': draw(st.sampled_from(['layer', 'layer', 'off', 'near']))}


@st.composite
def heat_st(draw):
    ele = draw(st.sampled_from(['HEX8', 'HEX8', 'TET4']))
    return {'mesh': {'ele': ele, 'n': draw(st.sampled_from([[2, 2, 2], [3, 1, 2]] if ele == 'HEX8' else [[1, 1, 1]])), 'seed': draw(fem.seeds()),
                     'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .1])), 'curve': 0., 'affine': False,
                     'shuffle': draw(st.booleans())},
            'start': draw(st.sampled_from(['layer', 'random', 'cell', 'empty'])), 'births': draw(births(4)), 'seed': draw(fem.seeds()),
            'dts': draw(st.lists(st.sampled_from([1e-3, 1e-2, 1e-1, 1., 1e3]), min_size=4, max_size=4)),
            'switch': draw(st.lists(st.sampled_from([0., 1., 1.]), min_size=4, max_size=4))}


def pick(rm, kind, seed, active, rng):
    """cells to activate next (mask)"""
    nc = len(rm.cells)
    quiet = onp.where(~active)[0]
    cen = rm.points[rm.cells].mean(1)
    r = onp.random.default_rng(seed)
    new = onp.zeros(nc, bool)
    if kind == 'rest':
        new[:] = True
    elif kind == 'none' or len(quiet) == 0:
        pass
    elif kind == 'cell':
        new[r.choice(quiet)] = True
    elif kind == 'layer':
        z = cen[quiet, 2].min()
        new[onp.isclose(cen[:, 2], z, atol=.3 * onp.ptp(rm.points[:, 2]) / 3)] = True
    elif kind == 'disc':
        c = cen[r.choice(quiet)]
        new[(onp.hypot(*(cen - c)[:, :2].T) < .6 * onp.ptp(rm.points[:, 0])) & (cen[:, 2] <= c[2] + 1e-9)] = True
    else:
        new[quiet[r.uniform(size=len(quiet)) < (.3 if kind == 'random' else .7)]] = True
    return active | new


def history(case, rm):
    rng = onp.random.default_rng(case['seed'])
    nc = len(rm.cells)
    act = onp.zeros(nc, bool)
    if case['start'] == 'all':
        act[:] = True
    elif case['start'] != 'empty':
        act = pick(rm, case['start'], case['seed'], act, rng)
    out = [act]
    for kind, s in case['births']:
        act = pick(rm, kind, s, act, rng)
        out.append(act)
    return out


def external(rm, active):
    """(cell, frozenset of vertices) of every face that belongs to exactly one active cell, and the number of inner faces"""
    ext, inner = set(), 0
    for k, cf in rm.faces_by_verts.items():
        on = [c for c, _ in cf if active[c]]
        if len(on) == 1:
            ext.add((on[0], k))
        inner += len(on) == 2
    return ext, inner


def face_keys(fe, rm, faces):
    """translate the code's (cell, local face) pairs to (cell, vertices)"""
    fi = onp.asarray(fe.face_inds)
    nv = rm.ref.nv
    out = []
    for c, f in onp.asarray(faces):
        nodes = rm.cells[int(c)][fi[int(f)]]
        verts = set(int(v) for v in rm.cells[int(c)][:nv])
        out.append((int(c), frozenset(int(n) for n in nodes if int(n) in verts)))
    return out


def problem(m, rm, seed=0):
    fns = [lambda p: True]
    return m.Thermal(fem.jmesh(rm), vec=1, dim=3, ele_type=rm.ele, location_fns=fns,
                     dirichlet_bc_info=[[lambda x: False], [0], [lambda p: m.T0]])


def scaled(case):
    rm = fem.make_mesh(case['mesh'])
    rm2 = fem.RefMesh(rm.ele, rm.points * 1e-3, rm.cells)
    return rm2


def check_state(m, p, rm, active, ext_code, z):
    fe = p.fes[0]
    want, inner = external(rm, active)
    got = face_keys(fe, rm, ext_code)
    require(len(got) == len(set(got)), "an external face is listed twice: %s", sorted((c, sorted(k)) for c, k in got))
    if set(got) != want:
        a, b = set(got) - want, want - set(got)
        require(False, "external faces of the active cells %s: listed but not external %s; missing %s", onp.where(active)[0].tolist(),
                sorted((c, sorted(k)) for c, k in a), sorted((c, sorted(k)) for c, k in b))
    tab = onp.asarray(m.get_active_face_truth_tab(p, ext_code, z))
    sel = onp.asarray(p.boundary_inds_list[0])
    require(len(sel) == len(rm.cells) * len(rm.ref.faces), "the set of all faces holds %d entries, expected %d", len(sel),
            len(rm.cells) * len(rm.ref.faces))
    require(tab.shape == (len(sel), 2), "face flag table has shape %s, expected %s", tab.shape, (len(sel), 2))
    keys = face_keys(fe, rm, sel)
    for k, key in enumerate(keys):
        e = key in want
        require(bool(tab[k, 0]) == e, "face %s of cell %d is %sexternal but flagged %s", sorted(key[1]), key[0], '' if e else 'not ', bool(tab[k, 0]))
        dz = onp.abs(rm.points[sorted(key[1]), 2] - z).max()
        if dz < 5e-6 or dz > 3e-5:
            require(bool(tab[k, 1]) == (e and dz < 5e-6), "face %s of cell %d (external: %s, height off the laser plane by %.3g) has top flag %s",
                    sorted(key[1]), key[0], e, dz, bool(tab[k, 1]))
    q = onp.asarray(m.get_quiet_point_inds_set(p, active))
    want_q = sorted(set(range(len(rm.points))) - set(rm.cells[active].reshape(-1).tolist()))
    require(sorted(q.tolist()) == want_q, "quiet nodes are %s, expected %s", sorted(q.tolist()), want_q)
    return tab, q, inner


def run_faces(case):
    m = mod()
    rm = scaled(case)
    hist = history(case, rm)
    p = problem(m, rm)
    rng = onp.random.default_rng(case['seed'] + 5)
    zs = onp.unique(onp.round(rm.points[rm.cells[:, :rm.ref.nv], 2].max(1), 9))
    cuts = {'layer': 0., 'off': 2.3e-4, 'near': 4e-6}[case['z']]
    ext, faces, hm, inn, allf = m.initialize_hash_map(p, hist[0])
    _, inner = check_state(m, p, rm, hist[0], ext, float(rng.choice(zs)) + cuts)[1:]
    joined, nb = 0, 0
    for old, new in zip(hist[:-1], hist[1:]):
        nb += bool((old != new).any())
        ext = m.update_hash_map(old, new, faces, hm, inn, allf)
        tab, q, k = check_state(m, p, rm, new, ext, float(rng.choice(zs)) + cuts)
        joined += bool(k > inner and old.any() and external(rm, new & ~old)[1] < k - inner)
        inner = k
        fresh = m.initialize_hash_map(p, new)[0]
        require(set(map(tuple, onp.asarray(fresh).tolist())) == set(map(tuple, onp.asarray(ext).tolist())),
                "the table initialised from scratch differs from the updated one")
    return {'nontrivial': nb >= 2 and joined >= 1, 'labels': [rm.ele, 'start=' + case['start'], 'z=' + case['z'], f'joined={min(joined, 3)}'],
            'observed': f"{nb} births, {joined} joining older faces, {inner} inner faces at the end"}


def ref_step(m, rm, active, T_old, dt, centre, switch, top_z):
    """backward Euler heat step on the active cells only (linear): returns temperatures, with ambient at quiet nodes"""
    n = len(rm.points)
    K, F = onp.zeros((n, n)), onp.zeros(n)
    x, N, g, JxW = rm.tabulate()
    told = T_old[rm.cells] @ N.T                   # (c, q)
    for c in onp.where(active)[0]:
        ids = rm.cells[c]
        K[onp.ix_(ids, ids)] += 15. * onp.einsum('qai,qbi,q->ab', g[c], g[c], JxW[c]) + m.rho * m.Cp / dt * onp.einsum('qa,qb,q->ab', N, N, JxW[c])
        F[ids] += m.rho * m.Cp / dt * onp.einsum('qa,q,q->a', N, told[c], JxW[c])
    lookup = {}
    for k, cf in rm.faces_by_verts.items():
        for c, f in cf:
            lookup[(c, k)] = f
    ext, _ = external(rm, active)
    laser = 0
    for c, k in ext:
        f = lookup[(c, k)]
        xs, Nf, _, w, _ = rm.tab_face(c, f)
        ids = rm.cells[c]
        q = m.h * (m.T0 - Nf @ T_old[ids])
        if onp.abs(rm.points[sorted(k), 2] - top_z).max() < 5e-6:
            d2 = ((xs[:, :2] - centre[:2]) ** 2).sum(1)
            q = q + 2 * m.eta * m.P / (onp.pi * m.rb**2) * onp.exp(-2 * d2 / m.rb**2) * switch
            laser += 1
        F[ids] += Nf.T @ (w * q)
    on = onp.unique(rm.cells[active])
    T = onp.full(n, float(m.T0))
    if len(on):
        T[on] = onp.linalg.solve(K[onp.ix_(on, on)], F[on])
    return T, laser


def run_heat(case):
    from jax_fem.solver import solver
    import jax.numpy as np
    m = mod()
    rm = scaled(case)
    hist = history(case, rm)
    p = problem(m, rm)
    rng = onp.random.default_rng(case['seed'] + 5)
    ext, faces, hm, inn, allf = m.initialize_hash_map(p, hist[0])
    sol = [m.T0 * np.ones((len(rm.points), 1))]
    Tref = onp.full(len(rm.points), float(m.T0))
    nb, joined, lasers, heat = 0, 0, 0, 0.
    zs = onp.unique(onp.round(rm.points[rm.cells[:, :rm.ref.nv], 2].max(1), 9))
    inner = external(rm, hist[0])[1]
    for k, (old, new) in enumerate(zip(hist[:-1], hist[1:])):
        if not (old == new).all() or k == 0:
            ext = m.update_hash_map(old, new, faces, hm, inn, allf)
            i2 = external(rm, new)[1]
            nb += 1
            joined += i2 > inner and bool(old.any())
            inner = i2
        tops = [onp.round(rm.points[sorted(kk), 2].max(), 12) for c, kk in external(rm, new)[0] if onp.ptp(rm.points[sorted(kk), 2]) < 1e-9]
        z = float(max(tops)) if tops else float(zs[-1])
        off = onp.array([onp.abs(rm.points[sorted(kk), 2] - z).max() for c, kk in external(rm, new)[0]])
        if ((off > 4e-6) & (off < 4e-5)).any():         # faces neither on the laser plane nor clearly off it
            z += 1.
        c0 = onp.append(rm.points[rng.integers(len(rm.points))][:2], z)
        tab = m.get_active_face_truth_tab(p, ext, z)
        quiet = m.get_quiet_point_inds_set(p, new)
        dt, sw = case['dts'][k % 4], case['switch'][k % 4]
        if len(quiet) == len(rm.points):
            continue                                # nothing active yet: there is no system to solve
        p.set_params([sol[0], dt, c0, sw, quiet, new, onp.asarray(tab)])
        sol = solver(p, solver_options={'spsolve_solver': {}})
        T = onp.asarray(sol[0])[:, 0]
        Tref, nl = ref_step(m, rm, new, Tref, dt, c0, sw, z)
        lasers += nl * sw > 0
        rise = max(onp.abs(Tref - m.T0).max(), 1.)
        heat = max(heat, rise)
        require(onp.abs(T[quiet] - m.T0).max(initial=0.) <= 1e-6, "quiet nodes do not stay at the ambient temperature (off by %.3g)",
                onp.abs(T[quiet] - m.T0).max(initial=0.))
        close(T, Tref, f"temperatures after step {k + 1} (dt {dt:g}, {int(new.sum())} of {len(new)} cells active)", rtol=1e-6, atol=1e-5, scale=rise)
        Tref = T.copy()                             # one step at a time
    return {'nontrivial': nb >= 2 and joined >= 1 and heat > 1.5, 'labels': [rm.ele, f'lasers={min(lasers, 2)}', 'hot' if heat > 100 else 'mild'],
            'observed': f"{nb} births, largest temperature rise {heat:.3g} K"}


SUBS = {
    'faces': {'strategy': faces_st, 'run': run_faces, 'examples': {'quick': 480, 'thorough': 6000}, 'weight': 1.},
    'heat': {'strategy': heat_st, 'run': run_heat, 'examples': {'quick': 80, 'thorough': 800}, 'weight': 1.5},
}

"""C14: numbering and frame."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models, sut
from pbt.core import require, close, Skip

RULE = """Sub 'renumber': a problem with random nonlinear laws, one to three variables of mixed element types, internal and surface
variables, and its twin on the same mesh with permuted nodes and cells, rotated local node lists and surface sets split into
several sets with the same faces; residuals, tangents and (for uniquely solvable laws) solutions must be permutations of each other.
Sub 'frame': a problem and its twin on the rotated, scaled (1e-4 to 1e4) and translated mesh with the law, data and vector
components transformed; residuals and solutions must be rotated copies.  Non-trivial: the permutation is not the identity / the
rotation is proper and non-trivial or the scale differs from one."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 150


@st.composite
def renumber_st(draw):
    solve = draw(st.booleans())
    c = draw(models.solvable_case() if solve else models.weakform_case(sizes=fem.SMALL, bc=False))
    c['mesh']['shuffle'] = False
    c['solve'] = solve
    c['pseed'] = draw(fem.seeds())
    c['what'] = draw(st.sampled_from(['nodes', 'cells', 'rotate', 'all', 'all']))
    c['split'] = draw(st.booleans())
    return c


def permuted(rm, rng, what):
    X, C = rm.points, rm.cells
    p = rng.permutation(len(X)) if what in ('nodes', 'all') else onp.arange(len(X))
    Y = onp.empty_like(X)
    Y[p] = X
    C = p[C]
    if what in ('cells', 'all'):
        C = C[rng.permutation(len(C))]
    if what in ('rotate', 'all'):
        rots = fem.rotations(rm.ele)
        C = onp.stack([c[list(rots[rng.integers(len(rots))])] for c in C])
    return fem.RefMesh(rm.ele, Y, C)


def pair(a, b, what):
    size = onp.ptp(b, axis=0).max() + 1e-300
    return sut.match(a, b, what, 1e-9 * size)


def split_sets(rm, nodes, rng):
    """node sets whose selected faces partition those of the given set"""
    chosen = set(int(n) for n in nodes)
    keys = [k for k in rm.faces_by_verts if k <= chosen]
    if len(keys) <= 6:
        return [onp.array(sorted(k)) for k in keys]
    for _ in range(20):
        a = rng.normal(size=rm.dim)
        cen = onp.array([rm.points[sorted(k)].mean(0) @ a for k in keys])
        cut = onp.quantile(cen, rng.uniform(.3, .7))
        parts = [[k for k, c in zip(keys, cen) if c <= cut], [k for k, c in zip(keys, cen) if c > cut]]
        sets = [set().union(*p_) for p_ in parts if p_]
        if sum(sum(k <= s for k in keys) for s in sets) == len(keys) and len(sets) == 2:
            return [onp.array(sorted(s)) for s in sets]
    return [nodes]


def run_renumber(case):
    import jax.numpy as np
    import scipy.sparse as sps
    from jax_fem.solver import solver
    rng = onp.random.default_rng(case['pseed'])
    S = models.Setup(case)
    rm2 = permuted(S.rm, rng, case['what'])
    S2 = models.Setup(case, build=False, rm=rm2)
    pm = [pair(a.points, b.points, "nodes") for a, b in zip(S.rms, S2.rms)]      # node i of S is node pm[i] of S2
    S2.bcs = [(v, onp.sort(pm[v][nodes]), c, co) for v, nodes, c, co in S.bcs]
    nsplit, owner = [], []
    case2 = dict(case, surfs=[])
    sm, su = S.s_map, S.s_univ
    S2.sel_nodes, S2.s_map, S2.s_univ = [], [], []
    for k, nodes in enumerate(S.sel_nodes):
        sets = split_sets(rm2, pm[0][nodes], rng) if case['split'] else [pm[0][nodes]]
        for s in sets:
            S2.sel_nodes.append(s)
            S2.s_map.append(sm[k])
            S2.s_univ.append(su[k])
            case2['surfs'].append(case['surfs'][k])
            owner.append(k)
    S2.case = case2
    S2.problem = S2.build()
    S2.attach_surface_ivs()
    p, p2 = S.problem, S2.problem
    x, x2 = onp.asarray(p.fes[0].get_physical_quad_points()), onp.asarray(p2.fes[0].get_physical_quad_points())
    require(x.shape == x2.shape, "quadrature points %s and %s", x.shape, x2.shape)
    if S.ivs:
        q = pair(x2.reshape(-1, S.dim), x.reshape(-1, S.dim), "quadrature points of the renumbered mesh")
        p2.internal_vars = [np.asarray(a.reshape((-1,) + a.shape[2:])[q].reshape(a.shape)) for a in S.ivs]
    if case['surfs']:
        xs = [onp.asarray(p.fes[0].get_physical_surface_quad_points(i)) for i in p.boundary_inds_list]
        newv = []
        for j, k in enumerate(owner):
            y = onp.asarray(p2.fes[0].get_physical_surface_quad_points(p2.boundary_inds_list[j]))
            size = onp.ptp(S.rm.points, axis=0).max()
            # an interior face appears twice (once per cell): pair within matching cells
            cen = onp.array([S.rm.points[S.rm.cells[int(c)]].mean(0) for c, _ in onp.asarray(p.boundary_inds_list[k])])
            cen2 = onp.array([S2.rm.points[S2.rm.cells[int(c)]].mean(0) for c, _ in onp.asarray(p2.boundary_inds_list[j])])
            rows = []
            for f in range(len(y)):
                d = onp.abs(cen - cen2[f]).max(1) + onp.array([onp.abs(onp.sort(xs[k][g].sum(1)) - onp.sort(y[f].sum(1))).max() for g in range(len(cen))])
                # faces of one cell may share coordinate sums: decide by the point sets
                cand = onp.flatnonzero(d < 1e-7 * size)
                best = min(cand, key=lambda g: onp.abs(xs[k][g][:, None] - y[f][None]).max(-1).min(0).max())
                rows.append((best, sut.match(y[f], xs[k][best], "face quadrature points", 1e-8 * size)))
            newv.append([np.asarray(onp.stack([a[g][q_] for g, q_ in rows]) if rows else a[:0]) for a in S.surf_ivs[k]])
        p2.internal_vars_surfaces = newv
    u = S.random_state()

    def carry(sols):
        out = []
        for s, q_ in zip(sols, pm):
            t = onp.empty_like(s)
            t[q_] = s
            return_ = t
            out.append(return_)
        return out
    r = [onp.asarray(a) for a in p.compute_residual([np.asarray(a) for a in u])]
    r2 = [onp.asarray(a) for a in p2.compute_residual([np.asarray(a) for a in carry(u)])]
    sc = max(onp.abs(a).max() for a in r)
    for i, (a, b) in enumerate(zip(carry(r), r2)):
        close(b, a, f"residual of variable {i} on the renumbered mesh ({case['what']})", 1e-9, 0, scale=sc)
    # tangent
    n = int(S.offsets[-1])
    if n <= 130:
        dofs = onp.concatenate([off + (q_[:, None] * v + onp.arange(v)[None]).reshape(-1) for off, q_, v in zip(S.offsets, pm, S.vecs)])
        Ks = []
        for pr, st_ in ((p, u), (p2, carry(u))):
            pr.newton_update([np.asarray(a) for a in st_])
            Ks.append(sps.coo_matrix((onp.asarray(pr.V), (onp.asarray(pr.I), onp.asarray(pr.J))), shape=(n, n)).toarray())
        close(Ks[1][onp.ix_(dofs, dofs)], Ks[0], "tangent on the renumbered mesh", 1e-8, 0)
    if case['solve']:
        o = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}
        a, b = solver(p, o), solver(p2, o)
        for i, (c, d) in enumerate(zip(carry([onp.asarray(s) for s in a]), b)):
            close(d, c, f"solution of variable {i} on the renumbered mesh", 1e-7, 1e-9)
    nt = not onp.array_equal(S.rm.cells, rm2.cells)
    return {'nontrivial': nt, 'labels': models.case_labels(case)[:3] + ['what=' + case['what'], f'split={case["split"]}:{len(owner)}/{len(S.sel_nodes)}' if case['surfs'] else 'no surface',
                                                                       f'solve={case["solve"]}'], 'observed': f'max residual {sc:.4g}'}


# ------------------------------------------------------------------------------------------------ frame
SZ = {'QUAD4': [3, 2], 'TRI3': [2, 2], 'QUAD8': [2, 1], 'TRI6': [2, 1], 'HEX8': [2, 1, 1], 'TET4': [1, 1, 1], 'HEX20': [1, 1, 1], 'TET10': [1, 1, 1]}


@st.composite
def frame_st(draw):
    ele = draw(st.sampled_from(sorted(SZ)))
    d = len(SZ[ele])
    return {'mesh': {'ele': ele, 'n': SZ[ele], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .2])),
                     'curve': draw(st.sampled_from([0., .1])) if fem.ELE[ele][5] > 1 else 0., 'affine': False, 'shuffle': draw(st.booleans())},
            'vec': draw(st.sampled_from([1, d, d])), 'wseed': draw(st.integers(0, 1)), 'seed': draw(fem.seeds()),
            'rot': draw(st.sampled_from(['none', 'quarter', 'any', 'any'])), 'logs': draw(st.sampled_from([0., 0., -4., -1., 2., 4.])),
            'shift': draw(st.sampled_from([0., 1., 50.])), 'surface': draw(st.booleans()), 'linear': draw(st.booleans())}


def rotation(kind, d, rng):
    if kind == 'none':
        return onp.eye(d)
    if kind == 'quarter':
        if d == 2:
            return onp.array([[0., -1.], [1., 0.]])
        return onp.eye(3)[[1, 2, 0]] if rng.random() < .5 else onp.array([[0., -1., 0.], [1., 0., 0.], [0., 0., 1.]])
    Q, R = onp.linalg.qr(rng.normal(size=(d, d)))
    Q = Q * onp.sign(onp.diag(R))
    if onp.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def run_frame(case):
    import jax.numpy as np
    from jax_fem.problem import Problem
    from jax_fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    d, vec = rm.dim, case['vec']
    R = rotation(case['rot'], d, rng)
    s = 10. ** case['logs']
    t = case['shift'] * s * rng.uniform(-1, 1, d)
    Q = R if (vec == d and d > 1) else onp.eye(vec)
    rm2 = fem.RefMesh(rm.ele, s * rm.points @ R.T + t, rm.cells)
    w = onp.random.default_rng(case['wseed'])
    T = models.MonoLaw(vec * d, d, w, sym=False, lin=case['linear'])
    M = models.MonoLaw(vec, d, w, sym=False, lin=case['linear'])
    H = models.MonoLaw(vec, d, w, sym=False, lin=case['linear'])
    order = 4 if rm.ele in ('QUAD8', 'HEX20') else None if rm.ele not in ('TET10', 'TRI3') else 3
    nq = len(rm.ref.quad(order)[1])
    nsel = rm.boundary_nodes if case['surface'] else None

    def data(R, s, t, Q):
        return onp.concatenate([R.reshape(-1), [s], t, Q.reshape(-1)])

    def parse(w):
        k = d * d
        return w[:k].reshape(d, d), w[k], w[k + 1:k + 1 + d], w[k + 1 + d:].reshape(vec, vec)

    class Pb(Problem):
        def get_tensor_map(self):
            def f(g, x, w):
                R, s, t, Q = parse(w)
                y = T(np, np.concatenate([(Q.T @ g @ R * s).reshape(-1), R.T @ (x - t) / s])).reshape(vec, d)
                return Q @ y @ R.T * s / s**d
            return lambda g, w: f(g, w[:d], w[d:])

        def get_mass_map(self):
            def f(u, x, w):
                R, s, t, Q = parse(w[d:])
                return Q @ M(np, np.concatenate([Q.T @ u, R.T @ (x - t) / s])) / s**d
            return f

        def custom_init(self, w):
            x = self.fes[0].get_physical_quad_points()
            self.internal_vars = [np.concatenate([x, np.tile(np.asarray(w), x.shape[:2] + (1,))], -1)]

    if case['surface']:
        def get_surface_maps(self):
            def f(u, x, w):
                R, s, t, Q = parse(w)
                return Q @ H(np, np.concatenate([Q.T @ u, R.T @ (x - t) / s])) * s / s**d
            return [f]
        Pb.get_surface_maps = get_surface_maps
    nodes = onp.sort(rng.choice(len(rm.points), size=max(2, len(rm.points) // 4), replace=False))
    val = rng.uniform(-1, 1, (len(nodes), vec))

    def make(rmx, wdat, vals):
        pts = np.asarray(rmx.points[nodes])
        V = np.asarray(vals)
        bcs = [[sut.in_set_fn(nodes)] * vec, list(range(vec)),
               [lambda x, c=c: V[np.argmin(np.sum((pts - x)**2, 1)), c] for c in range(vec)]]
        p = Pb(fem.jmesh(rmx), vec=vec, dim=d, ele_type=rm.ele, quadrature_order=order, dirichlet_bc_info=bcs,
               location_fns=[sut.in_set_fn(nsel)] if nsel is not None else None, additional_info=(wdat,))
        if nsel is not None:
            i = p.boundary_inds_list[0]
            nf = onp.asarray(p.fes[0].get_physical_surface_quad_points(i)).shape[:2]
            p.internal_vars_surfaces = [[np.tile(np.asarray(wdat), nf + (1,))]]
        return p
    I = onp.eye(d)
    p = make(rm, data(I, 1., onp.zeros(d), onp.eye(vec)), val)
    p2 = make(rm2, data(R, s, t, Q), val @ Q.T)
    cond = 1. + case['shift'] * 10
    u = rng.uniform(-1, 1, (len(rm.points), vec))
    r = onp.asarray(p.compute_residual([np.asarray(u)])[0])
    r2 = onp.asarray(p2.compute_residual([np.asarray(u @ Q.T)])[0])
    close(r2, r @ Q.T, "residual in the moved frame", 1e-9 * cond, 0)
    o = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}
    a, b = onp.asarray(solver(p, o)[0]), onp.asarray(solver(p2, o)[0])
    close(b, a @ Q.T, "solution in the moved frame", 1e-7 * cond, 1e-9)
    return {'nontrivial': case['rot'] != 'none' or case['logs'] != 0., 'labels': [rm.ele, f'vec={vec}', 'rot=' + case['rot'], f'log scale={case["logs"]}',
                                                                                f'surface={case["surface"]}', f'shift={case["shift"]}'],
            'observed': f'max |u| {onp.abs(a).max():.4g}'}


SUBS = {'renumber': {'strategy': renumber_st, 'run': run_renumber, 'examples': {'quick': 96, 'thorough': 3500}, 'weight': 2},
        'frame': {'strategy': frame_st, 'run': run_frame, 'examples': {'quick': 72, 'thorough': 3000}, 'weight': 1.3}}

"""C10: linear multipoint constraints."""
import importlib.util
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close, REPO

RULE = """Sub 'mpc': a uniquely solvable problem (linear or nonlinear, one to three variables) with a random prolongation matrix P
(1 to 8 slave dofs, each one master with weight one or two weighted masters), and one to two solver option sets (all linear
backends, reduced initial guesses, line search, nested or flat); solutions are compared with a dense constrained Newton solve and
the matrix and right-hand side handed to the linear solver with dense P'AP and -P'r; half of the cases then exchange P on the same
problem object and finally remove it.  Sub 'periodic': matching structured meshes
(shuffled numbering), one to three master/slave face pairs per component through the application's builder, compared entry by
entry with brute-force pairing, then solved with Dirichlet data on the remaining faces.  Non-trivial: at least one slave dof."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 150
T = models.TEMPLATES
POOL = [T[0], T[2], T[3], T[4], T[6], T[7], T[8], T[9]]


@st.composite
def mpc_st(draw):
    from checks.c06 import opts_st
    c = draw(models.solvable_case(templates=POOL))
    c['nslaves'] = draw(st.sampled_from([1, 2, 4, 8]))
    c['opts'] = draw(st.lists(opts_st(), min_size=1, max_size=2))
    c['again'] = draw(st.booleans())
    c['sparse'] = draw(st.sampled_from(['csr_array', 'csr_matrix']))
    return c


def one_prolongation(S, rng, nslaves, form, opts_list, what0=''):
    """one prolongation matrix on the problem of S: the system handed to the linear solver, then full solves"""
    import jax.numpy as np
    import scipy.sparse as sps
    from jax_fem.solver import solver
    from checks.c06 import linear_dict
    P = models.make_P(S, rng, nslaves)
    Pd = P.toarray()
    S.problem.P_mat = getattr(sps, form)(P)
    exact = models.ref_solve(S, P=P)
    n, m = Pd.shape
    scale = max(1., float(onp.abs(exact).max()))
    bc = S.dirichlet_ref()
    # the system handed to the linear solver
    seen = []

    def grab(A, b, x0, opts):
        ptr, ind, val = A.getValuesCSR()
        K = sps.csr_matrix((val, ind, ptr), shape=A.getSize()).toarray()
        seen.append((K, onp.asarray(b)))
        return onp.linalg.solve(K, onp.asarray(b))
    r0 = rng.uniform(-1, 1, m)
    solver(S.problem, {'newton': {'linear': {'custom_solver': grab}, 'initial_guess': [np.asarray(r0)], 'tol': 1e-9}})
    K, b = seen[0]
    require(K.shape == (m, m), "reduced matrix is %s, expected %s", K.shape, (m, m))
    close(K, Pd.T @ models.ref_tangent(S, Pd @ r0) @ Pd, "reduced system matrix", 1e-9, 0)
    close(b, -Pd.T @ models.bc_residual(S, S.unflat(Pd @ r0)), "reduced right-hand side", 1e-9, 0)
    for o in opts_list:
        cfg = {}
        lin = linear_dict(o['linear'])
        red = onp.linalg.lstsq(Pd, exact, rcond=None)[0]
        g = {'none': None, 'zeros': onp.zeros(m), 'random': rng.uniform(-1, 1, m), 'solution': red, 'bc_wrong': red + rng.uniform(-.5, .5, m)}[o['guess']]
        if g is not None:
            cfg['initial_guess'] = [np.asarray(g)] if rng.random() < .5 else np.asarray(g)
        for k in ('tol', 'rel_tol'):
            if o[k] is not None:
                cfg[k] = o[k]
        if o['line_search'] is not None:
            cfg['line_search_flag'] = o['line_search']
        if lin is not None and not o['flat']:
            cfg['linear'] = lin
        opts = {**cfg, **(lin or {})} if o['flat'] else {'newton': cfg}
        sol = solver(S.problem, opts)
        u = S.flat(sol)
        what = f"{what0}with {o['linear']}, guess {o['guess']}, line_search {o['line_search']}"
        red_u = onp.linalg.lstsq(Pd, u, rcond=None)[0]
        close(Pd @ red_u, u, f"solution in the range of P {what}", 1e-11, 0, scale=scale)
        g0 = onp.zeros(m) if g is None else g
        rn0 = onp.linalg.norm(Pd.T @ models.bc_residual(S, S.unflat(Pd @ g0)))
        rn = onp.linalg.norm(Pd.T @ models.bc_residual(S, S.unflat(u)))
        allowed = max(o['tol'] or 1e-6, (o['rel_tol'] or 1e-8) * rn0) * 1.001 + 1e-11 * scale * n
        require(rn <= allowed, "%s: constrained residual norm %.3g exceeds the tolerance %.3g", what, rn, allowed)
        if bc:
            d = onp.array(sorted(bc))
            close(u[d], [bc[k] for k in d], f"prescribed values {what}", 0, allowed)
        close(u, exact, f"solution {what}", 0, 2e3 * allowed + 1e-9 * scale)
    return n, m, rn


def run_mpc(case):
    from jax_fem.solver import solver
    S = models.Setup(case)
    S.prepare_ref()
    rng = onp.random.default_rng(case['seed'] + 17)
    n, m, rn = one_prolongation(S, rng, case['nslaves'], case['sparse'], case['opts'])
    if case['again']:       # another prolongation on the same problem object, then none at all
        one_prolongation(S, rng, case['nslaves'], case['sparse'], case['opts'][:1], 'second prolongation on the same problem, ')
        del S.problem.P_mat
        tol = 1e-9
        u = S.flat(solver(S.problem, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': tol, 'rel_tol': 1e-14}}))
        exact = models.ref_solve(S)
        close(u, exact, "solution after the prolongation was removed", 0, 2e-6 + 1e-9 * max(1., onp.abs(exact).max()))
    ns = n - m
    return {'nontrivial': ns > 0, 'labels': models.case_labels(case)[:2] + [f'slaves={"1" if ns == 1 else "2-8"}', 'linear=' + str(case['linear']), 'swapped' if case['again'] else 'single'] +
            ['backend=' + o['linear'] for o in case['opts']] + ['guess=' + o['guess'] for o in case['opts']] + [f'ls={o["line_search"]}' for o in case['opts']],
            'observed': f'{ns} slaves, residual {rn:.2g}'}


# ------------------------------------------------------------------------------------------------ periodic builder
SIZES = {'QUAD4': [(3, 2), (2, 4)], 'TRI3': [(3, 2), (2, 3)], 'QUAD8': [(2, 2)], 'TRI6': [(2, 3)], 'HEX8': [(2, 2, 1), (1, 2, 2)], 'TET4': [(2, 1, 2)]}


@st.composite
def periodic_st(draw):
    ele = draw(st.sampled_from(sorted(SIZES)))
    d = fem.ELE[ele][0] if isinstance(fem.ELE[ele][0], int) else len(SIZES[ele][0])
    vec = draw(st.sampled_from([1, d]))
    n = draw(st.sampled_from(SIZES[ele]))
    axes = draw(st.lists(st.integers(0, d - 1), min_size=1, max_size=d - 1, unique=True))
    pairs = []
    for c in range(vec):
        for a in axes:
            if not pairs or draw(st.booleans()):
                pairs.append([a, c])
    pairs = draw(st.permutations(pairs))
    return {'ele': ele, 'n': list(n), 'vec': vec, 'pairs': pairs, 'seed': draw(fem.seeds()), 'shuffle': draw(st.booleans()),
            'flip': draw(st.booleans()), 'scale': draw(st.sampled_from([1., 0.4, 7.])), 'dirichlet': draw(st.sampled_from(['consistent', 'interior'])),
            'linear': draw(st.sampled_from(['spsolve', 'jax', 'petsc']))}


def load_example():
    import sys
    if 'periodic_example' not in sys.modules:
        spec = importlib.util.spec_from_file_location('periodic_example', REPO + '/applications/periodic_bc/example.py')
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules['periodic_example'] = mod
    return sys.modules['periodic_example']


def run_periodic(case):
    import jax.numpy as np
    import scipy.sparse as sps
    from jax_fem.problem import Problem
    from jax_fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh({'ele': case['ele'], 'n': case['n'], 'seed': case['seed'], 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False,
                        'shuffle': case['shuffle']})
    L = case['scale'] * onp.array([1., 1.3, 0.7])[:rm.dim]
    # a smooth box-preserving distortion that keeps opposite faces matching
    g = onp.asarray(rm.grid)
    t = g + 0.04 * onp.sin(2 * onp.pi * g)
    rm = fem.RefMesh(case['ele'], t * L, rm.cells)
    if case['ele'] in ('QUAD8', 'TRI6'):
        rm = fem.RefMesh(case['ele'], g * L, rm.cells)
    X, N, vec = rm.points, len(rm.points), case['vec']
    tol = 1e-6 * case['scale']
    lo = [onp.abs(X[:, a]) < tol for a in range(rm.dim)]
    hi = [onp.abs(X[:, a] - L[a]) < tol for a in range(rm.dim)]
    # masters on one face, slaves on the opposite one; edges shared with an earlier pair of the same component are left to that pair
    locA, locB, maps, comps, pairs, done = [], [], [], [], {}, {}
    for a, c in case['pairs']:
        before = done.setdefault(c, [])
        free = onp.ones(N, bool)
        for b in before:
            free &= ~(lo[b] | hi[b])
        before.append(a)
        A, B = (lo[a], hi[a]) if not case['flip'] else (hi[a], lo[a])
        shift = onp.eye(rm.dim)[a] * L[a] * (-1 if case['flip'] else 1)
        va, vb = (0., L[a]) if not case['flip'] else (L[a], 0.)

        def mk(v, a=a, before=tuple(before[:-1])):
            def loc(p):
                ok = np.abs(p[a] - v) < tol
                for b in before:
                    ok = ok & (np.abs(p[b]) >= tol) & (np.abs(p[b] - L[b]) >= tol)
                return ok
            return loc
        locA.append(mk(va))
        locB.append(mk(vb))
        maps.append(lambda p, s=shift: p + s)
        comps.append(c)
        for i in onp.flatnonzero(A & free):
            j = int(onp.argmin(onp.linalg.norm(X - X[i] - shift, axis=1)))
            if free[j]:
                pairs[j * vec + c] = i * vec + c
    keep = [k for k in range(N * vec) if k not in pairs]
    col = {k: q for q, k in enumerate(keep)}
    want = onp.zeros((N * vec, len(keep)))
    for k in keep:
        want[k, col[k]] = 1.
    for s, mst in pairs.items():
        want[s, col[mst]] = 1.
    mesh = fem.jmesh(rm)
    P = load_example().periodic_boundary_conditions([locA, locB, maps, comps], mesh, vec)
    got = P.toarray()
    require(got.shape == want.shape, "prolongation matrix is %s, expected %s", got.shape, want.shape)
    close(got, want, "periodic prolongation matrix", 0, 0)
    # solve with it
    K = rng.uniform(1., 2., vec)
    f = rng.uniform(-1, 1, (vec, rm.dim))

    class Pb(Problem):
        def get_tensor_map(self):
            return lambda u_grad, w: w[:, None] * u_grad + 0.2 * np.sin(u_grad)

        def get_mass_map(self):
            return lambda u, x, w: u - np.sin(np.sum(w) * x.sum() / case['scale']) * w + 0.1 * x[0] / case['scale']

        def custom_init(self):
            self.internal_vars = [np.asarray(onp.tile(K, (len(self.fes[0].cells), self.fes[0].num_quads, 1)))]
    rest = [a for a in range(rm.dim) if a not in [q for q, _ in case['pairs']]][0]
    bcs, dvals = [[], [], []], {}
    excl = sorted({a for a, _ in case['pairs']}) if case['dirichlet'] == 'interior' else []

    def face(v):
        def loc(p):
            ok = np.abs(p[rest] - v) < tol
            for b in excl:
                ok = ok & (np.abs(p[b]) >= tol) & (np.abs(p[b] - L[b]) >= tol)
            return ok
        return loc
    for c in range(vec):
        for v in (0., L[rest]):
            val = float(rng.uniform(-1, 1))

            sel = onp.abs(X[:, rest] - v) < tol
            for b in excl:
                sel &= ~(lo[b] | hi[b])
            bcs[0].append(face(v))
            bcs[1].append(c)
            bcs[2].append(lambda p, val=val: val)
            for i in onp.flatnonzero(sel):
                dvals[int(i) * vec + c] = val
    p = Pb(mesh, vec=vec, dim=rm.dim, ele_type=case['ele'], dirichlet_bc_info=bcs)
    p.P_mat = P
    lin = {'spsolve': {'spsolve_solver': {}}, 'jax': {'jax_solver': {}}, 'petsc': {'petsc_solver': {}}}[case['linear']]
    sol = solver(p, {'newton': {'linear': lin, 'tol': 1e-8, 'rel_tol': 1e-14}})
    u = onp.asarray(sol[0]).reshape(-1)
    for s, mst in pairs.items():
        require(u[s] == u[mst], "slave dof %d has %r, its master %d has %r", s, u[s], mst, u[mst])
    if dvals:
        d = onp.array(sorted(dvals))
        close(u[d], [dvals[k] for k in d], "prescribed values", 0, 1e-8)
    r = onp.concatenate([onp.asarray(q).reshape(-1) for q in p.compute_residual(sol)])
    for k, v in dvals.items():
        r[k] = u[k] - v
    require(onp.linalg.norm(want.T @ r) <= 1e-7, "constrained residual %.3g", onp.linalg.norm(want.T @ r))
    return {'nontrivial': bool(pairs), 'labels': [case['ele'], f'vec={vec}', f'sets={len(case["pairs"])}', case['dirichlet'], case['linear']],
            'observed': f'{len(pairs)} slave dofs of {N * vec}'}


SUBS = {'mpc': {'strategy': mpc_st, 'run': run_mpc, 'examples': {'quick': 104, 'thorough': 4000}, 'weight': 3},
        'periodic': {'strategy': periodic_st, 'run': run_periodic, 'examples': {'quick': 72, 'thorough': 2500}, 'weight': 1}}

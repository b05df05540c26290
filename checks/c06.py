"""C06: solving."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close, Violation

RULE = """A case is a problem with a strictly monotone random law (hence exactly one solution; linear or nonlinear, symmetric or
not, one to three variables, surface terms, internal variables, Dirichlet sets) and two to four solver option dictionaries drawn
from all available linear backends (JAX with/without preconditioner, SciPy, PETSc with several Krylov methods and
preconditioners, a custom solver), initial guesses, tolerances, line search, nested or flat layout.  Every returned solution is
judged by the independent NumPy residual and compared with an independent dense Newton solve.  Sub-check 'hard' runs spatially
constant laws with known Newton histories (overshoot by orders of magnitude, temporary stagnation, slow convergence, also
non-monotone laws) and judges the returned residual against max(tol, rel_tol x initial residual).  Non-trivial (solve): nonlinear law or
non-default backend or guess, with at least one Dirichlet or surface set; (hard): some start overshoots or needs more than
seven iterations."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 150

PETSC = [('bcgsl', 'ilu'), ('gmres', 'ilu'), ('gmres', 'jacobi'), ('bcgs', 'ilu'), ('preonly', 'lu'), ('bcgsl', 'jacobi'), ('fgmres', 'none'), ('gmres', 'lu')]      # tfqmr needs MUMPS, which this PETSc lacks
LINEAR = (['jax', 'jax_precond', 'jax_noprecond', 'default', 'spsolve', 'spsolve', 'custom', 'petsc'] + [f'petsc:{k}:{p}' for k, p in PETSC])


@st.composite
def opts_st(draw):
    return {'linear': draw(st.sampled_from(LINEAR)), 'guess': draw(st.sampled_from(['none', 'none', 'zeros', 'random', 'solution', 'bc_wrong'])),
            'line_search': draw(st.sampled_from([None, None, True, False])), 'tol': draw(st.sampled_from([None, 1e-9, 1e-7])),
            'rel_tol': draw(st.sampled_from([None, 1e-13, 1e-10])), 'flat': draw(st.booleans())}


@st.composite
def case_st(draw):
    c = draw(models.solvable_case())
    c['opts'] = draw(st.lists(opts_st(), min_size=2, max_size=3))
    return c


def custom(A, b, x0, opts):
    import scipy.sparse as sps
    ptr, ind, val = A.getValuesCSR()
    return onp.linalg.solve(sps.csr_matrix((val, ind, ptr), shape=A.getSize()).toarray(), onp.asarray(b))


def linear_dict(name):
    if name == 'default':
        return None
    if name == 'jax':
        return {'jax_solver': {}}
    if name == 'jax_precond':
        return {'jax_solver': {'precond': True}}
    if name == 'jax_noprecond':
        return {'jax_solver': {'precond': False}}
    if name == 'spsolve':
        return {'spsolve_solver': {}}
    if name == 'custom':
        return {'custom_solver': custom}
    if name == 'petsc':
        return {'petsc_solver': {}}
    _, k, p = name.split(':')
    return {'petsc_solver': {'ksp_type': k, 'pc_type': p}}


def build_options(o, S, exact, rng):
    import jax.numpy as np
    cfg = {}
    lin = linear_dict(o['linear'])
    n = int(S.offsets[-1])
    g = {'none': None, 'zeros': onp.zeros(n), 'random': rng.uniform(-1, 1, n), 'solution': exact.copy(), 'bc_wrong': exact.copy()}[o['guess']]
    if o['guess'] == 'bc_wrong':
        for d in S.dirichlet_ref():
            g[d] += 0.5
    if g is not None:
        cfg['initial_guess'] = [np.asarray(s) for s in S.unflat(g)]
    for k in ('tol', 'rel_tol'):
        if o[k] is not None:
            cfg[k] = o[k]
    if o['line_search'] is not None:
        cfg['line_search_flag'] = o['line_search']
    if o['flat']:
        return {**cfg, **(lin or {})}, g
    if lin is not None:
        cfg['linear'] = lin
    return {'newton': cfg}, g


def run(case):
    from jax_fem.solver import solver
    S = models.Setup(case)
    S.prepare_ref()
    exact = models.ref_solve(S)
    rng = onp.random.default_rng(case['seed'] + 9)
    scale = max(1., float(onp.abs(exact).max()))
    bc = S.dirichlet_ref()
    for o in case['opts']:
        opts, g = build_options(o, S, exact, rng)
        sol = solver(S.problem, opts)
        require(len(sol) == S.nvars, "%d solution fields, expected %d", len(sol), S.nvars)
        for i, s in enumerate(sol):
            require(tuple(s.shape) == (len(S.rms[i].points), S.vecs[i]), "shape of solution %d is %s", i, s.shape)
        u = S.flat(sol)
        what = f"with {o['linear']}, guess {o['guess']}, line_search {o['line_search']}, {'flat' if o['flat'] else 'nested'} options"
        g0 = onp.zeros_like(u) if g is None else g
        r0 = onp.linalg.norm(models.bc_residual(S, S.unflat(g0)))
        r = models.bc_residual(S, S.unflat(u))
        tol = o['tol'] or 1e-6
        allowed = max(tol, (o['rel_tol'] or 1e-8) * r0)
        rn = float(onp.linalg.norm(r))
        require(rn <= allowed * 1.001 + 1e-11 * scale * len(u), "%s: residual norm %.3g of the returned solution exceeds the tolerance %.3g", what, rn, allowed)
        if bc:
            d = onp.array(sorted(bc))
            close(u[d], [bc[k] for k in d], f"prescribed values {what}", 0, allowed * 1.001 + 1e-11 * scale)
        close(u, exact, f"solution {what}", 0, 2e3 * allowed + 1e-9 * scale)
    nt = (not case['linear'] or any(o['linear'] not in ('default', 'jax') or o['guess'] != 'none' for o in case['opts'])) and bool(case['bcs'] or case['surfs'])
    return {'nontrivial': nt, 'labels': models.case_labels(case) + ['linear=' + str(case['linear']), case['mono']] +
            ['backend=' + o['linear'] for o in case['opts']] + ['guess=' + o['guess'] for o in case['opts']] +
            [f'ls={o["line_search"]}' for o in case['opts']], 'observed': f'max |u| {onp.abs(u).max():.4g}, residual {rn:.2g}'}


@st.composite
def hard_case(draw):
    """spatially constant nonlinear systems on which Newton overshoots, stagnates for a while or converges slowly"""
    vec = draw(st.sampled_from([1, 1, 2]))
    m = draw(fem.mesh_st(eles=['QUAD4', 'TRI3', 'TET4', 'HEX8', 'TRI6', 'QUAD8'], sizes={'quad': [(1, 1), (2, 1)], 'tri': [(1, 1)], 'hex': [(1, 1, 1)], 'tet': [(1, 1, 1)]}, curve=False))
    kind = draw(st.sampled_from(['exp', 'exp', 'cubic', 'wiggle', 'wiggle', 'sinh', 'atan', 'power5']))
    return {'mesh': m, 'vec': vec, 'kind': kind, 'seed': draw(fem.seeds()),
            'steps': draw(st.lists(st.fixed_dictionaries({'g': st.sampled_from([-4., -3., -2.7, -1.5, -.5, .1, .7, 1.6, 2.2, 3., 4.5, 6.]),
                                                          'tol': st.sampled_from([None, 1e-9, 1e-8, 1e-4, 1e-2, 0., 1e-6]),
                                                          'rel_tol': st.sampled_from([None, 1e-13, 1e-11, 1e-6, 1e-3, .3, 0.]),
                                                          'linear': st.sampled_from(['spsolve', 'spsolve', 'custom', 'petsc:preonly:lu']),
                                                          'flat': st.booleans()}), min_size=6, max_size=14))}


def law(kind, rng):
    """value and slope of a scalar function with a root"""
    a, b, k = rng.uniform(.5, 2.), rng.uniform(.7, 1.6), rng.uniform(-.2, .5)
    f = rng.uniform(10., 40.)
    return {'exp': (lambda n, u: n.exp(b * u) - 1. - .02 * a, lambda n, u: b * n.exp(b * u)),
            'cubic': (lambda n, u: a * u**3 + .05 * b * u - k, lambda n, u: 3 * a * u**2 + .05 * b),
            'wiggle': (lambda n, u: a * u**3 + 2e-3 * n.sin(f * u) * b - k * 1e-2, lambda n, u: 3 * a * u**2 + 2e-3 * f * b * n.cos(f * u)),
            'sinh': (lambda n, u: n.exp(b * u) - n.exp(-b * u) - a, lambda n, u: b * (n.exp(b * u) + n.exp(-b * u))),
            'atan': (lambda n, u: n.arctan(a * u) + .3 * u - k, lambda n, u: a / (1. + (a * u)**2) + .3),
            'power5': (lambda n, u: u**5 + 1e-4 * u - .1 * k, lambda n, u: 5 * u**4 + 1e-4)}[kind]


def run_hard(case):
    import jax.numpy as np
    from pbt.core import Skip
    from jax_fem.problem import Problem
    from jax_fem.solver import solver
    rm = fem.make_mesh(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    vec = case['vec']
    f, df = law(case['kind'], rng)
    C = onp.array([[0., .1], [-.15, 0.]]) * rng.uniform(0., 1.) if vec == 2 else onp.zeros((1, 1))
    ratio = rng.uniform(-1., 1., vec)
    ratio[0] = 1.

    class P(Problem):
        def get_mass_map(self):
            return lambda u, x: f(np, u) + C @ u
    order = 2 * fem.ref(rm.ele).degree + 2
    p = P(fem.jmesh(rm), vec=vec, dim=rm.dim, ele_type=rm.ele, quadrature_order=order)     # mass matrices of full rank
    X, N, _, W = rm.tabulate(order)
    load = onp.zeros(len(rm.points))
    onp.add.at(load, rm.cells.reshape(-1), onp.einsum('qn,cq->cn', N, W).reshape(-1))
    ln = onp.linalg.norm(load)
    if onp.linalg.norm(load) < 1e-8:
        raise Skip()
    done, overshoot, slow = 0, 0, 0
    for o in case['steps']:
        u = o['g'] * ratio
        tol = 1e-6 if o['tol'] is None else o['tol']
        rel = 1e-8 if o['rel_tol'] is None else o['rel_tol']
        r0 = ln * onp.linalg.norm(f(onp, u) + C @ u)
        allowed = max(tol, rel * r0)
        if allowed < 1e-10 * max(1., r0 * 1e-4):       # out of reach of round-off
            continue
        guess = onp.tile(u, (len(rm.points), 1))
        hist = [r0]
        while hist[-1] > 1e-3 * allowed and len(hist) < 60 and onp.isfinite(hist[-1]) and hist[-1] < 1e12:
            J = onp.diag(df(onp, u)) + C
            if abs(onp.linalg.det(J)) < 1e-10:
                break
            u = u - onp.linalg.solve(J, f(onp, u) + C @ u)
            hist.append(ln * onp.linalg.norm(f(onp, u) + C @ u))
        # the reference itself must converge without a step that round-off would change noticeably
        if not onp.isfinite(hist[-1]) or hist[-1] > 1e-3 * allowed and hist[-1] > 1e-13 or max(hist) > 1e7 * max(1., r0):
            continue
        cfg = {'initial_guess': [np.asarray(guess)]}
        for k in ('tol', 'rel_tol'):
            if o[k] is not None:
                cfg[k] = o[k]
        lin = linear_dict(o['linear'])
        sol = onp.asarray(solver(p, {**cfg, **lin} if o['flat'] else {'newton': {**cfg, 'linear': lin}})[0])
        uq = onp.einsum('qn,cnv->cqv', N, sol[rm.cells])
        src = f(onp, uq) + uq @ C.T
        r = onp.zeros_like(sol)
        onp.add.at(r, rm.cells.reshape(-1), onp.einsum('qn,cqv,cq->cnv', N, src, W).reshape(-1, vec))
        rn = float(onp.linalg.norm(r))
        require(rn <= allowed * 1.001 + 1e-11 * (1. + abs(sol).max()), "law %s, start %s, tol %s, rel_tol %s: residual norm %.3g of the returned solution exceeds the tolerance %.3g (initial %.3g)",
                case['kind'], o['g'], o['tol'], o['rel_tol'], rn, allowed, r0)
        done += 1
        overshoot += max(hist) > 2 * r0
        slow += len(hist) > 8
    if not done:
        raise Skip()
    return {'nontrivial': overshoot > 0 or slow > 0, 'labels': [case['mesh']['ele'], 'law=' + case['kind'], f'vec={vec}',
                                                               'overshooting' if overshoot else 'no overshoot', 'slow' if slow else 'fast'], 'observed': f'{done} solves'}


SUBS = {'solve': {'strategy': case_st, 'run': run, 'examples': {'quick': 160, 'thorough': 5000}, 'weight': 3},
        'hard': {'strategy': hard_case, 'run': run_hard, 'examples': {'quick': 96, 'thorough': 3000}, 'weight': 1}}

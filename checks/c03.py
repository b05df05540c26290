"""C03: boundary selection."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close, Violation

RULE = """A case is a mesh of any element type, a component count and up to four location predicates (half-space, slab, ball,
coordinate plane of the grid, index set, combination of both, empty, everything; one- or two-argument, lambda or def), with
components and polynomial value functions; the constrained nodes / selected faces are compared with a brute-force evaluation of
the predicate in NumPy, before and after replacing the conditions.  'arity' draws predicates with 0, 3 or 4 arguments.
Non-trivial: at least one set selects something and at least one leaves something out."""
BUDGET_S = {'quick': 75, 'thorough': 700}
PAL = {'quad': [(1, 1), (2, 2), (3, 2), (5, 4)], 'tri': [(1, 1), (2, 2), (3, 3)], 'hex': [(1, 1, 1), (2, 2, 1), (3, 2, 2)],
       'tet': [(1, 1, 1), (2, 1, 1), (2, 2, 1)]}
KINDS = ['half', 'slab', 'ball', 'plane', 'index', 'half_index', 'none', 'all', 'one_node']


@st.composite
def pred_st(draw):
    return {'kind': draw(st.sampled_from(KINDS)), 'seed': draw(fem.seeds()), 'q': draw(st.integers(0, 10)) / 10,
            'args': draw(st.sampled_from([1, 2])), 'def': draw(st.booleans())}


@st.composite
def base_case(draw, sizes=PAL):
    return {'mesh': draw(fem.mesh_st(sizes=sizes)), 'vec': draw(st.integers(1, 3)),
            'preds': draw(st.lists(pred_st(), min_size=0, max_size=4)), 'comps': [draw(st.integers(0, 2)) for _ in range(4)],
            'preds2': draw(st.one_of(st.none(), st.lists(pred_st(), min_size=0, max_size=3))), 'vseed': draw(fem.seeds())}


def gap_between(vals, q):
    """a threshold in the widest-relative gap near quantile q, so that rounding cannot change a decision"""
    s = onp.sort(onp.unique(onp.round(vals, 12)))
    if len(s) == 1:
        return s[0] + 1.
    mids, gaps = (s[1:] + s[:-1]) / 2, onp.diff(s)
    ok = gaps > 1e-6 * (s[-1] - s[0])
    mids = mids[ok]
    return mids[min(int(q * len(mids)), len(mids) - 1)]


def make_pred(p, P):
    """(predicate for the code under test, boolean mask over nodes)"""
    import jax.numpy as np
    rng = onp.random.default_rng(p['seed'])
    n, d = P.shape
    k = p['kind']
    a = rng.normal(size=d)
    if k in ('half', 'half_index'):
        t = gap_between(P @ a, p['q'])
        geo = lambda x: np.dot(np.asarray(a), x) <= t
        mask = P @ a <= t
    elif k == 'slab':
        t1 = gap_between(P @ a, p['q'] / 2)
        t2 = gap_between(P @ a, 0.5 + p['q'] / 2)
        geo = lambda x: (np.dot(np.asarray(a), x) >= t1) & (np.dot(np.asarray(a), x) <= t2)
        mask = (P @ a >= t1) & (P @ a <= t2)
    elif k == 'ball':
        c = P[rng.integers(n)]
        r = gap_between(onp.linalg.norm(P - c, axis=1), p['q'])
        geo = lambda x: np.linalg.norm(x - np.asarray(c)) <= r
        mask = onp.linalg.norm(P - c, axis=1) <= r
    elif k == 'plane':
        ax = int(rng.integers(d))
        size = onp.ptp(P, axis=0).max()
        v = P[rng.integers(n), ax] if p['q'] > .5 else P[:, ax].min()
        tol = 1e-7 * size
        dist = onp.abs(P[:, ax] - v)
        if onp.any((dist > tol / 10) & (dist < 10 * tol)):
            tol = gap_between(dist, 0.)
        geo = lambda x: np.abs(x[ax] - v) <= tol
        mask = dist <= tol
    elif k == 'one_node':
        i0 = int(rng.integers(n))
        c = P[i0]
        r = gap_between(onp.linalg.norm(P - c, axis=1), 0.)
        geo = lambda x: np.sum((x - np.asarray(c))**2) <= r**2 / 4
        mask = onp.arange(n) == i0
    else:
        geo = (lambda x: x[0] < -1e30) if k == 'none' else (lambda x: x[0] > -1e30)
        mask = onp.zeros(n, bool) if k == 'none' else onp.ones(n, bool)
    if k in ('index', 'half_index'):
        idx = onp.sort(rng.choice(n, size=max(1, int(p['q'] * n)), replace=False))
        inset = onp.isin(onp.arange(n), idx)
        mask = inset if k == 'index' else mask & inset
        g = geo if k == 'half_index' else None
        if p['def']:
            def f(point, ind):
                r = np.isin(ind, np.asarray(idx))
                return r if g is None else r & g(point)
        else:
            f = lambda point, ind: np.isin(ind, np.asarray(idx)) & (g(point) if g is not None else True)
        return f, mask, 2
    if p['args'] == 1:
        if p['def']:
            def f(point):
                return geo(point)
        else:
            f = lambda point: geo(point)
        return f, mask, 1
    if p['def']:
        def f(point, index):
            return geo(point)
    else:
        f = lambda x, i: geo(x) & (i >= 0)
    return f, mask, 2


def make_info(preds, case, rm, rng):
    import jax.numpy as np
    locs, comps, vals, want = [], [], [], []
    for i, p in enumerate(preds):
        f, mask, _ = make_pred(p, rm.points)
        c = case['comps'][i] % case['vec']
        co = rng.uniform(-1, 1, rm.dim + 2)
        locs.append(f)
        comps.append(c)
        vals.append(lambda x, co=co: np.dot(np.asarray(co[:-2]), x) + co[-2] * x[0] * x[-1] + co[-1])
        idx = onp.where(mask)[0]
        X = rm.points[idx]
        want.append((idx, c, X @ co[:-2] + co[-2] * X[:, 0] * X[:, -1] + co[-1]))
    return [locs, comps, vals], want


def check_sets(fe, want, when):
    require(len(fe.node_inds_list) == len(fe.vec_inds_list) == len(fe.vals_list) == len(want),
            "%s: %d condition sets, expected %d", when, len(fe.node_inds_list), len(want))
    for i, (idx, c, v) in enumerate(want):
        got = onp.asarray(fe.node_inds_list[i]).reshape(-1)
        order = onp.argsort(got, kind='stable')
        require(got[order].tolist() == idx.tolist(), "%s: set %d constrains nodes %s, expected %s", when, i, got[order].tolist(), idx.tolist())
        require(onp.asarray(fe.vec_inds_list[i]).reshape(-1).tolist() == [c] * len(idx), "%s: set %d constrains components %s, expected all %d",
                when, i, onp.asarray(fe.vec_inds_list[i]).tolist(), c)
        close(onp.asarray(fe.vals_list[i]).reshape(-1)[order], v, f"{when}: prescribed values of set {i}", 1e-11, 1e-13)


def info(case, rm, masks):
    sel = [int(m.sum()) for m in masks]
    return {'nontrivial': any(0 < s for s in sel) and any(s < len(rm.points) for s in sel),
            'labels': [case['mesh']['ele'], f'sets={len(masks)}'] + ['kind=' + p['kind'] for p in case['preds']],
            'observed': f'selected per set {sel} of {len(rm.points)} nodes'}


def run_nodes(case):
    rm = fem.make_mesh(case['mesh'])
    rng = onp.random.default_rng(case['vseed'])
    info1, want = make_info(case['preds'], case, rm, rng)
    fe = sut.make_fe(rm, case['vec'], None, None, info1)
    check_sets(fe, want, 'as built')
    if case['preds2'] is not None:
        info2, want2 = make_info(case['preds2'], case, rm, rng)
        fe.update_Dirichlet_boundary_conditions(info2)
        check_sets(fe, want2, 'after the update')
        fe.update_Dirichlet_boundary_conditions(info1)
        check_sets(fe, want, 'after restoring the first conditions')
    return info(case, rm, [make_pred(p, rm.points)[1] for p in case['preds']])


def run_faces(case):
    rm = fem.make_mesh(case['mesh'])
    fe = sut.make_fe(rm, case['vec'])
    built = [make_pred(p, rm.points) for p in case['preds']]
    lists = fe.get_boundary_conditions_inds([b[0] for b in built])
    require(len(lists) == len(built), "%d face sets, expected %d", len(lists), len(built))
    size = onp.ptp(rm.points, axis=0).max()
    total = 0
    for i, (f, mask, nargs) in enumerate(built):
        chosen = set(onp.where(mask)[0].tolist())
        want = sorted((c, fc) for key, l in rm.faces_by_verts.items() if key <= chosen for c, fc in l)
        got = onp.asarray(lists[i]).reshape(-1, 2)
        require(len(got) == len(want), "face set %d (%s) has %d faces, expected %d", i, case['preds'][i]['kind'], len(got), len(want))
        # fixed shapes for the identification (compiled code is shared)
        pad = onp.concatenate([got, onp.repeat(got[:1], (-len(got)) % 16, 0)]) if len(got) else got
        loc = sut.identify_faces(rm, fe, pad)[:len(got)]
        have = sorted((int(c), fc) for (c, _), fc in zip(got, loc))
        require(have == want, "face set %d selects %s, expected %s", i, have, want)
        total += len(want)
        if nargs == 1:
            n = fem.jmesh(rm).count_selected_faces(f)
            require(int(n) == len(want), "count_selected_faces returns %s, %s faces are selected", n, len(want))
    inf = info(case, rm, [b[1] for b in built])
    inf['labels'].append('faces>0' if total else 'no faces')
    return inf


@st.composite
def problem_case(draw):
    c = draw(base_case(sizes=fem.SMALL_HO))
    c['nvars'] = draw(st.sampled_from([1, 2]))
    c['spreds'] = draw(st.lists(pred_st(), max_size=3))
    return c


def run_problem(case):
    """through Problem: sets of every variable, surface sets, and the printed report"""
    import contextlib, io
    from jax_fem.problem import Problem
    rm = fem.make_mesh(case['mesh'])
    rng = onp.random.default_rng(case['vseed'])
    info1, want1 = make_info(case['preds'], case, rm, rng)
    info2, want2 = make_info(case['preds2'] or [], case, rm, rng)
    surf = [make_pred(p, rm.points) for p in case['spreds']]

    class P(Problem):
        def get_universal_kernel(self):
            return lambda s, *a: s

        def get_universal_kernels_surface(self):
            return [lambda s, *a: 0. * s for _ in surf]
    loc = [s[0] for s in surf]
    if case['nvars'] == 1:
        p = P(fem.jmesh(rm), vec=case['vec'], dim=rm.dim, ele_type=rm.ele, dirichlet_bc_info=info1, location_fns=loc)
    else:
        p = P([fem.jmesh(rm)] * 2, vec=[case['vec']] * 2, dim=rm.dim, ele_type=[rm.ele] * 2,
              dirichlet_bc_info=[info1, info2 if case['preds2'] is not None else None], location_fns=loc)
        check_sets(p.fes[1], want2, 'second variable')
    check_sets(p.fes[0], want1, 'first variable')
    require(len(p.boundary_inds_list) == len(surf), "%d surface sets, expected %d", len(p.boundary_inds_list), len(surf))
    for i, (f, mask, _) in enumerate(surf):
        chosen = set(onp.where(mask)[0].tolist())
        want = sorted(c for key, l in rm.faces_by_verts.items() if key <= chosen for c, fc in l)
        got = sorted(onp.asarray(p.boundary_inds_list[i]).reshape(-1, 2)[:, 0].tolist())
        require(got == want, "surface set %d lies on cells %s, expected %s", i, got, want)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        p.print_BC_info()
    require(out.getvalue().strip() != '', "the report is empty")
    return info(case, rm, [make_pred(q, rm.points)[1] for q in case['preds']] + [s[1] for s in surf])


@st.composite
def arity_case(draw):
    return {'mesh': {'ele': draw(st.sampled_from(fem.ALL_ELES)), 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': False},
            'n': draw(st.sampled_from([0, 3, 4, 5])), 'what': draw(st.sampled_from(['nodes', 'faces', 'update'])), 'pos': draw(st.integers(0, 2))}


def run_arity(case):
    m = dict(case['mesh'])
    m['n'] = [1] * fem.ELE[m['ele']][0]
    rm = fem.make_mesh(m)
    bad = {0: lambda: True, 3: lambda a, b, c: True, 4: lambda a, b, c, d: True, 5: lambda a, b, c, d, e: True}[case['n']]
    good = lambda point: point[0] > -1e30
    locs = [good] * case['pos'] + [bad]
    inf = [locs, [0] * len(locs), [lambda x: 0.] * len(locs)]
    fe = sut.make_fe(rm)
    try:
        if case['what'] == 'nodes':
            sut.make_fe(rm, bc=inf)
        elif case['what'] == 'update':
            fe.update_Dirichlet_boundary_conditions(inf)
        else:
            fe.get_boundary_conditions_inds(locs)
    except ValueError:
        return {'nontrivial': True, 'labels': [case['what'], f'n={case["n"]}'], 'observed': 'ValueError'}
    except Exception as e:
        raise Violation(f"a predicate of {case['n']} arguments raised {type(e).__name__}, not ValueError")
    raise Violation(f"a predicate of {case['n']} arguments was accepted")


SUBS = {
    'nodes': {'strategy': base_case, 'run': run_nodes, 'examples': {'quick': 240, 'thorough': 5000}, 'weight': 1},
    'faces': {'strategy': base_case, 'run': run_faces, 'examples': {'quick': 240, 'thorough': 5000}, 'weight': 1.5},
    'problem': {'strategy': problem_case, 'run': run_problem, 'examples': {'quick': 80, 'thorough': 1500}, 'weight': 1},
    'arity': {'strategy': arity_case, 'run': run_arity, 'examples': {'quick': 32, 'thorough': 72}, 'weight': .3},
}

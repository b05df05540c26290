"""C02: quadrature measures."""
import numpy as onp
import basix
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close, Violation
from pbt.poly import Poly, frame

RULE = """A case is a mesh of any element type (affine cells, or straight-sided distorted cells), a quadrature order 0 to 15 or the
default, a rule (None, 'default', Gauss-Jacobi, GLL, Xiao-Gimbutas; as a string or an enum value where the cell supports it), a
polynomial of degree up to that order and a face selection; sub-check 'problem' integrates through residuals of single- and
multi-variable problems; 'invalid' draws rules that do not exist.  Non-trivial: the order is not the element's default or the
rule is not None or the mesh is not the plain unit grid."""
BUDGET_S = {'quick': 80, 'thorough': 900}
TWO = {'quad': [(1, 1), (3, 2)], 'tri': [(1, 1), (2, 3)], 'hex': [(1, 1, 1), (2, 2, 1)], 'tet': [(1, 1, 1), (2, 1, 1)]}
RULES = {'quad': [None, 'default', 'E:default', 'gauss_jacobi', 'E:gauss_jacobi', 'gll'],
         'hex': [None, 'default', 'E:default', 'gauss_jacobi', 'E:gauss_jacobi', 'gll'],
         'tri': [None, 'default', 'E:default', 'gauss_jacobi', 'E:gauss_jacobi'],
         'tet': [None, 'default', 'E:default', 'gauss_jacobi', 'E:gauss_jacobi', 'xiao_gimbutas', 'E:xiao_gimbutas']}
# what the rules are called by basix.quadrature.string_to_type
NAMES = {'default': 'default', 'gauss_jacobi': 'Gauss-Jacobi', 'gll': 'GLL', 'xiao_gimbutas': 'Xiao-Gimbutas'}


def rule_of(r):
    """(what is passed to the code, the basix name for the reference)"""
    if r is None:
        return None, None
    n = NAMES[r.split(':')[-1]]
    return (basix.quadrature.string_to_type(n), n) if r.startswith('E:') else (n, n)


@st.composite
def measure_case(draw):
    m = draw(fem.mesh_st(sizes=TWO, affine='scale', curve=False))
    order = draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15]))
    rule = draw(st.sampled_from(RULES[fem.ELE[m['ele']][1]]))
    if rule and 'xiao' in rule and (fem.ELE[m['ele']][6] if order is None else order) < 1:
        order = 2          # the library basix offers no Xiao-Gimbutas rule of order 0
    return {'mesh': m, 'order': order, 'rule': rule, 'deg': draw(st.one_of(st.integers(0, 8), st.integers(9, 15))), 'pseed': draw(fem.seeds()),
            'faces': draw(st.sampled_from(['boundary', 'all', 'some']))}


def eff(case):
    return fem.ELE[case['mesh']['ele']][6] if case['order'] is None else case['order']


def info(case, *more):
    m = case['mesh']
    nt = case['order'] is not None or case.get('rule') is not None or bool(m['grade'] or m['jitter'] or m['affine'] or m['shuffle'])
    return {'nontrivial': nt, 'labels': [m['ele'], 'order=' + str(case['order']), 'rule=' + str(case.get('rule')),
                                         'affine' if fem.is_affine(m) else 'distorted', *more]}


def select(rm, fe, kind, rng):
    nodes = {'all': range(len(rm.points)), 'boundary': rm.boundary_nodes,
             'some': rng.choice(len(rm.points), size=max(1, int(0.8 * len(rm.points))), replace=False)}[kind]
    inds = onp.asarray(fe.get_boundary_conditions_inds([sut.in_set_fn(nodes)])[0])
    return inds[rng.choice(len(inds), 8)] if len(inds) else inds


def run_measure(case):
    m = case['mesh']
    rm = fem.make_mesh(m)
    rng = onp.random.default_rng(case['pseed'])
    q = eff(case)
    given_rule, name = rule_of(case['rule'])
    fe = sut.make_fe(rm, 1, case['order'], given_rule)
    c, L = frame(rm.points)
    affine = fem.is_affine(m)
    deg = min(case['deg'], q) if affine else 0
    f = Poly(rm.dim, deg, 1, rng, c, L)
    if not affine:
        f.coef[:] = 1.
    x = onp.asarray(fe.get_physical_quad_points())
    w = onp.asarray(fe.JxW)
    X, _, _, W = rm.tabulate(max(12, q + 1) if affine else 4)
    vol = W.sum()
    if affine or q >= rm.dim - 1:       # det J of a straight-sided quadrilateral/hexahedron has degree 1/2
        close((f(x)[..., 0] * w).sum(), (f(X)[..., 0] * W).sum(), f"volume integral of a degree {deg} polynomial", 1e-10, 0, scale=vol)
        close((f(x)[..., 0] * w).sum(1), (f(X)[..., 0] * W).sum(1), "cell by cell integrals", 1e-10, 0, scale=vol / len(rm.cells))
    # the requested rule itself: points and weights
    size = onp.ptp(rm.points, axis=0).max()
    Xr, _, _, Wr = rm.tabulate(case['order'], name)
    require(x.shape == Xr.shape, "the requested order/rule has %s points per cell, got %s", Xr.shape[1], x.shape[1])
    p = sut.match(x[0], Xr[0], "volume quadrature points of the requested order and rule", 1e-9 * size)
    close(x, Xr[:, p], "volume quadrature points", 1e-9, 0)
    close(w, Wr[:, p], "volume weights", 1e-9, 0)
    inds = select(rm, fe, case['faces'], rng)
    if len(inds):
        loc = sut.identify_faces(rm, fe, inds, case['order'], name)
        xs = onp.asarray(fe.get_physical_surface_quad_points(inds))
        ws = onp.asarray(fe.get_face_shape_grads(inds)[1])
        for k, (cell, _) in enumerate(inds):
            Xf, _, _, Wf, _ = rm.tab_face(int(cell), loc[k], case['order'], name)
            pm = sut.match(xs[k], Xf, "surface quadrature points of the requested order and rule", 1e-9 * size)
            close(ws[k], Wf[pm], "surface weights", 1e-9, 0)
            if affine or rm.dim == 2:
                Xe, _, _, We, _ = rm.tab_face(int(cell), loc[k], max(12, q + 1))
                close((f(xs[k])[:, 0] * ws[k]).sum(), (f(Xe)[:, 0] * We).sum(), f"surface integral of a degree {deg} polynomial",
                      1e-10, 0, scale=We.sum())
    return info(case, f'deg={deg}')


@st.composite
def problem_case(draw):
    m = draw(fem.mesh_st(sizes=TWO, curve=False, jitter=False))
    from pbt.models import FAMILY
    nv = draw(st.sampled_from([1, 2, 2, 3]))
    fam = FAMILY[fem.ELE[m['ele']][1]]
    eles = [m['ele']] + [draw(st.sampled_from(fam)) for _ in range(nv - 1)]
    order = draw(st.sampled_from([None, 1, 2, 3, 5, 9, 12])) if len(set(eles)) == 1 else draw(st.sampled_from([1, 2, 3, 5, 7, 11]))
    shp = fem.ELE[m['ele']][1]
    return {'mesh': m, 'eles': eles, 'vecs': [draw(st.integers(1, 2)) for _ in range(nv)], 'order': order,
            'rule': draw(st.sampled_from([None, 'gauss_jacobi', 'E:gauss_jacobi'])), 'deg': draw(st.integers(0, 5)),
            'order_form': draw(st.sampled_from(['list', 'scalar'])), 'rule_form': draw(st.sampled_from(['list', 'scalar'])),
            'faces': draw(st.sampled_from(['boundary', 'all'])), 'pseed': draw(fem.seeds())}


def run_problem(case):
    import jax
    import jax.numpy as np
    from jax_fem.problem import Problem
    from pbt.models import second_mesh
    m = case['mesh']
    rm = fem.make_mesh(m)
    rms = [rm] + [second_mesh(rm, e) for e in case['eles'][1:]]
    rng = onp.random.default_rng(case['pseed'])
    vecs, nv, dim = case['vecs'], len(case['vecs']), rm.dim
    q = eff(case)
    deg = min(case['deg'], q)
    c, L = frame(rm.points)
    given_rule, name = rule_of(case['rule'])
    fs = [Poly(dim, deg, v, rng, c, L) for v in vecs]
    gs = [Poly(dim, deg, v, rng, c, L) for v in vecs]

    def ev(f, x):
        y = (x - f.c) / f.L
        return np.prod(y[..., None, :] ** np.asarray(f.exps), axis=-1) @ f.coef

    if nv == 1:
        class P(Problem):
            def get_mass_map(self):
                return lambda u, x: ev(fs[0], x)

            def get_surface_maps(self):
                return [lambda u, x: ev(gs[0], x)]
        p = P(fem.jmesh(rm), vec=vecs[0], dim=dim, ele_type=rm.ele, quadrature_order=case['order'], quadrature_rule=given_rule,
              location_fns=[sut.in_set_fn(rm.boundary_nodes if case['faces'] == 'boundary' else range(len(rm.points)))])
    else:
        class P(Problem):
            def get_universal_kernel(self):
                def kernel(s, x, grads, JxW, vgJ):
                    return jax.flatten_util.ravel_pytree([np.einsum('qv,qn,q->nv', ev(fs[i], x), self.fes[i].shape_vals, JxW[i])
                                                          for i in range(nv)])[0]
                return kernel

            def get_universal_kernels_surface(self):
                def kernel(s, x, vals, grads, scale):
                    cum = self.num_nodes_cumsum
                    return jax.flatten_util.ravel_pytree([np.einsum('qv,qn,q->nv', ev(gs[i], x), vals[:, cum[i]:cum[i + 1]], scale[i])
                                                          for i in range(nv)])[0]
                return [kernel]
        p = P([fem.jmesh(r) for r in rms], vec=list(vecs), dim=dim, ele_type=list(case['eles']),
              quadrature_order=[case['order']] * nv if case['order_form'] == 'list' else case['order'],
              quadrature_rule=[given_rule] * nv if case['rule_form'] == 'list' else given_rule,
              location_fns=[sut.in_set_fn(rm.boundary_nodes if case['faces'] == 'boundary' else range(len(rm.points)))])
    res = p.compute_residual([np.zeros((len(r.points), v)) for r, v in zip(rms, vecs)])
    X, _, _, W = rm.tabulate(12)
    chosen = set(int(n) for n in (rm.boundary_nodes if case['faces'] == 'boundary' else range(len(rm.points))))
    flist = [cf for k, l in rm.faces_by_verts.items() if k <= chosen for cf in l]
    tabs = [rm.tab_face(cc, f, 12) for cc, f in flist]
    area = sum(t[3].sum() for t in tabs)
    for i in range(nv):
        want = onp.einsum('cqv,cq->v', fs[i](X), W) + sum(gs[i](t[0]).T @ t[3] for t in tabs)
        close(onp.asarray(res[i]).sum(0), want, f"integral of volume and surface sources of variable {i}", 1e-10, 0, scale=W.sum() + area)
    return info(case, f'vars={nv}', 'mixed' if len(set(case['eles'])) > 1 else 'same', 'orders ' + case['order_form'], 'rules ' + case['rule_form'])


BAD = ['gauss', 'Gauss', 'nope', '', 'xiao', 'legendre', 'trapezoid']


@st.composite
def invalid_case(draw):
    ele = draw(st.sampled_from(fem.ALL_ELES))
    kinds = ['string', 'int', 'float', 'tuple', 'bytes', 'object']
    if fem.ELE[ele][1] in ('quad', 'hex'):
        kinds.append('simplex_only')
    kind = draw(st.sampled_from(kinds))
    return {'mesh': {'ele': ele, 'n': [1] * fem.ELE[ele][0], 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': False},
            'kind': kind, 'text': draw(st.one_of(st.sampled_from(BAD), st.text('abcxyz-_ ', min_size=1, max_size=12))),
            'num': draw(st.integers(1, 9)), 'order': draw(st.sampled_from([None, 2, 3])), 'level': draw(st.sampled_from(['fe', 'problem']))}


def run_invalid(case):
    from jax_fem.problem import Problem
    bad = {'string': case['text'], 'int': case['num'], 'float': case['num'] / 7, 'tuple': ('Gauss-Jacobi',), 'bytes': b'GLL', 'object': object(),
           'simplex_only': 'Xiao-Gimbutas'}[case['kind']]
    if isinstance(bad, str) and case['kind'] == 'string':
        try:
            basix.quadrature.string_to_type(bad)
            from pbt.core import Skip
            raise Skip()
        except (ValueError, RuntimeError, KeyError, AttributeError):
            pass
    rm = fem.make_mesh(case['mesh'])
    try:
        if case['level'] == 'fe':
            sut.make_fe(rm, 1, case['order'], bad)
        else:
            class P(Problem):
                def get_mass_map(self):
                    return lambda u, x: u
            P(fem.jmesh(rm), vec=1, dim=rm.dim, ele_type=rm.ele, quadrature_order=case['order'], quadrature_rule=bad)
    except Exception:
        return {'nontrivial': True, 'labels': [case['mesh']['ele'], case['kind']], 'observed': 'rejected'}
    raise Violation(f"the invalid quadrature rule {bad!r} was accepted for {rm.ele}")


SUBS = {
    'measure': {'strategy': measure_case, 'run': run_measure, 'examples': {'quick': 320, 'thorough': 8000}, 'weight': 2},
    'problem': {'strategy': problem_case, 'run': run_problem, 'examples': {'quick': 96, 'thorough': 2400}, 'weight': 1.5},
    'invalid': {'strategy': invalid_case, 'run': run_invalid, 'examples': {'quick': 64, 'thorough': 600}, 'weight': .5},
}

"""C16: several variables: independence of uncoupled ones, order of coupled ones."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models, sut
from pbt.core import require, close

RULE = """Sub 'uncoupled': two or three variables of different element types, component counts, node numberings and boundary
conditions on the same cells, each with its own random nonlinear law in a universal kernel (volume and surface); residual, tangent
blocks and solution must equal those of the single-variable problems written with the legacy tensor/mass/surface maps, coupling
blocks must vanish.  Sub 'order': a coupled law, the twin problem with the variables listed in another order; residuals, tangents and
solutions must be reordered.  Non-trivial: the variables differ in element type, component count or boundary data (uncoupled) / the
order is not the identity."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 150
TPL = [('QUAD4', [3, 2], ['QUAD4', 'QUAD4'], [1, 2], None), ('QUAD4', [3, 2], ['QUAD8', 'QUAD4'], [2, 1], 3),
       ('QUAD4', [7, 3], ['QUAD4', 'QUAD4', 'QUAD4'], [1, 1, 2], None), ('QUAD4', [2, 2], ['QUAD4', 'QUAD8', 'QUAD4'], [1, 2, 1], 3),
       ('TRI3', [2, 2], ['TRI6', 'TRI3'], [2, 1], 2), ('TRI3', [3, 3], ['TRI3', 'TRI6', 'TRI3'], [1, 1, 2], 2),
       ('HEX8', [2, 1, 1], ['HEX8', 'HEX8'], [3, 1], None), ('HEX8', [1, 1, 1], ['HEX8', 'HEX20'], [3, 1], 4),
       ('TET4', [1, 1, 1], ['TET10', 'TET4'], [1, 3], 2), ('TET4', [2, 1, 1], ['TET4', 'TET4', 'TET4'], [1, 2, 1], 2)]


@st.composite
def case_st(draw, coupled):
    k = draw(st.integers(0, len(TPL) - 1))
    n = len(TPL[k][2])
    c = {'tpl': k, 'seed': draw(fem.seeds()), 'wseed': draw(st.integers(0, 1)), 'lin': draw(st.booleans()), 'surf': draw(st.booleans()),
         'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., .2])), 'shuffle': draw(st.booleans()), 'guess': draw(st.booleans()),
         'bcs': [draw(st.sampled_from(['none', 'side', 'some', 'side'])) for _ in range(n)], 'perm': draw(st.permutations(list(range(n))))}
    if coupled and n == 2:
        c['perm'] = [1, 0]
    return c


class World:
    """meshes, boundary data and face set of a case"""

    def __init__(self, case):
        self.case = case
        ele, n, self.eles, self.vecs, self.order = TPL[case['tpl']]
        self.rng = rng = onp.random.default_rng(case['seed'])
        base = fem.make_mesh({'ele': ele, 'n': n, 'seed': case['seed'], 'grade': case['grade'], 'jitter': case['jitter'], 'affine': False,
                              'shuffle': case['shuffle'], 'curve': 0.})
        self.d = d = base.dim
        self.rms = []
        for e in self.eles:
            r = models.second_mesh(base, e)
            p = rng.permutation(len(r.points)) if case['shuffle'] else onp.arange(len(r.points))     # every variable numbers its own nodes
            Y = onp.empty_like(r.points)
            Y[p] = r.points
            self.rms.append(fem.RefMesh(e, Y, p[r.cells]))
        # half space whose plane stays away from the vertices
        a = rng.normal(size=d)
        pr = onp.sort(onp.unique(onp.round(onp.concatenate([r.points @ a for r in self.rms]), 9)))
        gaps = onp.diff(pr)
        lo = len(pr) // 3
        k = lo + int(onp.argmax(gaps[lo:])) if len(gaps) > lo else 0
        self.a, self.cut = a, float((pr[k] + pr[k + 1]) / 2)
        self.bcs = []
        for i, r in enumerate(self.rms):
            v, kind = self.vecs[i], case['bcs'][i]
            if kind == 'none':
                self.bcs.append(None)
                continue
            out = [[], [], []]
            for c in range(v):
                b = rng.normal(size=d)
                q = r.points @ b
                nodes = onp.where(q <= onp.quantile(q, .3))[0] if kind == 'side' else rng.choice(len(q), size=max(1, len(q) // 4), replace=False)
                co = rng.uniform(-1, 1, d + 1)
                out[0].append(nodes)
                out[1].append(c)
                out[2].append(co)
                if kind == 'some' and rng.random() < .5:
                    break
            self.bcs.append(out)

    def dirichlet(self, i):
        import jax.numpy as np
        b = self.bcs[i]
        if b is None:
            return None
        return [[sut.in_set_fn(n) for n in b[0]], list(b[1]), [(lambda co: lambda x: np.dot(np.asarray(co[:-1]), x) + co[-1])(c) for c in b[2]]]

    def location(self):
        import jax.numpy as np
        a, cut = np.asarray(self.a), self.cut
        return [lambda x: np.dot(x, a) < cut] if self.case['surf'] else None

    def multi(self, perm, volume, surface):
        """volume(xp, U, G, x) -> (M list, F list) and surface(xp, U, x) -> list in the canonical order of the variables"""
        import jax.numpy as np
        from jax.flatten_util import ravel_pytree
        from jax_fem.problem import Problem
        W = self
        d = self.d
        pos = [perm.index(i) for i in range(len(perm))]        # canonical variable i is variable pos[i] of the problem

        def get_universal_kernel(self):
            def kernel(cell_sol_flat, x, cell_shape_grads, cell_JxW, cell_v_grads_JxW):
                sols = self.unflatten_fn_dof(cell_sol_flat)
                cum = self.num_nodes_cumsum
                U = [np.einsum('nv,qn->qv', s, self.fes[j].shape_vals) for j, s in enumerate(sols)]
                G = [np.einsum('nv,qnd->qvd', s, cell_shape_grads[:, cum[j]:cum[j + 1], :]) for j, s in enumerate(sols)]
                M, F = volume(np, [U[j] for j in pos], [G[j] for j in pos], x)
                out = []
                for j in range(len(sols)):
                    i = perm[j]
                    out.append(np.einsum('qv,qn,q->nv', M[i], self.fes[j].shape_vals, cell_JxW[j])
                               + np.sum(F[i][:, None] * cell_v_grads_JxW[:, cum[j]:cum[j + 1]], axis=(0, -1)))
                return ravel_pytree(out)[0]
            return kernel

        def get_universal_kernels_surface(self):
            def kernel(cell_sol_flat, x, face_shape_vals, face_shape_grads, face_nanson_scale):
                sols = self.unflatten_fn_dof(cell_sol_flat)
                cum = self.num_nodes_cumsum
                N = [face_shape_vals[:, cum[j]:cum[j + 1]] for j in range(len(sols))]
                U = [np.einsum('nv,qn->qv', s, N[j]) for j, s in enumerate(sols)]
                y = surface(np, [U[j] for j in pos], x)
                return ravel_pytree([np.einsum('qv,qn,q->nv', y[perm[j]], N[j], face_nanson_scale[j]) for j in range(len(sols))])[0]
            return [kernel]
        ns = {'get_universal_kernel': get_universal_kernel}
        if self.case['surf']:
            ns['get_universal_kernels_surface'] = get_universal_kernels_surface
        return type('Multi', (Problem,), ns)([fem.jmesh(self.rms[i]) for i in perm], vec=[self.vecs[i] for i in perm], dim=d,
                                             ele_type=[self.eles[i] for i in perm], quadrature_order=[self.order] * len(perm),
                                             dirichlet_bc_info=[self.dirichlet(i) for i in perm], location_fns=self.location())

    def state(self):
        return [self.rng.uniform(-1, 1, (len(r.points), v)) for r, v in zip(self.rms, self.vecs)]


def tangent(p, u):
    import jax.numpy as np
    import scipy.sparse as sps
    p.newton_update([np.asarray(a) for a in u])
    n = sum(a.size for a in u)
    return sps.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(n, n)).toarray()


def residual(p, u):
    import jax.numpy as np
    return [onp.asarray(a) for a in p.compute_residual([np.asarray(a) for a in u])]


def solve(p, guess=None):
    from jax_fem.solver import solver
    import jax.numpy as np
    o = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}
    if guess is not None:
        o['initial_guess'] = [np.asarray(g) for g in guess]
    return [onp.asarray(s) for s in solver(p, o)]


def run_uncoupled(case):
    import jax.numpy as np
    from jax_fem.problem import Problem
    W = World(case)
    d, vecs = W.d, W.vecs
    w = onp.random.default_rng(case['wseed'])
    T = [models.MonoLaw(v * d, d, w, sym=False, lin=case['lin']) for v in vecs]
    M = [models.MonoLaw(v, d, w, sym=False, lin=case['lin']) for v in vecs]
    H = [models.MonoLaw(v, d, w, sym=False, lin=case['lin']) for v in vecs]

    def volume(xp, U, G, x):
        return ([M[i](xp, xp.concatenate([U[i], x], -1)) for i in range(len(U))],
                [T[i](xp, xp.concatenate([G[i].reshape(len(x), -1), x], -1)).reshape(G[i].shape) for i in range(len(U))])

    def surface(xp, U, x):
        return [H[i](xp, xp.concatenate([U[i], x], -1)) for i in range(len(U))]
    p = W.multi(list(range(len(vecs))), volume, surface)
    u = W.state()
    solos = []
    for i, v in enumerate(vecs):
        ns = {'get_tensor_map': (lambda i, v: lambda self: lambda g, x: T[i](np, np.concatenate([g.reshape(-1), x])).reshape(v, d))(i, v),
              'get_mass_map': (lambda i: lambda self: lambda u, x, xi: M[i](np, np.concatenate([u, x])))(i)}
        if case['surf']:
            ns['get_surface_maps'] = (lambda i: lambda self: [lambda u, x: H[i](np, np.concatenate([u, x]))])(i)

        def custom_init(self):
            self.internal_vars = [self.fes[0].get_physical_quad_points()]
        ns['custom_init'] = custom_init
        solos.append(type('Solo', (Problem,), ns)(fem.jmesh(W.rms[i]), vec=v, dim=d, ele_type=W.eles[i], quadrature_order=W.order,
                                                  dirichlet_bc_info=W.dirichlet(i), location_fns=W.location()))
    r = residual(p, u)
    K = tangent(p, u)
    off = onp.concatenate([[0], onp.cumsum([a.size for a in u])])
    guess = W.state() if case['guess'] else None
    sol = solve(p, guess)
    require(len(sol) == len(vecs), "%d solutions for %d variables", len(sol), len(vecs))
    for i, q in enumerate(solos):
        name = f"variable {i} ({W.eles[i]}, {vecs[i]} components)"
        close(r[i], residual(q, [u[i]])[0], f"residual of {name} against the single-variable problem", 1e-10, 0)
        for j in range(len(vecs)):
            B = K[off[i]:off[i + 1], off[j]:off[j + 1]]
            if i == j:
                close(B, tangent(q, [u[i]]), f"tangent block of {name} against the single-variable problem", 1e-10, 0)
            else:
                require(not onp.any(B), "coupling block (%d, %d) of uncoupled variables has entries up to %.3g", i, j, onp.abs(B).max())
        close(sol[i], solve(q, None if guess is None else [guess[i]])[0], f"solution of {name} against the single-variable solve", 1e-7, 1e-8)
    nt = len(set(zip(W.eles, vecs, case['bcs']))) > 1
    return {'nontrivial': nt, 'labels': ['+'.join(f'{e}:{v}' for e, v in zip(W.eles, vecs)), f'surface={case["surf"]}', f'own numbering={case["shuffle"]}',
                                         'bcs=' + '/'.join(sorted(set(case['bcs']))), f'guess={case["guess"]}'],
            'observed': f'{int(off[-1])} dofs, max |u| {[float(onp.round(onp.abs(s).max(), 4)) for s in sol]}'}


def run_order(case):
    W = World(case)
    d, vecs = W.d, W.vecs
    nu = sum(vecs)
    w = onp.random.default_rng(case['wseed'])
    V = models.MonoLaw(nu + nu * d, d, w, sym=False, lin=case['lin'])
    H = models.MonoLaw(nu, d, w, sym=False, lin=case['lin'])
    cuts = onp.cumsum(vecs)

    def volume(xp, U, G, x):
        y = V(xp, xp.concatenate(U + [g.reshape(len(x), -1) for g in G] + [x], -1))
        Ms = [y[:, c - v:c] for c, v in zip(cuts, vecs)]
        Fs = [y[:, nu + (c - v) * d:nu + c * d].reshape(-1, v, d) for c, v in zip(cuts, vecs)]
        return Ms, Fs

    def surface(xp, U, x):
        y = H(xp, xp.concatenate(U + [x], -1))
        return [y[:, c - v:c] for c, v in zip(cuts, vecs)]
    perm = list(case['perm'])
    ident = list(range(len(vecs)))
    p, q = W.multi(ident, volume, surface), W.multi(perm, volume, surface)
    u = W.state()
    up = [u[i] for i in perm]
    r, rp = residual(p, u), residual(q, up)
    sc = max(onp.abs(a).max() for a in r)
    for j, i in enumerate(perm):
        close(rp[j], r[i], f"residual of variable {i} listed as number {j}", 1e-10, 0, scale=sc)
    off = onp.concatenate([[0], onp.cumsum([a.size for a in u])])
    dofs = onp.concatenate([onp.arange(off[i], off[i + 1]) for i in perm])
    close(tangent(q, up), tangent(p, u)[onp.ix_(dofs, dofs)], f"tangent with variables in order {perm}", 1e-10, 0)
    guess = W.state() if case['guess'] else None
    s, sp_ = solve(p, guess), solve(q, None if guess is None else [guess[i] for i in perm])
    for j, i in enumerate(perm):
        close(sp_[j], s[i], f"solution of variable {i} listed as number {j}", 1e-7, 1e-8)
    return {'nontrivial': perm != ident, 'labels': ['+'.join(f'{e}:{v}' for e, v in zip(W.eles, vecs)), f'order={perm}', f'surface={case["surf"]}'],
            'observed': f'{int(off[-1])} dofs'}


SUBS = {'uncoupled': {'strategy': lambda: case_st(False), 'run': run_uncoupled, 'examples': {'quick': 72, 'thorough': 2500}, 'weight': 1.3},
        'order': {'strategy': lambda: case_st(True), 'run': run_order, 'examples': {'quick': 64, 'thorough': 2500}, 'weight': 1}}

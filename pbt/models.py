"""Random nonlinear pointwise laws, problems that use them through the public API, and the independent reference
residual (NumPy, complex-safe so derivatives come from the complex step)."""
import itertools
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close, Violation

IV_SHAPES = [(), (2,), (2, 2), (3,)]


class Law:
    """y = W2 tanh(W1 z + b) + W3 z, evaluated with either numpy (complex safe) or jax.numpy on (..., nz)."""

    def __init__(self, nz, ny, rng, width=5, strength=1.):
        self.W1 = rng.uniform(-1, 1, (nz, width)) / onp.sqrt(max(nz, 1))
        self.b = rng.uniform(-1, 1, width)
        self.W2 = strength * rng.uniform(-1, 1, (width, ny))
        self.W3 = rng.uniform(-1, 1, (nz, ny)) / onp.sqrt(max(nz, 1))

    def __call__(self, xp, z):
        return xp.tanh(z @ self.W1 + self.b) @ self.W2 + z @ self.W3


class MonoLaw:
    """y = A z1 + B^T tanh(B z1 + C r) + s(r) for z = (z1, r): strictly monotone in z1, so the assembled problem has exactly one
    solution whatever the data.  `skip` leading entries of r are ignored.  sym=False adds a skew part (unsymmetric tangent)."""

    def __init__(self, n, nr, rng, skip=0, sym=True, gamma=0.6, lin=False, diag=1., center=False):
        self.center = center        # subtract the value at z1 = 0
        Q = rng.uniform(-1, 1, (n, n)) / onp.sqrt(n)
        self.n, self.skip, self.lin = n, skip, lin
        self.A = diag * onp.eye(n) + 0.5 * Q @ Q.T + (0. if sym else 0.6) * (Q - Q.T)
        m = nr - skip
        self.B = onp.sqrt(gamma) * rng.uniform(-1, 1, (n, 4)) / onp.sqrt(max(n, 1))
        self.C = rng.uniform(-1, 1, (m, 4))
        self.S = rng.uniform(-1, 1, (m, n)) / onp.sqrt(max(m, 1))
        self.c = rng.uniform(-1, 1, n)

    def __call__(self, xp, z):
        z1, r = z[..., :self.n], z[..., self.n + self.skip:]
        return self.value(xp, z1, r) - self.value(xp, 0. * z1, r) if self.center else self.value(xp, z1, r)

    def value(self, xp, z1, r):
        y = z1 @ self.A.T + self.c + r @ self.S
        if self.lin:
            return y
        return y + xp.tanh(z1 @ self.B + r @ self.C) @ self.B.T


def cat(xp, parts, nb):
    """concatenate parts, flattening everything after the nb leading batch dimensions"""
    return xp.concatenate([xp.reshape(p, p.shape[:nb] + (-1,)) for p in parts], axis=-1)


def second_mesh(rm, ele):
    """A mesh of another element type on the same cells (same shape family): geometry of the vertices is shared."""
    r = fem.ref(ele)
    lin = fem.ref({'quad': 'QUAD4', 'tri': 'TRI3', 'hex': 'HEX8', 'tet': 'TET4'}[r.shape])
    verts = rm.cells[:, :r.nv]
    W = lin.vals(r.nodes)
    old = sorted(set(verts.reshape(-1).tolist()))
    renum = {o: i for i, o in enumerate(old)}
    pts = [rm.points[o] for o in old]
    keys, cells = {}, []
    for c in verts:
        row = [renum[int(v)] for v in c]
        for i in range(r.nv, len(r.nodes)):
            k = frozenset(int(c[v]) for v in range(r.nv) if abs(W[i, v]) > 1e-9)
            if k not in keys:
                keys[k] = len(pts)
                pts.append(W[i] @ rm.points[c])
            row.append(keys[k])
        cells.append(row)
    return fem.RefMesh(ele, onp.array(pts), onp.array(cells))


FAMILY = {'quad': ['QUAD4', 'QUAD8'], 'tri': ['TRI3', 'TRI6'], 'hex': ['HEX8', 'HEX20', 'HEX27'], 'tet': ['TET4', 'TET10']}


@st.composite
def weakform_case(draw, sizes=None, max_vars=3, bc=False, eles=fem.ALL_ELES):
    m = draw(fem.mesh_st(sizes=sizes, eles=eles))
    shp = fem.ELE[m['ele']][1]
    nv = draw(st.sampled_from([1, 1, 2, 3][:max_vars + 1])) if max_vars > 1 else 1
    fam = FAMILY[shp] if m['curve'] == 0. else [m['ele']]
    case = {'mesh': m, 'vecs': [draw(st.integers(1, 3)) for _ in range(nv)],
            'eles': [m['ele']] + [draw(st.sampled_from(fam)) for _ in range(nv - 1)],
            'seed': draw(fem.seeds())}
    if len(set(case['eles'])) > 1:
        case['order'] = draw(st.sampled_from([2, 3]))
    elif 'HEX27' in case['eles']:
        case['order'] = draw(st.sampled_from([2, 4]))
    else:
        case['order'] = draw(st.sampled_from([None, 2, 3]))
    case['ivs'] = draw(st.lists(st.integers(0, 3), max_size=2))
    if nv == 1:
        kinds = draw(st.sampled_from([['tensor'], ['mass'], ['univ'], ['tensor', 'mass'], ['tensor', 'univ'],
                                      ['mass', 'univ'], ['tensor', 'mass', 'univ']]))
    else:
        kinds = ['univ']
    case['kinds'] = kinds
    ns = draw(st.sampled_from([0, 1, 1, 2]))
    case['surfs'] = [{'sel': draw(st.sampled_from(['boundary', 'half', 'some', 'all'])),
                      'ivs': draw(st.lists(st.integers(0, 2), max_size=2))} for _ in range(ns)]
    case['skinds'] = draw(st.sampled_from([['map'], ['univ'], ['map', 'univ']])) if nv == 1 else ['univ']
    if bc:
        case['bcs'] = draw(st.lists(st.tuples(st.integers(0, nv - 1), st.sampled_from(['side', 'some', 'one', 'none']),
                                              st.integers(0, 2)), max_size=4))
        case['bcs'] = [[v, s, c % case['vecs'][v]] for v, s, c in case['bcs']]
    return case


class Setup:
    """Everything derived from a case: reference meshes, laws, internal variables, and the problem under test."""

    def __init__(self, case, build=True, rm=None):
        self.case = case
        rng = onp.random.default_rng(case['seed'])
        self.rng = rng
        rm = fem.make_mesh(case['mesh']) if rm is None else rm
        curved = case['mesh']['curve'] != 0.          # other node sets of the same cells exist for straight-sided cells only
        self.rms = [rm] + [rm if curved or (e == rm.ele and case['mesh']['seed'] % 2) else second_mesh(rm, e) for e in case['eles'][1:]]
        self.rm, self.dim = rm, rm.dim
        self.vecs, self.order = case['vecs'], case['order']
        self.nvars = len(self.vecs)
        nu = sum(self.vecs)
        d = self.dim
        nq = len(rm.ref.quad(self.order)[1])
        self.nq = nq
        self.ivs = [rng.uniform(-1, 1, (len(rm.cells), nq) + IV_SHAPES[k]) for k in case['ivs']]
        niv = sum(int(onp.prod(IV_SHAPES[k])) for k in case['ivs'])
        # weights are constants of the compiled kernels: a small pool of weight seeds lets cases share compiled code
        wrng = onp.random.default_rng(case['wseed']) if 'wseed' in case else rng
        mono = case.get('mono')
        if mono:
            sym, lin, cen = mono != 'unsym', bool(case.get('linear')), bool(case.get('center'))
            v0 = self.vecs[0]
            self.tensor = MonoLaw(v0 * d, niv, wrng, sym=sym, lin=lin, center=cen)
            self.mass = MonoLaw(v0, d + niv, wrng, sym=sym, lin=lin, center=cen)
            self.univ = MonoLaw(nu + nu * d, d + niv, wrng, sym=sym, lin=lin, center=cen)
        else:
            self.tensor = Law(self.vecs[0] * d + niv, self.vecs[0] * d, wrng)
            self.mass = Law(self.vecs[0] + d + niv, self.vecs[0], wrng)
            self.univ = Law(nu + nu * d + d + niv, nu + nu * d, wrng)
        # surface sets
        self.sel_nodes, self.s_map, self.s_univ, self.s_niv = [], [], [], []
        P = rm.points
        for s in case['surfs']:
            if s['sel'] == 'all':
                nodes = onp.arange(len(P))
            elif s['sel'] == 'boundary':
                nodes = rm.boundary_nodes
            elif s['sel'] == 'half':
                a = rng.normal(size=d)
                pr = P @ a
                nodes = onp.where(pr <= onp.quantile(pr, 0.6))[0]
            else:
                nodes = rng.choice(len(P), size=max(2, int(0.7 * len(P))), replace=False)
            if not any(all(v in set(nodes.tolist()) for v in k) for k in rm.faces_by_verts):
                nodes = rm.boundary_nodes
            self.sel_nodes.append(nodes)
            niv = sum(int(onp.prod(IV_SHAPES[k])) for k in s['ivs'])
            if mono:
                self.s_map.append(MonoLaw(self.vecs[0], d + niv, wrng, sym=sym, lin=lin, center=cen))
                self.s_univ.append(MonoLaw(nu, nu * d + d + niv, wrng, skip=nu * d, sym=sym, lin=lin, center=cen))
            else:
                self.s_map.append(Law(self.vecs[0] + d + niv, self.vecs[0], wrng))
                self.s_univ.append(Law(nu + nu * d + d + niv, nu, wrng))
        self.iv_rng = onp.random.default_rng(case['seed'] + 1)
        self.state_rng = onp.random.default_rng(case['seed'] + 2)
        # Dirichlet sets
        self.bcs = []      # (var, nodes, comp, coefficients)
        for v, s, c in case.get('bcs', []):
            Pv = self.rms[v].points
            a = rng.normal(size=d)
            pr = Pv @ a
            nodes = {'side': onp.where(pr <= onp.quantile(pr, 0.35))[0], 'one': onp.array([int(rng.integers(len(Pv)))]),
                     'some': rng.choice(len(Pv), size=max(1, len(Pv) // 3), replace=False), 'none': onp.array([], dtype=int)}[s]
            self.bcs.append((v, onp.sort(nodes), c, rng.uniform(-1, 1, d + 1)))
        if build:
            self.problem = self.build()
            self.attach_surface_ivs()

    # ------------------------------------------------------------------ the problem under test
    def dirichlet(self, v):
        import jax.numpy as np
        mine = [b for b in self.bcs if b[0] == v]
        if not mine:
            return None
        # several sets on one dof would be contradictory data: keep the first
        taken, locs, comps, vals = set(), [], [], []
        for _, nodes, c, co in mine:
            keep = [int(n) for n in nodes if (int(n), c) not in taken]
            taken.update((n, c) for n in keep)
            locs.append(sut.in_set_fn(keep))
            comps.append(c)
            vals.append(lambda p, co=co: np.dot(np.asarray(co[:-1]), p) + co[-1])
        return [locs, comps, vals]

    def dirichlet_ref(self):
        """dict global dof -> value"""
        out = {}
        off = self.offsets
        for v, nodes, c, co in self.bcs:
            for n in nodes:
                k = off[v] + int(n) * self.vecs[v] + c
                if k not in out:
                    out[k] = float(self.rms[v].points[n] @ co[:-1] + co[-1])
        return out

    @property
    def offsets(self):
        return onp.concatenate([[0], onp.cumsum([len(r.points) * v for r, v in zip(self.rms, self.vecs)])]).astype(int)

    def build(self, **kw):
        import jax
        import jax.numpy as np
        from jax.flatten_util import ravel_pytree
        from jax_fem.problem import Problem
        S = self
        case = self.case
        d = self.dim
        vecs = self.vecs
        ns = {}
        if 'tensor' in case['kinds']:
            def get_tensor_map(self):
                return lambda g, *iv: S.tensor(np, cat(np, [g.reshape(-1), *iv], 0)).reshape(vecs[0], d)
            ns['get_tensor_map'] = get_tensor_map
        if 'mass' in case['kinds']:
            def get_mass_map(self):
                return lambda u, x, *iv: S.mass(np, cat(np, [u, x, *iv], 0))
            ns['get_mass_map'] = get_mass_map
        if 'univ' in case['kinds']:
            def get_universal_kernel(self):
                def kernel(cell_sol_flat, x, cell_shape_grads, cell_JxW, cell_v_grads_JxW, *iv):
                    sols = self.unflatten_fn_dof(cell_sol_flat)
                    cum = self.num_nodes_cumsum
                    U, G = [], []
                    for i, s in enumerate(sols):
                        U.append(np.einsum('nv,qn->qv', s, self.fes[i].shape_vals))
                        G.append(np.einsum('nv,qnd->qvd', s, cell_shape_grads[:, cum[i]:cum[i + 1], :]))
                    y = S.univ(np, cat(np, U + G + [x] + list(iv), 1))
                    out, k = [], 0
                    for i in range(len(sols)):
                        m = y[:, k:k + vecs[i]]
                        out.append(np.einsum('qv,qn,q->nv', m, self.fes[i].shape_vals, cell_JxW[i]))
                        k += vecs[i]
                    for i in range(len(sols)):
                        f = y[:, k:k + vecs[i] * d].reshape(-1, vecs[i], d)
                        out[i] = out[i] + np.sum(f[:, None] * cell_v_grads_JxW[:, cum[i]:cum[i + 1]], axis=(0, -1))
                        k += vecs[i] * d
                    return ravel_pytree(out)[0]
                return kernel
            ns['get_universal_kernel'] = get_universal_kernel
        if case['surfs'] and 'map' in case['skinds']:
            def get_surface_maps(self):
                return [lambda u, x, *iv, law=law: law(np, cat(np, [u, x, *iv], 0)) for law in S.s_map]
            ns['get_surface_maps'] = get_surface_maps
        if case['surfs'] and 'univ' in case['skinds']:
            def get_universal_kernels_surface(self):
                def mk(law):
                    def kernel(cell_sol_flat, x, face_shape_vals, face_shape_grads, face_nanson_scale, *iv):
                        sols = self.unflatten_fn_dof(cell_sol_flat)
                        cum = self.num_nodes_cumsum
                        U, G = [], []
                        for i, s in enumerate(sols):
                            U.append(np.einsum('nv,qn->qv', s, face_shape_vals[:, cum[i]:cum[i + 1]]))
                            G.append(np.einsum('nv,qnd->qvd', s, face_shape_grads[:, cum[i]:cum[i + 1]]))
                        y = law(np, cat(np, U + G + [x] + list(iv), 1))
                        out, k = [], 0
                        for i in range(len(sols)):
                            out.append(np.einsum('qv,qn,q->nv', y[:, k:k + vecs[i]], face_shape_vals[:, cum[i]:cum[i + 1]],
                                                 face_nanson_scale[i]))
                            k += vecs[i]
                        return ravel_pytree(out)[0]
                    return kernel
                return [mk(law) for law in S.s_univ]
            ns['get_universal_kernels_surface'] = get_universal_kernels_surface

        def set_params(self, params):
            self.internal_vars = params
        ns['set_params'] = set_params

        def custom_init(self, *a):
            if S.ivs:
                self.internal_vars = [np.asarray(a) for a in S.ivs]
        ns['custom_init'] = custom_init
        cls = type('GeneratedProblem', (Problem,), ns)
        loc = [sut.in_set_fn(n) for n in self.sel_nodes] or None
        ms = [fem.jmesh(r) for r in self.rms]
        if self.nvars == 1:
            return cls(ms[0], vec=vecs[0], dim=d, ele_type=case['eles'][0], quadrature_order=self.order,
                       dirichlet_bc_info=self.dirichlet(0), location_fns=loc, **kw)
        return cls(ms, vec=list(vecs), dim=d, ele_type=list(case['eles']), quadrature_order=[self.order] * self.nvars,
                   dirichlet_bc_info=[self.dirichlet(v) for v in range(self.nvars)], location_fns=loc, **kw)

    def attach_surface_ivs(self):
        """Surface internal variables live on the selected faces in the problem's own order."""
        import jax.numpy as np
        p = self.problem
        self.faces, self.surf_ivs = [], []
        size = onp.ptp(self.rm.points, axis=0).max()
        for k, s in enumerate(self.case['surfs']):
            inds = onp.asarray(p.boundary_inds_list[k])
            chosen = set(int(n) for n in self.sel_nodes[k])
            want = sorted((c, f) for key, l in self.rm.faces_by_verts.items() if key <= chosen for c, f in l)
            loc = sut.identify_faces(self.rm, p.fes[0], inds, self.order)
            got = sorted((int(c), f) for (c, _), f in zip(inds, loc))
            require(got == want, "surface set %d selects faces %s, expected %s", k, got, want)
            nfq = len(self.rm.tab_face(0, 0, self.order)[3])
            iv = [self.iv_rng.uniform(-1, 1, (len(inds), nfq) + IV_SHAPES[j]) for j in s['ivs']]
            self.surf_ivs.append(iv)
            self.faces.append([(int(c), f) for (c, _), f in zip(inds, loc)])
        if self.case['surfs']:
            p.internal_vars_surfaces = [[np.asarray(a) for a in iv] for iv in self.surf_ivs]

    # ------------------------------------------------------------------ the reference
    def prepare_ref(self):
        p = self.problem
        size = onp.ptp(self.rm.points, axis=0).max()
        self.tab = [r.tabulate(self.order) for r in self.rms]
        xi = onp.asarray(p.fes[0].get_physical_quad_points())
        x = self.tab[0][0]
        perm = sut.match(xi[0], x[0], "quadrature points of cell 0", 1e-9 * size)
        close(xi, x[:, perm], "physical quadrature points", 1e-9, 0)
        inv = onp.argsort(perm)
        self.vol_inv = inv
        self.ivs_ref = [a[:, inv] for a in self.ivs]          # in the reference's quadrature order
        # faces: reference quadrature order for the surface internal variables
        self.surf_ref, self.surf_inv = [], []
        for k, fl in enumerate(self.faces):
            inds = onp.asarray(p.boundary_inds_list[k])
            xs = onp.asarray(p.fes[0].get_physical_surface_quad_points(inds)) if len(inds) else []
            lst = []
            self.surf_inv.append([])
            for j, (c, f) in enumerate(fl):
                tabs = []
                for r in self.rms:
                    X, N, g, w, _ = r.tab_face(c, self.face_of(r, c, f), self.order)
                    if tabs:
                        q = sut.match(tabs[0][0], X, "face quadrature of another variable", 1e-9 * size)
                        X, N, g, w = X[q], N[q], g[q], w[q]
                    tabs.append((X, N, g, w))
                pm = sut.match(xs[j], tabs[0][0], "surface quadrature points", 1e-9 * size)
                iv = [a[j][onp.argsort(pm)] for a in self.surf_ivs[k]]
                self.surf_inv[-1].append(onp.argsort(pm))
                lst.append((c, tabs, iv))
            self.surf_ref.append(lst)

    def set_ref(self, ivs=None, surf_ivs=None, bc_vals=None):
        """Change the data of the reference problem (library ordering, real or complex)."""
        if ivs is not None:
            self.ivs_ref = [a[:, self.vol_inv] for a in ivs]
        if surf_ivs is not None:
            self.surf_ref = [[(c, tabs, [a[j][self.surf_inv[k][j]] for a in surf_ivs[k]]) for j, (c, tabs, _) in enumerate(lst)]
                             for k, lst in enumerate(self.surf_ref)]
        self.bc_vals = bc_vals

    def face_of(self, r, c, f):
        return f     # all meshes of one setup list a cell's vertices in the same local order

    def ref_residual(self, sols):
        """Reference residual; sols is a list of (nodes, vec) arrays, real or complex."""
        case, d, vecs = self.case, self.dim, self.vecs
        dt = onp.result_type(float, *sols, *self.ivs_ref, *[a for l in self.surf_ref for _, _, iv in l for a in iv])
        res = [onp.zeros(s.shape, dtype=dt) for s in sols]
        U = [onp.einsum('cnv,qn->cqv', s[r.cells], t[1]) for s, r, t in zip(sols, self.rms, self.tab)]
        G = [onp.einsum('cnv,cqnd->cqvd', s[r.cells], t[2]) for s, r, t in zip(sols, self.rms, self.tab)]
        x = self.tab[0][0]

        def scatter(i, M, F):
            _, N, g, w = self.tab[i]
            loc = 0.
            if M is not None:
                loc = loc + onp.einsum('cqv,qn,cq->cnv', M, N, w)
            if F is not None:
                loc = loc + onp.einsum('cqvd,cqnd,cq->cnv', F, g, w)
            onp.add.at(res[i], self.rms[i].cells, loc)

        if 'tensor' in case['kinds']:
            y = self.tensor(onp, cat(onp, [G[0]] + self.ivs_ref, 2))
            scatter(0, None, y.reshape(y.shape[:2] + (vecs[0], d)))
        if 'mass' in case['kinds']:
            scatter(0, self.mass(onp, cat(onp, [U[0], x] + self.ivs_ref, 2)), None)
        if 'univ' in case['kinds']:
            y = self.univ(onp, cat(onp, U + G + [x] + self.ivs_ref, 2))
            k, Ms = 0, []
            for i in range(self.nvars):
                Ms.append(y[..., k:k + vecs[i]])
                k += vecs[i]
            for i in range(self.nvars):
                scatter(i, Ms[i], y[..., k:k + vecs[i] * d].reshape(y.shape[:2] + (vecs[i], d)))
                k += vecs[i] * d
        for k, lst in enumerate(self.surf_ref):
            for c, tabs, iv in lst:
                Us = [N @ s[r.cells[c]] for s, r, (X, N, g, w) in zip(sols, self.rms, tabs)]
                Gs = [onp.einsum('nv,qnd->qvd', s[r.cells[c]], g) for s, r, (X, N, g, w) in zip(sols, self.rms, tabs)]
                if 'map' in case['skinds']:
                    y = self.s_map[k](onp, cat(onp, [Us[0], tabs[0][0]] + iv, 1))
                    onp.add.at(res[0], self.rms[0].cells[c], onp.einsum('qv,qn,q->nv', y, tabs[0][1], tabs[0][3]))
                if 'univ' in case['skinds']:
                    y = self.s_univ[k](onp, cat(onp, Us + Gs + [tabs[0][0]] + iv, 1))
                    kk = 0
                    for i in range(self.nvars):
                        onp.add.at(res[i], self.rms[i].cells[c],
                                   onp.einsum('qv,qn,q->nv', y[:, kk:kk + vecs[i]], tabs[i][1], tabs[i][3]))
                        kk += vecs[i]
        return res

    def random_state(self, scale=1.):
        return [scale * self.state_rng.uniform(-1, 1, (len(r.points), v)) for r, v in zip(self.rms, self.vecs)]

    def flat(self, sols):
        return onp.concatenate([onp.asarray(s).reshape(-1) for s in sols])

    def unflat(self, v):
        o = self.offsets
        return [v[o[i]:o[i + 1]].reshape(-1, self.vecs[i]) for i in range(self.nvars)]

    def ref_jvp(self, sols, D):
        """d residual / d u applied to the columns of D, by complex step on the reference"""
        h = 1e-30
        u = self.flat(sols)
        return onp.stack([self.flat_c(self.ref_residual(self.unflat(u + 1j * h * D[:, k]))).imag / h for k in range(D.shape[1])], 1)

    def flat_c(self, sols):
        return onp.concatenate([s.reshape(-1) for s in sols])


def case_labels(case):
    m = case['mesh']
    nc = {'quad': 1, 'hex': 1, 'tri': 2, 'tet': 6}[fem.ELE[m['ele']][1]] * int(onp.prod(m['n']))
    b = '<20' if nc < 20 else ('=20' if nc == 20 else ('20<n<40' if nc < 40 else '>=40'))
    return [m['ele'], f'vars={len(case["vecs"])}', 'kinds=' + '+'.join(case['kinds']), f'surfs={len(case["surfs"])}',
            'cells' + b, f'ivs={len(case["ivs"])}', 'mixed' if len(set(case['eles'])) > 1 else 'same_ele']


# ---------------------------------------------------------------------------------------------- well-posed problems
def _T(ele, n, vecs, kinds=('univ',), ivs=(), surfs=(), skinds=('map',), order=None, eles=None):
    return dict(ele=ele, n=list(n), vecs=list(vecs), kinds=list(kinds), ivs=list(ivs), surfs=[list(s) for s in surfs],
                skinds=list(skinds), order=order, eles=list(eles or [ele] * len(vecs)))


TEMPLATES = [
    _T('QUAD4', (3, 2), [1], ('tensor', 'mass'), (0,), ([0],)),
    _T('QUAD4', (7, 3), [1], ('tensor',), (), ([],)),
    _T('QUAD4', (3, 2), [2], ('tensor', 'mass'), (2,), ([1],)),
    _T('TRI3', (3, 3), [1], ('tensor', 'mass'), (0, 1), (), order=2),
    _T('TRI6', (2, 2), [2], ('tensor', 'univ'), (), ([0],)),
    _T('HEX8', (2, 2, 1), [1], ('tensor', 'mass'), (), ([0], [])),
    _T('HEX8', (2, 1, 1), [3], ('tensor',), (0,), ([],)),
    _T('TET4', (2, 1, 1), [1], ('tensor', 'mass'), (), ([0],), order=2),
    _T('QUAD4', (3, 2), [1, 2], ('univ',), (0,), ([0],), ('univ',)),
    _T('QUAD8', (2, 2), [2, 1], ('univ',), (), (), ('univ',), 3, ['QUAD8', 'QUAD4']),
    _T('TRI6', (2, 1), [2, 1], ('univ',), (), ([],), ('univ',), 3, ['TRI6', 'TRI3']),
    _T('HEX8', (2, 1, 1), [1, 1, 2], ('univ',), (), ([],), ('univ',)),
    _T('TET10', (1, 1, 1), [1], ('tensor', 'mass'), (), ([],), order=3),
    _T('HEX20', (1, 1, 1), [1], ('tensor', 'mass'), (0,), (), order=4),
]


@st.composite
def solvable_case(draw, templates=None, bc=True, mono=('sym', 'unsym'), linear=(False, False, True), max_bcs=3, min_bcs=0):
    """A problem with exactly one solution: strictly monotone laws (a mass term or Dirichlet data is always present)."""
    tpl = draw(st.sampled_from(templates or TEMPLATES))
    nv = len(tpl['vecs'])
    mixed = len(set(tpl['eles'])) > 1
    m = {'ele': tpl['ele'], 'n': tpl['n'], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()), 'jitter': draw(st.sampled_from([0., 0.2])),
         'curve': 0. if mixed or fem.ELE[tpl['ele']][5] == 1 else draw(st.sampled_from([0., 0.1])), 'affine': False, 'shuffle': draw(st.booleans())}
    case = {'mesh': m, 'vecs': tpl['vecs'], 'eles': tpl['eles'], 'order': tpl['order'], 'ivs': tpl['ivs'], 'kinds': tpl['kinds'],
            'skinds': tpl['skinds'], 'seed': draw(fem.seeds()), 'wseed': draw(st.integers(0, 1)), 'mono': draw(st.sampled_from(list(mono))),
            'linear': draw(st.sampled_from(list(linear)))}
    case['surfs'] = [{'sel': draw(st.sampled_from(['boundary', 'boundary', 'half'])), 'ivs': iv} for iv in tpl['surfs']]
    bcs = draw(st.lists(st.tuples(st.integers(0, nv - 1), st.sampled_from(['side', 'some', 'one']), st.integers(0, 2)),
                        min_size=min_bcs, max_size=max_bcs)) if bc else []
    case['bcs'] = [[v, s, c % tpl['vecs'][v]] for v, s, c in bcs]
    if not any(k in ('mass', 'univ') for k in tpl['kinds']):
        # gradient terms only: every component needs a Dirichlet side for uniqueness
        have = {(v, c) for v, s, c in case['bcs']}
        case['bcs'] += [[v, 'side', c] for v in range(nv) for c in range(tpl['vecs'][v]) if (v, c) not in have]
    return case


def bc_residual(S, sols):
    """reference residual with the rows of constrained dofs replaced by u - value (flat)"""
    r = S.flat(S.ref_residual(sols))
    u = S.flat(sols)
    bc = S.dirichlet_ref() if getattr(S, 'bc_vals', None) is None else S.bc_vals
    if any(onp.iscomplexobj(v) for v in bc.values()):
        r = r.astype(complex)
    for d, v in bc.items():
        r[d] = u[d] - v
    return r


def ref_tangent(S, u):
    """dense derivative of bc_residual at the flat state u"""
    n = int(S.offsets[-1])
    K = S.ref_jvp(S.unflat(u), onp.eye(n))
    rows = onp.array(sorted(S.dirichlet_ref()), dtype=int)
    K[rows] = 0.
    K[rows, rows] = 1.
    return K


def make_P(S, rng, nslaves):
    """A prolongation: slave dofs are combinations of one or two master dofs; constrained dofs stay independent."""
    import scipy.sparse as sps
    n = int(S.offsets[-1])
    free = onp.setdiff1d(onp.arange(n), onp.array(sorted(S.dirichlet_ref()), dtype=int))
    nslaves = min(nslaves, len(free) // 3)
    if nslaves == 0:
        return sps.csr_matrix(onp.eye(n))
    pick = rng.permutation(free)
    slaves, masters = pick[:nslaves], pick[nslaves:]
    keep = onp.setdiff1d(onp.arange(n), slaves)
    col = {int(d): k for k, d in enumerate(keep)}
    P = onp.zeros((n, len(keep)))
    for d in keep:
        P[d, col[int(d)]] = 1.
    for s in slaves:
        ms = rng.choice(masters, size=min(len(masters), int(rng.integers(1, 3))), replace=False)
        w = rng.uniform(0.3, 1., len(ms)) * rng.choice([-1., 1.])
        w = w / onp.abs(w).sum()
        if rng.random() < 0.4:
            ms, w = ms[:1], onp.array([1.])        # periodic-type pairing
        for m, x in zip(ms, w):
            P[s, col[int(m)]] = x
    return sps.csr_matrix(P)


def ref_solve(S, tol=1e-12, it=30, P=None):
    """Independent dense Newton solve of the reference problem (reduced by P if given); returns full dofs."""
    n = int(S.offsets[-1])
    Pd = onp.eye(n) if P is None else P.toarray()
    u = onp.zeros(n)
    for d, v in (S.dirichlet_ref() if getattr(S, 'bc_vals', None) is None else S.bc_vals).items():
        u[d] = v
    u = Pd @ onp.linalg.lstsq(Pd, u, rcond=None)[0]
    resid = lambda u: Pd.T @ bc_residual(S, S.unflat(u))
    r = resid(u)
    for _ in range(it):
        if onp.linalg.norm(r) < tol:
            break
        K = ref_tangent(S, u)
        du = Pd @ onp.linalg.solve(Pd.T @ K @ Pd, -r)
        a, rn = 1., onp.linalg.norm(r)
        while True:
            r2 = resid(u + a * du)
            if onp.linalg.norm(r2) < rn * (1 - 1e-4 * a) or a < 1e-3:
                break
            a /= 2
        if onp.linalg.norm(r2) >= rn:
            break
        u, r = u + a * du, r2
    assert onp.linalg.norm(r) < 1e-8, 'reference Newton did not converge'
    return u

"""C35: gradients through time-stepping and path-dependent histories."""
import os
import shutil
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models, sut
from pbt.app import load, scratch
from pbt.core import require, close, Skip, quiet, REPO

RULE = """Sub 'transient': a uniquely solvable problem (linear or not, symmetric or not, surface terms) stepped two to four times through
one wrapper; the state handed from step to step is the old solution and its gradient at the quadrature and face points plus a history
variable that is never reset; parameters act on the material history, the prescribed values of every step and the start.  The gradient
of a functional of all steps with respect to parameters, initial field and initial history is compared with a NumPy forward
sensitivity of the whole history.  Subs 'plastic' and 'crystal': the J2 and crystal plasticity models over random load histories on
distorted meshes; the gradient with respect to the load scale, the initial state and (crystal) the slip resistance against
central differences of the whole history.  Sub 'program': the shipped single-cell, thin-plate and sensitivity programs run on
renumbered, refined meshes with fewer or more steps; every step is judged by equilibrium, prescribed values and the state handed over,
and the sensitivities by central differences.  Non-trivial: the derivative through the history differs from the derivative of the last step
alone (transient), some point yields or slips (others)."""
BUDGET_S = {'quick': 75, 'thorough': 1800}
CASE_CPU_S = 300
NP = 4


# ------------------------------------------------------------------------------------------------ transient
@st.composite
def transient_st(draw):
    tpl = [t for t in models.TEMPLATES if t['ivs'] or any(t['surfs'])]
    c = draw(models.solvable_case(templates=tpl))
    c['steps'] = draw(st.integers(2, 4))
    c['adjoint'] = draw(st.sampled_from(['default', 'spsolve', 'spsolve', 'petsc']))
    c['memory'] = draw(st.sampled_from([0., .5, 1.]))
    c['last'] = draw(st.booleans())
    c['flow'] = draw(st.sampled_from(['grad', 'grad', 'grad-grad', 'forward-between', 'pullback', 'pullback', 'late-pullback']))
    c['pseed'] = draw(fem.seeds())
    return c


class History:
    """u_k solves R(u; iv_k, surf_k, bc_k) = 0 with iv_k = memory*z_k + mix(u_{k-1}) + theta.M, z_{k+1} = memory*z_k + tanh(mix2(u_k))"""

    def __init__(self, S, case, rng):
        self.S, self.case = S, case
        v, d = S.vecs[0], S.dim
        n = v + v * d
        self.shapes = [a.shape[2:] for a in S.ivs]
        self.A = [rng.uniform(-.5, .5, (n, int(onp.prod(s)))) for s in self.shapes]
        self.B = [rng.uniform(-.5, .5, (n, int(onp.prod(s)))) for s in self.shapes]
        self.mv = [rng.uniform(-1, 1, (NP,) + a.shape) for a in S.ivs]
        self.sshapes = [[a.shape[2:] for a in l] for l in S.surf_ivs]
        self.C = [[rng.uniform(-.5, .5, (v, int(onp.prod(s)))) for s in l] for l in self.sshapes]
        self.ms = [[rng.uniform(-1, 1, (NP,) + a.shape) for a in l] for l in S.surf_ivs]
        self.bco = [(v_, nodes, c, co, rng.uniform(-1, 1, NP)) for v_, nodes, c, co in S.bcs]
        T = case['steps']
        self.n = int(S.offsets[-1])
        self.w, self.q = rng.uniform(-1, 1, (T, self.n)), rng.uniform(0, 1, (T, self.n))
        if case['last']:
            self.w[:-1] = 0.
            self.q[:-1] = 0.

    def feats(self, xp, t, k):
        return xp.stack([t[0], xp.sin(t[1] + k), t[2] * t[3], t[3] * (1. + k)]) * .5

    def iv(self, xp, t, k, z, quad):
        f = self.feats(xp, t, k)
        m = self.case['memory']
        return [xp.asarray(a) * (1. - m) + m * zz + xp.reshape(quad @ xp.asarray(A), quad.shape[:2] + s) + xp.tensordot(f, xp.asarray(mv), 1)
                for a, zz, A, s, mv in zip(self.S.ivs, z, self.A, self.shapes, self.mv)]

    def siv(self, xp, t, k, fq):
        f = self.feats(xp, t, k)
        return [[xp.asarray(a) + xp.reshape(q @ xp.asarray(C), q.shape[:2] + s) + xp.tensordot(f, xp.asarray(m), 1)
                 for a, C, s, m in zip(l, Cl, sl, ml)] for l, Cl, sl, ml, q in zip(self.S.surf_ivs, self.C, self.sshapes, self.ms, fq)]

    def znext(self, xp, z, quad):
        m = self.case['memory']
        return [m * zz + xp.tanh(xp.reshape(quad @ xp.asarray(B), quad.shape[:2] + s)) for zz, B, s in zip(z, self.B, self.shapes)]

    def bscale(self, xp, t, k, c):
        return xp.sum(self.feats(xp, t, k) * xp.asarray(c))

    def J(self, xp, k, u):
        return xp.sum(self.w[k] * xp.sin(u)) + .5 * xp.sum(self.q[k] * (u - .3)**2)

    def Ju(self, k, u):
        return self.w[k] * onp.cos(u) + self.q[k] * (u - .3)

    # reference side: fields at the quadrature points, in the library's order
    def ref_quad(self, u):
        S = self.S
        c = S.rms[0].cells
        x, N, G = S.tab[0][:3]
        uq = onp.einsum('cnv,qn->cqv', u[c], N)
        gq = onp.einsum('cnv,cqnd->cqvd', u[c], G)
        return models.cat(onp, [uq, gq], 2)[:, onp.argsort(S.vol_inv)]

    def ref_face(self, u):
        S = self.S
        out = []
        for k, lst in enumerate(S.surf_ref):
            rows = [(tabs[0][1] @ u[S.rms[0].cells[c]])[onp.argsort(S.surf_inv[k][j])] for j, (c, tabs, _) in enumerate(lst)]
            out.append(onp.array(rows) if rows else onp.zeros((0, 1, u.shape[1])))
        return out

    def ref_bc(self, t, k):
        out, off = {}, self.S.offsets
        for v, nodes, c, co, cc in self.bco:
            s = self.bscale(onp, t, k, cc)
            for n in nodes:
                d = off[v] + int(n) * self.S.vecs[v] + c
                if d not in out:
                    out[d] = self.S.rms[v].points[n] @ co[:-1] + co[-1] + s
        return out

    def reference(self, t, u0, z0, dirs):
        """values of the functional and its derivative along each direction (dt, du0, dz0), and the part coming through the last step alone"""
        S, h = self.S, 1e-30
        T = self.case['steps']
        val, tot = 0., onp.zeros(len(dirs))
        uo = [u0 + 1j * h * d[1] for d in dirs]
        z = [[a + 1j * h * b for a, b in zip(z0, d[2])] for d in dirs]
        tc = [t + 1j * h * d[0] for d in dirs]
        us, sens, local = [], [], onp.zeros(len(dirs))
        for k in range(T):
            def data(tt, uu, zz):
                return self.iv(onp, tt, k, zz, self.ref_quad(uu)), self.siv(onp, tt, k, self.ref_face(uu)), self.ref_bc(tt, k)
            S.set_ref(*data(t, uo[0].real, [a.real for a in z[0]]))
            u = models.ref_solve(S)
            K = models.ref_tangent(S, u)
            R, Rl = onp.zeros((self.n, len(dirs))), onp.zeros((self.n, len(dirs)))
            for i in range(len(dirs)):
                S.set_ref(*data(tc[i], uo[i], z[i]))
                R[:, i] = onp.imag(models.bc_residual(S, S.unflat(u.astype(complex)))) / h
                S.set_ref(*data(tc[i], uo[i].real, [a.real for a in z[i]]))
                Rl[:, i] = onp.imag(models.bc_residual(S, S.unflat(u.astype(complex)))) / h
            du = -onp.linalg.solve(K, R)
            tot += self.Ju(k, u) @ du
            local += self.Ju(k, u) @ (-onp.linalg.solve(K, Rl))
            val += self.J(onp, k, u)
            us.append(u)
            sens.append(onp.abs(self.Ju(k, u)[:, None] * du).sum(0))
            first = [S.unflat(u + 1j * h * du[:, i])[0] for i in range(len(dirs))]
            z = [self.znext(onp, z[i], self.ref_quad(first[i])) for i in range(len(dirs))]
            uo = first
        return val, tot, local, us, onp.array(sens).sum(0)


def run_transient(case):
    import jax
    import jax.numpy as np
    from jax.flatten_util import ravel_pytree
    from jax_fem.solver import ad_wrapper
    S = models.Setup(case)
    S.prepare_ref()
    p = S.problem
    rng = onp.random.default_rng(case['pseed'])
    H = History(S, case, rng)
    bcs = {v: fe.dirichlet_bc_info for v, fe in enumerate(p.fes)}
    nb = {v: [b for b in H.bco if b[0] == v] for v in range(S.nvars)}

    def set_params(params):
        t, k, quad, face, z = params['t'], params['k'], params['quad'], params['face'], params['z']
        p.internal_vars = H.iv(np, t, k, z, quad)
        p.internal_vars_surfaces = H.siv(np, t, k, face)
        for v, fe in enumerate(p.fes):
            if nb[v]:
                locs, comps, vals = bcs[v]
                new = [(lambda x, f=f, s=H.bscale(np, t, k, b[4]): f(x) + s) for f, b in zip(vals, nb[v])]
                fe.update_Dirichlet_boundary_conditions([locs, comps, new])
    p.set_params = set_params
    adj = {'default': {}, 'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {}}}[case['adjoint']]
    fwd = ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}, adj)
    fe = p.fes[0]

    def quad_of(u):
        a, b = fe.convert_from_dof_to_quad(u), fe.sol_to_grad(u)
        return np.concatenate([a, b.reshape(b.shape[:2] + (-1,))], -1)

    def march(par):
        u, z, out, sols = par['u0'], par['z0'], 0., []
        for k in range(case['steps']):
            face = [fe.convert_from_dof_to_face_quad(u, bi) for bi in p.boundary_inds_list]
            sol = fwd({'t': par['t'], 'k': np.asarray(1. * k), 'quad': quad_of(u), 'face': face, 'z': z})
            flat = ravel_pytree(sol)[0]
            out = out + H.J(np, k, flat)
            sols.append(flat)
            u = sol[0]
            z = H.znext(np, z, quad_of(u))
        return out, sols

    def mk():
        return (rng.uniform(-1, 1, NP), rng.uniform(-1, 1, (len(S.rms[0].points), S.vecs[0])), [rng.uniform(-1, 1, a.shape) for a in S.ivs])

    def judge(par, dirs, ref, g, what):
        val, tot, local, us, sc = ref
        require(set(g) == {'t', 'u0', 'z0'}, "gradient layout %s", sorted(g))
        for i, d in enumerate(dirs):
            got = onp.sum(onp.asarray(g['t']) * d[0]) + onp.sum(onp.asarray(g['u0']) * d[1]) + sum(onp.sum(onp.asarray(a) * b) for a, b in zip(g['z0'], d[2]))
            close(got, tot[i], f"{what}: derivative along {names[i]}", rtol, 1e-9, scale=sc[i] + 1e-6 * sc.max())

    rtol = 2e-3 if case['adjoint'] == 'petsc' else 2e-6
    zero = lambda: (onp.zeros(NP), onp.zeros((len(S.rms[0].points), S.vecs[0])), [onp.zeros(a.shape) for a in S.ivs])
    dirs, names = [], []
    for i in range(NP):
        d = zero()
        d[0][i] = 1.
        dirs.append(d)
        names.append(f'parameter {i}')
    r = mk()
    dirs.append((zero()[0], r[1], zero()[2]))
    names.append('the initial field')
    if S.ivs:
        dirs.append((zero()[0], zero()[1], r[2]))
        names.append('the initial history')
    runs = 2 if case['flow'] == 'grad-grad' else 1
    top = 0.
    for run in range(runs):
        t, u0, z0 = mk()
        par = {'t': np.asarray(t), 'u0': np.asarray(u0), 'z0': [np.asarray(a) for a in z0]}
        ref = H.reference(t, u0, z0, dirs)
        what = f"{case['steps']} steps, {case['flow']}, gradient {run}"
        if case['flow'] in ('pullback', 'late-pullback'):
            val, pull, sols = jax.vjp(march, par, has_aux=True)
            if case['flow'] == 'late-pullback':
                other = mk()
                march({'t': np.asarray(other[0]), 'u0': np.asarray(other[1]), 'z0': [np.asarray(a) for a in other[2]]})
            g, = pull(np.asarray(-2.))
            judge(par, dirs, tuple(-2. * x if i in (1, 2) else 2. * x if i == 4 else x for i, x in enumerate(ref)), g, what + ', scaled pullback')
            g, = pull(np.asarray(1.))
        else:
            if case['flow'] == 'forward-between':
                other = mk()
                march({'t': np.asarray(other[0]), 'u0': np.asarray(other[1]), 'z0': [np.asarray(a) for a in other[2]]})
            (val, sols), g = jax.value_and_grad(march, has_aux=True)(par)
        for k, (a, b) in enumerate(zip(sols, ref[3])):
            close(a, b, f"{what}: solution of step {k}", 1e-6, 0, scale=1 + onp.abs(b).max())
        close(val, ref[0], f"{what}: functional", 1e-6, 0, scale=1 + abs(ref[0]))
        judge(par, dirs, ref, g, what)
        top = max(top, float(onp.abs(ref[1] - ref[2]).max() / (ref[4].max() + 1e-12)))
    return {'nontrivial': top > 1e-6, 'labels': models.case_labels(case) + [f"{case['steps']} steps", 'adjoint=' + case['adjoint'], 'flow=' + case['flow'],
            f"memory={case['memory']}"] + (['dirichlet params'] if case['bcs'] else []) + (['surface history'] if any(s['ivs'] for s in case['surfs']) else []),
            'observed': f'history contributes {top:.3g} of the derivative'}


# ------------------------------------------------------------------------------------------------ plastic, crystal
def central(f, x, hs, what, got, rtol, atol):
    """compare with central differences of two sizes; a kink or noise shows as disagreement between them"""
    try:
        d = [(f(x + h) - f(x - h)) / (2 * h) for h in hs]
    except AssertionError as e:
        if 'NaN' in str(e):           # Newton without globalisation diverged at a neighbouring load
            return False
        raise
    sc = max(abs(d[0]), abs(d[1]), atol)
    if not onp.isfinite(d).all() or abs(d[0] - d[1]) > .2 * rtol * sc + .2 * atol:
        return False
    close(got, d[-1], what, rtol, atol, scale=sc)
    return True


def box(case, n):
    return fem.make_mesh({'ele': case['ele'], 'n': n, 'seed': case['seed'], 'grade': False, 'jitter': case['jitter'], 'curve': 0., 'affine': False, 'shuffle': True})


def clamps(X):
    L = X.max(0)
    lo, hi = onp.where(X[:, 2] < 1e-9)[0], onp.where(X[:, 2] > L[2] - 1e-9)[0]
    orig, xc = onp.where(onp.abs(X).max(1) < 1e-9)[0], onp.where(onp.abs(X - onp.array([L[0], 0, 0])).max(1) < 1e-9)[0]
    return L, lo, hi, [(orig, 0), (orig, 1), (xc, 1), (lo, 2)]


@st.composite
def plastic_st(draw):
    return {'ele': draw(st.sampled_from(['HEX8', 'HEX8', 'TET4'])), 'seed': draw(fem.seeds()), 'jitter': draw(st.sampled_from([0., .15])),
            'scales': draw(st.lists(st.sampled_from([.001, .002, .003, .004, .005, .006]), min_size=2, max_size=3)),
            'last': draw(st.booleans()), 'what': draw(st.sampled_from(['u', 'stress', 'alpha'])), 'wrt': draw(st.sampled_from([0, 1, 1]))}


def run_plastic(case):
    import jax
    import jax.numpy as np
    from checks import c21
    from jax_fem.solver import ad_wrapper
    rm = box(case, [2, 1, 1])
    X = rm.points
    L, lo, hi, fixed = clamps(rm.grid)
    places = fixed + [(hi, 2)]
    zero = lambda x: 0. * x[0]
    bc = lambda s: [[sut.in_set_fn(n) for n, _ in places], [c for _, c in places], [zero] * 4 + [lambda x: s * L[2] + 0. * x[0]]]
    base = c21.model().Plasticity

    class P(base):
        def set_params(self, params):
            iv, s = params
            self.internal_vars = list(iv)
            self.fes[0].update_Dirichlet_boundary_conditions(bc(s))
    p = c21.make(rm, cls=P, dirichlet_bc_info=bc(0.))
    fwd = ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-8, 'rel_tol': 1e-12}}, {'spsolve_solver': {}})
    rng = onp.random.default_rng(case['seed'])
    iv0 = [np.asarray(x) for x in p.internal_vars]
    da = rng.uniform(0, 1, iv0[2].shape)
    w = rng.uniform(.5, 1.5, (len(case['scales']),) + X.shape)

    def march(x, count=None):
        a, s = x
        iv = [iv0[0], iv0[1], iv0[2] + a * da]
        out, al = 0., 0.
        for k, sc in enumerate(case['scales']):
            sol = fwd([iv, s * sc])
            sig = p.compute_stress(sol[0], iv)
            iv = list(p.update_int_vars_gp(sol[0], iv))
            if case['last'] and k < len(case['scales']) - 1:
                continue
            out = out + {'u': np.sum(w[k] * sol[0] * 1e3), 'stress': np.mean(sig[..., 2, 2]), 'alpha': 1e3 * np.mean(iv[2])}[case['what']]
        if count is not None:
            count.append(float(np.max(iv[2] - iv0[2] - a * da)))
        return out
    x0 = np.array([.01, 1.])
    seen = []
    try:
        march(x0, seen)
        g = onp.asarray(jax.grad(march)(x0))
    except AssertionError as e:
        if 'NaN' in str(e):
            raise Skip('Newton diverged')
        raise
    ok = 0
    for i, hs in [((0, (4e-4, 1e-4)), (1, (2e-4, 5e-5)))[case['wrt']]]:
        e = onp.eye(2)[i]
        ok += central(lambda h: float(march(x0 + h * e)), 0., hs, f"derivative of {case['what']} with respect to {['initial hardening', 'load scale'][i]}", g[i], 2e-3, 1e-4)
    if not ok:
        raise Skip('differences of two sizes disagree')
    return {'nontrivial': seen[0] > 0, 'labels': [case['ele'], case['what'], f"{len(case['scales'])} steps", f"wrt={case['wrt']}"],
            'observed': f'gradient {g.tolist()}, largest hardening {seen[0]:.3g}'}


@st.composite
def crystal_st(draw):
    return {'ele': draw(st.sampled_from(['HEX8', 'HEX8', 'TET4'])), 'seed': draw(fem.seeds()), 'jitter': 0., 'nori': draw(st.sampled_from([1, 2])),
            'disps': draw(st.lists(st.sampled_from([5e-4, 1e-3, 1.5e-3]), min_size=2, max_size=3)), 'dt': draw(st.sampled_from([.05, .1])),
            'alpha': draw(st.sampled_from([.97, 1., 1.03])), 'what': draw(st.sampled_from(['stress', 'slip', 'u'])), 'wrt': draw(st.sampled_from([0, 1]))}


def run_crystal(case):
    import jax
    import jax.numpy as np
    from checks import c22
    from jax_fem.solver import ad_wrapper
    rm = box(case, {'HEX8': [2, 1, 1], 'TET4': [1, 1, 1]}[case['ele']])
    X = rm.points
    L, lo, hi, fixed = clamps(rm.grid)
    places = fixed + [(hi, 2)]
    zero = lambda x: 0. * x[0]
    bc = lambda s: [[sut.in_set_fn(n) for n, _ in places], [c for _, c in places], [zero] * 4 + [lambda x: s * L[2] + 0. * x[0]]]
    base = c22.model().CrystalPlasticity

    class P(base):
        def set_params(self, params):
            s, iv = params
            self.internal_vars = iv
            self.fes[0].update_Dirichlet_boundary_conditions(bc(s))
    rng = onp.random.default_rng(case['seed'])
    Q = rng.normal(size=(case['nori'], 4))
    Q /= onp.linalg.norm(Q, axis=1)[:, None]
    ori = rng.integers(0, case['nori'], len(rm.cells))
    p = P(fem.jmesh(rm), vec=3, dim=3, ele_type=rm.ele, dirichlet_bc_info=bc(0.), additional_info=(Q, ori))
    p.dt = case['dt']
    fwd = ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-8, 'rel_tol': 1e-12}}, {'spsolve_solver': {}})
    iv0 = [np.asarray(x) for x in p.internal_vars]
    w = rng.uniform(.5, 1.5, X.shape)
    disps = onp.cumsum(case['disps'])

    def march(x, slip=None):
        iv = [iv0[0], x[0] * iv0[1], iv0[2], iv0[3]]
        for d in disps:
            sol = fwd([x[1] * d, iv])
            sig = p.compute_avg_stress(sol[0], iv)
            iv = p.update_int_vars_gp(sol[0], iv)
        if slip is not None:
            slip.append(float(np.max(np.abs(iv[2]))))
        return {'stress': np.mean(sig[:, 2, 2]), 'slip': 1e4 * np.mean(iv[2] ** 2)**.5, 'u': 1e3 * np.sum(w * sol[0])}[case['what']]
    x0 = np.array([case['alpha'], 1.])
    slip = []
    try:
        march(x0, slip)
        g = onp.asarray(jax.grad(march)(x0))
    except AssertionError as e:
        if 'NaN' in str(e):
            raise Skip('Newton diverged')
        raise
    ok = 0
    for i, hs in [(case['wrt'], (2e-3, 1e-3))]:
        e = onp.eye(2)[i]
        ok += central(lambda h: float(march(x0 + h * e)), 0., hs, f"derivative of {case['what']} with respect to {['slip resistance', 'displacement scale'][i]}", g[i], 5e-3, 1e-3)
    if not ok:
        raise Skip('differences of two sizes disagree')
    return {'nontrivial': slip[0] > 1e-6, 'labels': [case['ele'], case['what'], f'{len(disps)} steps', f"orientations={case['nori']}", f"wrt={case['wrt']}"],
            'observed': f'gradient {g.tolist()}, largest slip {slip[0]:.3g}'}


# ------------------------------------------------------------------------------------------------ the shipped programs
@st.composite
def program_st(draw):
    prog = draw(st.sampled_from(['volume', 'stress', 'cell', 'plate']))
    return {'prog': prog, 'seed': draw(fem.seeds()), 'n': draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]])),
            'end': draw(st.sampled_from([.8, 1., 1.1])), 'at': draw(st.sampled_from([1., .95, 1.05]))}


class Proxy:
    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, k):
        return getattr(self._base, k)


def concrete(tree):
    import jax
    return not any(isinstance(x, jax.core.Tracer) for x in jax.tree_util.tree_leaves(tree))


def snapshot(p):
    """what a forward call prescribes, and its state"""
    bm, bv = onp.zeros((len(p.fes[0].points), 3), bool), onp.zeros((len(p.fes[0].points), 3))
    for i, c, v in zip(p.fes[0].node_inds_list, p.fes[0].vec_inds_list, p.fes[0].vals_list):
        bm[onp.asarray(i), onp.asarray(c)] = True
        bv[onp.asarray(i), onp.asarray(c)] = onp.asarray(v)
    return bm, bv


class Run:
    """One program on another mesh, with every solve, saved field and gradient recorded."""
    PATHS = {'volume': ('crystal_plasticity/volume_sensitivity.py', 'problem'), 'stress': ('crystal_plasticity/stress_sensitivity.py', 'problem'),
             'cell': ('finite_plasticity/single_cell.py', 'simulation'), 'plate': ('finite_plasticity/thin_plate.py', 'simulation')}

    def __init__(self, case):
        import inspect
        from types import SimpleNamespace
        import jax
        import jax.numpy as np
        from jax_fem import generate_mesh, solver as sv
        path, entry = self.PATHS[case['prog']]
        mod = load('/applications/' + path, 'c35_' + case['prog'])
        self.mod, self.steps, self.saved, self.grads = mod, [], [], []
        rec = self
        real = {}
        if case['prog'] in ('volume', 'stress'):
            src = REPO + '/applications/crystal_plasticity/input/stress_sensitivity'
            if case['prog'] == 'stress' and os.path.isdir(src):
                shutil.copytree(src, os.path.join(os.path.dirname(mod.__file__), 'input', 'stress_sensitivity'), dirs_exist_ok=True)
        os.makedirs(os.path.dirname(mod.__file__), exist_ok=True)

        def box_mesh(*a, **k):
            b = inspect.signature(generate_mesh.box_mesh_gmsh).bind(*a, **k)
            b.apply_defaults()
            q = b.arguments
            require(q['ele_type'] == 'HEX8', "program meshes its domain with %s", q['ele_type'])
            n = [q['Nx'], q['Ny'], q['Nz']]
            n = [6, 5, 1] if max(n) > 4 else [max(x, y) for x, y in zip(n, case['n'])]
            rm = fem.make_mesh({'ele': 'HEX8', 'n': n, 'seed': case['seed'], 'grade': case['prog'] != 'plate', 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': True})
            rec.L = onp.array([q['domain_x'], q['domain_y'], q['domain_z']])
            rm = fem.RefMesh('HEX8', rm.points * rec.L, rm.cells)
            rec.rm = rm
            return SimpleNamespace(points=rm.points.copy(), cells_dict={'hexahedron': rm.cells.copy()})

        def wrapper(problem, *a, **k):
            f = sv.ad_wrapper(problem, *a, **k)

            def call(params):
                sol = f(params)
                if concrete((sol, params)):
                    rec.steps.append((problem, getattr(problem, 'dt', None), [onp.asarray(x) for x in problem.internal_vars], onp.asarray(sol[0])) + snapshot(problem))
                return sol
            return call

        def solve(problem, *a, **k):
            iv = [onp.asarray(x) for x in problem.internal_vars]
            snap = snapshot(problem)
            sol = sv.solver(problem, *a, **k)
            rec.steps.append((problem, None, iv, onp.asarray(sol[0])) + snap)
            return sol

        def save(fe, sol, path, cell_infos=None, **k):
            if concrete((sol, cell_infos)):
                rec.saved.append((onp.asarray(sol), [(n, onp.asarray(x)) for n, x in (cell_infos or [])]))

        def grad(f, *a, **k):
            g = jax.grad(f, *a, **k)

            def call(*x):
                out = g(*x)
                rec.grads.append((f, g, x, out))
                return out
            return call

        def linspace(a, b, n, *r, **k):
            return np.linspace(a, b * case['end'] * (4. if case['prog'] == 'volume' else 1.) if a == 0. else b, n, *r, **k) if case['prog'] in ('volume', 'stress') else np.linspace(a, b, n, *r, **k)
        for k, v in dict(box_mesh_gmsh=box_mesh, ad_wrapper=wrapper, solver=solve, save_sol=save, jax=Proxy(jax, grad=grad), np=Proxy(np, linspace=linspace)).items():
            if k in mod.__dict__:
                real[k] = mod.__dict__[k]
                mod.__dict__[k] = v
        try:
            mod.__dict__[entry]()
        except AssertionError as e:
            if 'NaN' in str(e):
                raise Skip('Newton diverged')
            raise
        finally:
            self.restore = lambda: mod.__dict__.update(real)
            self.restore()


def judge_step(rm, L, step, law, place, where, k):
    """prescribed values and equilibrium of one recorded solve"""
    p, dt, iv, u, bm, bv = step
    m, v = place(k)
    require(onp.array_equal(bm, m), "%s: prescribed dofs differ from the stated supports", where)
    close(bv[m], v[m], where + ": prescribed values", 1e-9, 1e-12)
    close(u[m], v[m], where + ": supports of the solution", 1e-8, 1e-9)
    out = law(u, iv, dt)
    if out is None:
        raise Skip('reference update did not converge')
    r, sc, new, sig = out
    close(r[~m], 0 * r[~m], where + ": equilibrium of the free nodes", 1e-6, 3e-5, scale=sc)
    return new, sig


def run_program(case):
    from checks import c21, c22
    R = Run(case)
    if not R.steps or not hasattr(R, 'rm'):
        raise Skip('the program does not call its mesh generator or solver by name')
    rm, L, X = R.rm, R.L, R.rm.points
    prog = case['prog']
    on = lambda k, v: onp.abs(X[:, k] - v) < 1e-9
    e = case['end'] * (4. if prog == 'volume' else 1.)       # far enough to slip
    if prog in ('volume', 'stress'):
        T, D, t_end = (2, .001 * e, .1 * e) if prog == 'volume' else (10, .005 * e, .5 * e)
        corner = on(0, 0) & on(1, 0) & on(2, 0)
        S0 = onp.asarray(R.steps[0][0].Schmid_tensors)

        def place(k):
            m, v = onp.zeros(X.shape, bool), onp.zeros(X.shape)
            m[corner, 0] = m[corner, 1] = m[on(2, 0), 2] = m[on(2, L[2]), 2] = True
            v[on(2, L[2]), 2] = D * (k + 1) / T
            return m, v

        def law(u, iv, dt):
            F = c22.grads(rm, u)[0] + onp.eye(3)
            ref = c22.ref_all(F, iv, dt, S0)
            if ref is None:
                return None
            P, new = ref
            r, sc = c22.residual(rm, u, P)
            return r, sc, new, P @ c21.mT(F) / onp.linalg.det(F)[..., None, None]
    else:
        if prog == 'cell':
            scales = .01 * onp.hstack([onp.linspace(0, 1, 11), onp.linspace(1, 0, 11)])
            orig = on(0, 0) & on(1, 0) & on(2, 0)
            xc = on(0, L[0]) & on(1, 0) & on(2, 0)
        else:
            scales = .2 * onp.hstack([onp.linspace(0, 1, 5), onp.linspace(1, 0, 5)])
        T = len(scales)

        def place(k):
            m, v = onp.zeros(X.shape, bool), onp.zeros(X.shape)
            if prog == 'cell':
                m[orig, 0] = m[orig, 1] = m[xc, 1] = m[on(2, 0), 2] = m[on(2, L[2]), 2] = True
                v[on(2, L[2]), 2] = scales[k] * L[2]
            else:
                walls = on(0, 0) | on(0, L[0]) | on(1, 0) | on(1, L[1])
                m[walls] = True
                m[on(2, L[2]), 2] = True
                d = onp.minimum(onp.minimum(X[:, 0], L[0] - X[:, 0]), onp.minimum(X[:, 1], L[1] - X[:, 1])) / (.5 * min(L[0], L[1]))
                v[:, 2] = onp.where(on(2, L[2]), -scales[k] * L[0] * d, 0.)
                v[walls] = 0.
            return m, v

        def law(u, iv, dt):
            r, sc = c21.ref_residual(rm, u, iv)
            F = c21.grads(rm, u)[0] + onp.eye(3)
            be, al, tau = c21.ref_update(F, *iv)[:3]
            return r, sc, [F, be, al], tau / onp.linalg.det(F)[..., None, None]
    steps = R.steps[:T]
    require(len(steps) == T, "%s: %s solves, expected %s load steps", prog, len(steps), T)
    prev, top, sigs = None, 0., []
    for k, step in enumerate(steps):
        where = f"{prog}: load step {k + 1} of {T}"
        iv = step[2]
        if prev is not None:
            for a, b, nm in zip(iv, prev, ('first', 'second', 'third')):
                close(a, b, f"{where}: {nm} history variable handed over from the previous step", 1e-6, 1e-8)
        elif prog in ('volume', 'stress'):
            close(iv[1], onp.full(iv[1].shape, c22.G0), where + ": initial slip resistance", 1e-14, 0)
            close(iv[2], 0 * iv[2], where + ": initial slip", 0, 0)
        else:
            close(iv[2], 0 * iv[2], where + ": initial hardening", 0, 0)
        if prog in ('volume', 'stress'):
            if step[1] is not None:
                close(step[1], t_end / T, where + ": time increment", 1e-12, 0)
        prev, sig = judge_step(rm, L, step, law, place, where, k)
        sigs.append(sig)
        top = max(top, float(onp.abs(prev[2]).max()))
    if R.saved:
        require(len(R.saved) >= T, "%s: %s fields saved in %s steps", prog, len(R.saved), T)
        w = rm.tabulate(None)[3]
        for k, (sol, infos) in enumerate(R.saved[:T]):
            close(sol, steps[k][3], f"{prog}: field saved in step {k + 1}", 0, 0)
            for nm, x in infos:
                if nm == 's_norm':
                    want = onp.sqrt((sigs[k].mean(1)**2).sum((1, 2)))
                    close(x, want, f"{prog}: stress norm saved in step {k + 1}", 1e-6, 1e-4)
    if prog == 'stress':
        f = os.path.join(os.path.dirname(R.mod.__file__), 'output', 'stress_sensitivity', 'numpy', 'jax_fem_out.npy')
        if os.path.exists(f):
            tab = onp.load(f)
            ks = onp.arange(1, T + 1)
            eps = D * ks / T / L[2]
            close(tab[:, 0], t_end * ks / T, "stress: recorded times", 1e-9, 0)
            close(tab[:, 1], .5 * ((1 + eps)**2 - 1), "stress: recorded Green strain", 1e-9, 0)
            w = rm.tabulate(None)[3]
            avg = onp.array([(s[0] * w[0][:, None, None]).sum(0)[2, 2] / w[0].sum() for s in sigs])
            close(tab[:, 5], avg, "stress: recorded stress", 1e-6, 1e-4)
            news = [s[2] for s in steps[1:]] + [prev]
            close(tab[:, 3], [n[1][0, 0, 0] for n in news], "stress: recorded slip resistance", 1e-6, 0)
            close(tab[:, 4], [n[2][0, 0, 0] for n in news], "stress: recorded slip", 1e-6, 1e-9)
            close(tab[:, 2], [onp.linalg.inv(n[0][0, 0])[2, 2] for n in news], "stress: recorded plastic stretch", 1e-7, 0)
    ng = 0
    if prog in ('volume', 'stress') and R.grads:
        f, g, x, out = R.grads[-1]
        with quiet():
            x0 = float(x[0])
            got = float(out)
            if case['at'] != 1.:
                x0 *= case['at']
                got = float(g(x0))
            ng = central(lambda h: float(f(x0 + h)), 0., (2e-3, 1e-3), f"{prog}: sensitivity at {x0}", got, 5e-3, 1e-9)
    return {'nontrivial': top > 1e-7, 'labels': [prog, f'gradient judged={bool(ng)}'], 'observed': f'{prog}: {T} steps, largest history variable {top:.3g}'}


SUBS = {'transient': {'strategy': transient_st, 'run': run_transient, 'examples': {'quick': 64, 'thorough': 2000}, 'weight': 2},
        'plastic': {'strategy': plastic_st, 'run': run_plastic, 'examples': {'quick': 16, 'thorough': 400}, 'weight': 1},
        'crystal': {'strategy': crystal_st, 'run': run_crystal, 'examples': {'quick': 8, 'thorough': 200}, 'weight': 1},
        'program': {'strategy': program_st, 'run': run_program, 'examples': {'quick': 4, 'thorough': 100}, 'weight': 1}}
PINNED = {f'program {p}': {'sub': 'program', 'prog': p, 'seed': 11, 'n': n, 'end': 1., 'at': 1.} for p, n in (('stress', [1, 1, 1]), ('volume', [2, 1, 1]), ('plate', [1, 1, 1]), ('cell', [1, 1, 2]))}

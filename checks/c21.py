"""C21: finite-strain J2 plasticity (applications/finite_plasticity/model.py)."""
import importlib.util
import sys
import numpy as onp
import scipy.linalg as sla
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close, Skip, REPO

RULE = """Sub 'point': histories of up to five increments (stretch, isochoric, volumetric, rotation, reversal, hold, edge of yield) over six
decades of size for a batch of material points; every update is judged by the return-mapping conditions, frame indifference, isotropy,
forward/reverse derivatives with respect to the deformation and the old state.  Sub 'mesh': the same histories on distorted meshes of
all 3D elements through update_int_vars_gp, compute_stress and the assembled residual, against a NumPy return map.  Sub 'solve':
displacement-driven load histories solved step by step; equilibrium is judged with the NumPy residual.  Non-trivial: some point yields
(and, for 'point', some point stays elastic after having yielded or the history has more than one kind of step)."""
BUDGET_S = {'quick': 60, 'thorough': 900}
CASE_CPU_S = 150
K, G, H1, SIG0 = 164.e3, 80.e3, 18., 400.
R23 = onp.sqrt(2. / 3.)
B = 12
KINDS = ['stretch', 'stretch', 'iso', 'vol', 'rot', 'reverse', 'hold', 'edge', 'edge']


@st.composite
def hist_st(draw, nmax=5):
    n = draw(st.integers(1, nmax))
    return [[draw(st.sampled_from(KINDS)), draw(st.sampled_from([-6., -3., -2.5, -2., -2., -1.5, -1., -.5]))] for _ in range(n)]


@st.composite
def point_st(draw):
    return {'steps': draw(hist_st()), 'seed': draw(fem.seeds()), 'start': draw(st.sampled_from(['virgin', 'virgin', 'prestrained']))}


@st.composite
def mesh_case(draw):
    ele = draw(st.sampled_from(['HEX8', 'HEX8', 'TET4', 'TET10', 'HEX20']))
    return {'mesh': {'ele': ele, 'n': draw(st.sampled_from([[1, 1, 1], [2, 1, 1]])), 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                     'jitter': draw(st.sampled_from([0., .2])), 'curve': 0., 'affine': draw(st.booleans()), 'shuffle': draw(st.booleans())},
            'amps': draw(st.lists(st.sampled_from([-4., -2.5, -2., -1.5, -1.]), min_size=1, max_size=3)), 'seed': draw(fem.seeds())}


@st.composite
def solve_st(draw):
    return {'ele': draw(st.sampled_from(['HEX8', 'HEX8', 'TET4'])), 'seed': draw(fem.seeds()), 'jitter': draw(st.sampled_from([0., .15])),
            'mode': draw(st.sampled_from(['uniaxial', 'shear', 'clamped'])),
            'scales': draw(st.lists(st.sampled_from([.002, .004, .008, .012, 0., -.004]), min_size=2, max_size=4))}


def app(path, name):
    if name not in sys.modules:
        spec = importlib.util.spec_from_file_location(name, REPO + path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[name] = mod
    return sys.modules[name]


def model():
    return app('/applications/finite_plasticity/model.py', 'finite_plasticity_model')


_cache = {}


def maps():
    if 'm' not in _cache:
        import jax
        import jax.numpy as np
        rm = fem.make_mesh({'ele': 'TET4', 'n': [1, 1, 1], 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0., 'affine': False, 'shuffle': False})
        p = model().Plasticity(fem.jmesh(rm), vec=3, dim=3, ele_type='TET4')
        T, U, C = p.get_maps()
        vm = lambda f: jax.jit(jax.vmap(f))

        def jv(v, a):
            return jax.jvp(lambda *q: (T(*q), U(*q)[1:]), tuple(a), tuple(v))[1]

        def vj(ct, a):
            return jax.vjp(lambda *q: (T(*q), U(*q)[1:]), *a)[1](ct)
        L = p.get_tensor_map()
        _cache['m'] = dict(T=vm(T), L=vm(L), U=vm(U), C=vm(C), jf=vm(jax.jacfwd(T)), jr=vm(jax.jacrev(T)), jv=jax.jit(jax.vmap(jv)), vj=jax.jit(jax.vmap(vj)))
    return _cache['m']


I3 = onp.eye(3)


def dev(A):
    return A - onp.trace(A, axis1=-2, axis2=-1)[..., None, None] / 3. * I3


def mT(A):
    return onp.swapaxes(A, -1, -2)


def ref_update(F, F0, be0, al0):
    """radial return of Simo & Hughes, box 9.1, with the elastic trace kept: be, alpha, tau, trial yield function, trial be"""
    f = F @ onp.linalg.inv(F0)
    fb = onp.linalg.det(f)[..., None, None]**(-1. / 3.) * f
    bt = fb @ be0 @ mT(fb)
    s = G * dev(bt)
    ns = onp.sqrt((s**2).sum((-2, -1)))
    rad = R23 * (SIG0 + H1 * al0)
    ft = ns - rad
    Ie = onp.trace(bt, axis1=-2, axis2=-1) / 3.
    dg = onp.where(ft > 0, ft / (2 * Ie * G + 2. / 3. * H1), 0.)
    n = s / onp.where(ns > 0, ns, 1.)[..., None, None]
    s1 = s - (2 * Ie * G * dg)[..., None, None] * n
    be = onp.where((ft > 0)[..., None, None], s1 / G + Ie[..., None, None] * I3, bt)
    J = onp.linalg.det(F)
    tau = (.5 * K * (J**2 - 1))[..., None, None] * I3 + s1
    return be, al0 + R23 * dg, tau, ft, bt


def next_F(rng, kind, amp, F, prev, be, al, F0):
    """next deformation of every point, and the generator of the increment"""
    n = len(F)
    A = rng.normal(size=(n, 3, 3))
    A /= onp.sqrt((A**2).sum((1, 2)))[:, None, None]
    a = 10.**amp
    if kind == 'vol':
        A = a * rng.uniform(-1, 1, (n, 1, 1)) * I3
    elif kind == 'iso':
        A = a * dev(A)
    elif kind == 'rot':
        A = rng.uniform(.1, 1.5, (n, 1, 1)) * (A - mT(A))
    elif kind == 'reverse' and prev is not None:
        A = -prev * rng.choice([1., 1., .5, 2.], size=(n, 1, 1))
    elif kind == 'hold':
        A = 0. * A
    elif kind == 'edge':
        # scale the increment so that the trial state is (just below / at / just above) the yield surface
        A = dev(A) + 0.
        lo, hi = onp.zeros(n), onp.full(n, .2)
        for _ in range(60):
            mid = (lo + hi) / 2
            Fm = onp.stack([sla.expm(x) for x in mid[:, None, None] * A]) @ F
            over = ref_update(Fm, F0, be, al)[3] > 0
            hi, lo = onp.where(over, mid, hi), onp.where(over, lo, mid)
        A = ((lo + hi) / 2 * (1 + rng.choice([-1e-3, -1e-6, 0., 1e-6, 1e-3], size=n)))[:, None, None] * A
    else:
        A = a * A
    return onp.stack([sla.expm(x) for x in A]) @ F, A


def judge(F, F0, be0, al0, be, al, P, sig, where):
    """return-mapping conditions of one update of many points"""
    rb, ra, rt, ft, bt = ref_update(F, F0, be0, al0)
    ok = [onp.isfinite(x).all() for x in (be, al, P, sig)]
    require(all(ok), "%s: the update is not finite", where)
    s, st_ = G * dev(be), G * dev(bt)
    ns, nt = onp.sqrt((s**2).sum((-2, -1))), onp.sqrt((st_**2).sum((-2, -1)))
    sc = onp.maximum(SIG0, nt)
    t = 1e-9 * sc
    f = ns - R23 * (SIG0 + H1 * al)
    dal = al - al0

    def worst(x):
        return onp.unravel_index(onp.argmax(x), x.shape)
    k = worst(f - t)
    require((f <= t).all(), "%s: point %s is outside the yield surface after the update: |s| - sqrt(2/3)(sig0 + H alpha) = %.6g", where, k, f[k])
    k = worst(-dal)
    require((dal >= 0).all(), "%s: the hardening variable of point %s decreases by %.3g", where, k, -dal[k])
    k = worst(onp.abs(dal * f))
    require((onp.abs(dal * f) <= t * onp.maximum(dal, 1e-14)).all(), "%s: complementarity violated at point %s: dalpha = %.3g, f = %.6g", where, k, dal[k], f[k])
    el, pl = ft < -t, ft > t
    require((dal[el] == 0).all(), "%s: loading below yield (trial f = %s) changes the hardening variable", where, ft[el][:3])
    require((dal[pl] > 0).all(), "%s: loading above yield (trial f = %s) leaves the hardening variable unchanged", where, ft[pl][:3])
    close(be[el], bt[el], where + ": elastic predictor kept below yield", 1e-11, 0)
    close(mT(be), be, where + ": symmetry of the elastic strain", 1e-11, 0)
    close(onp.trace(be, axis1=-2, axis2=-1), onp.trace(bt, axis1=-2, axis2=-1), where + ": elastic trace", 1e-11, 0)
    # flow: coaxial with the trial stress, length reduced by 2 Gbar dgamma
    Ie = onp.trace(bt, axis1=-2, axis2=-1) / 3
    n = st_ / onp.where(nt > 0, nt, 1.)[..., None, None]
    d = onp.abs(s - (nt - 2 * Ie * G * dal / R23)[..., None, None] * n).max((-2, -1))
    k = worst(d / sc)
    require((d <= 1e-9 * sc).all(), "%s: the deviatoric stress of point %s is not the trial stress reduced along its direction by the slip (gap %.3g)", where, k, d[k])
    J = onp.linalg.det(F)
    tau = P @ mT(F)
    S = onp.maximum(sc, K * onp.abs(J**2 - 1))
    d = onp.abs(onp.trace(tau, axis1=-2, axis2=-1) / 3 - .5 * K * (J**2 - 1))
    require((d <= 1e-9 * S).all(), "%s: mean Kirchhoff stress differs from K/2 (J^2-1) by %.3g", where, d.max())
    d = onp.abs(dev(tau) - s).max((-2, -1))
    require((d <= 1e-9 * S).all(), "%s: deviatoric Kirchhoff stress differs from G dev(be) by %.3g", where, d.max())
    d = onp.abs(sig - tau / J[..., None, None]).max((-2, -1))
    require((d <= 1e-9 * S / J).all(), "%s: Cauchy stress differs from P F^T / J by %.3g", where, d.max())
    return ft, pl, el


def rots(rng, n):
    return onp.stack([sla.expm(x - x.T) for x in rng.normal(size=(n, 3, 3))])


def run_point(case):
    import jax.numpy as np
    m = maps()
    rng = onp.random.default_rng(case['seed'])
    F0 = onp.tile(I3, (B, 1, 1))
    be0, al0 = F0.copy(), onp.zeros(B)
    if case['start'] == 'prestrained':
        F0 = onp.stack([sla.expm(x) for x in .3 * rng.normal(size=(B, 3, 3))])
        C = onp.stack([sla.expm(dev(x + x.T)) for x in 5e-4 * rng.normal(size=(B, 3, 3))])
        be0, al0 = C, rng.uniform(0, .5, B)
    prev, yielded, reel = None, onp.zeros(B, bool), False
    nplastic = 0
    for k, (kind, amp) in enumerate(case['steps']):
        F, prev = next_F(rng, kind, amp, F0, prev, be0, al0, F0)
        g = F - I3
        a = [np.asarray(x) for x in (g, F0, be0, al0)]
        where = f"step {k} ({kind}, 10^{amp})"
        Fn, be, al = [onp.asarray(x) for x in m['U'](*a)]
        P, sig = onp.asarray(m['T'](*a)), onp.asarray(m['C'](*a))
        close(Fn, F, where + ": reported deformation", 1e-14, 0)
        close(onp.asarray(m['L'](*a)), P, where + ": get_tensor_map against the stress map", 1e-14, 0)
        ft, pl, el = judge(F, F0, be0, al0, be, al, P, sig, where)
        reel |= bool((yielded & el).any())
        yielded |= pl
        nplastic += int(pl.sum())
        # superposed rotations of the current and the old configuration, and of the reference
        Q, Q0, R = rots(rng, B), rots(rng, B), rots(rng, B)
        b = [np.asarray(x) for x in (Q @ F @ R - I3, Q0 @ F0 @ R, Q0 @ be0 @ mT(Q0), al0)]
        sP = onp.abs(P).max((1, 2))[:, None, None] + 1e-3 * SIG0
        P2, (_, be2, al2) = onp.asarray(m['T'](*b)), [onp.asarray(x) for x in m['U'](*b)]
        close(P2 / sP, Q @ P @ R / sP, where + ": stress under superposed rotations", 0, 1e-7)
        close(be2, Q @ be @ mT(Q), where + ": elastic strain under superposed rotations", 1e-10, 0)
        close(al2, al, where + ": hardening variable under superposed rotations", 1e-9, 1e-12)
        # derivatives
        jf, jr = onp.asarray(m['jf'](*a)), onp.asarray(m['jr'](*a))
        require(onp.isfinite(jf).all(), "%s: forward tangent not finite at point %s", where, onp.argwhere(~onp.isfinite(jf))[:1])
        require(onp.isfinite(jr).all(), "%s: reverse tangent not finite at point %s", where, onp.argwhere(~onp.isfinite(jr))[:1])
        close(jr, jf, where + ": reverse against forward tangent", 1e-9, 0)
        V = [onp.asarray(x) for x in (rng.normal(size=g.shape), rng.normal(size=g.shape), rng.normal(size=g.shape), rng.normal(size=B))]
        V[2] = V[2] + mT(V[2])
        h = 1e-6
        smooth = onp.abs(ft) > 40 * G * h * 10
        num = []
        for sgn in (1, -1):
            q = [np.asarray(onp.asarray(x) + sgn * h * v) for x, v in zip(a, V)]
            _, b1, a1 = m['U'](*q)
            num.append([onp.asarray(m['T'](*q)), onp.asarray(b1), onp.asarray(a1)])
        fd = [(p - q) / (2 * h) for p, q in zip(*num)]
        jv = m['jv'](tuple(map(np.asarray, V)), tuple(a))
        jv = [onp.asarray(jv[0]), onp.asarray(jv[1][0]), onp.asarray(jv[1][1])]
        for x, y, nm, s in zip(jv, fd, ('stress', 'elastic strain', 'hardening variable'), (K, 1., 1.)):
            require(onp.isfinite(x).all(), "%s: derivative of the %s is not finite", where, nm)
            if smooth.any():
                close(x[smooth] / s, y[smooth] / s, f"{where}: directional derivative of the {nm} against central differences", 2e-5, 2e-5)
        # the tangent, contracted with the same direction, is part of the directional derivative: check it alone too
        Vg = [V[0], 0 * V[1], 0 * V[2], 0 * V[3]]
        jg = onp.asarray(m['jv'](tuple(map(np.asarray, Vg)), tuple(a))[0])
        close(onp.einsum('bijkl,bkl->bij', jf, V[0]), jg, where + ": tangent contracted with a direction", 1e-9, 0)
        ct = (rng.normal(size=g.shape) / K, (rng.normal(size=g.shape), rng.normal(size=B)))
        vj = [onp.asarray(x) for x in m['vj']((np.asarray(ct[0]), tuple(map(np.asarray, ct[1]))), tuple(a))]
        for x, nm in zip(vj, ('deformation', 'old deformation', 'old elastic strain', 'old hardening variable')):
            require(onp.isfinite(x).all(), "%s: reverse derivative with respect to the %s is not finite", where, nm)
        lhs = sum((x * v).reshape(B, -1).sum(1) for x, v in zip(vj, V))
        rhs = (ct[0] * jv[0]).sum((1, 2)) + (ct[1][0] * jv[1]).sum((1, 2)) + ct[1][1] * jv[2]
        close(lhs, rhs, where + ": reverse against forward derivative", 1e-8, 1e-8)
        F0, be0, al0 = Fn, be, al
    return {'nontrivial': bool(yielded.any()) and (reel or len({k for k, _ in case['steps']}) > 1),
            'labels': sorted({k for k, _ in case['steps']}) + [f"start={case['start']}", f'unloaded after yield={reel}'],
            'observed': f"{nplastic} plastic updates of {B * len(case['steps'])}, max alpha {al0.max():.4g}"}


def grads(rm, u):
    x, N, g, JxW = rm.tabulate(None if rm.ele not in ('HEX20',) else 4)
    return onp.einsum('cqnd,cnv->cqvd', g, u[rm.cells]), g, JxW


def order(ele):
    return 4 if ele == 'HEX20' else None


def make(rm, cls=None, **kw):
    return (cls or model().Plasticity)(fem.jmesh(rm), vec=3, dim=3, ele_type=rm.ele, quadrature_order=order(rm.ele), **kw)


def ref_residual(rm, u, iv):
    gu, g, w = grads(rm, u)
    F = gu + I3
    tau = ref_update(F, *iv)[2]
    P = tau @ mT(onp.linalg.inv(F))
    fe = onp.einsum('cqvd,cqnd,cq->cnv', P, g, w)
    r = onp.zeros_like(u)
    onp.add.at(r, rm.cells, fe)
    return r, onp.abs(onp.einsum('cqvd,cqnd,cq->cqnv', onp.abs(P), onp.abs(g), w)).sum((1)).max()


def run_mesh(case):
    import jax.numpy as np
    rm = fem.make_mesh(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    p = make(rm)
    L = onp.ptp(rm.points, axis=0)
    iv = [onp.asarray(x) for x in p.internal_vars]
    sh = grads(rm, onp.zeros_like(rm.points))[0].shape[:2]
    close(iv[0], onp.broadcast_to(I3, sh + (3, 3)), "initial deformation", 0, 0)
    close(iv[1], onp.broadcast_to(I3, sh + (3, 3)), "initial elastic strain", 0, 0)
    close(iv[2], onp.zeros(sh), "initial hardening", 0, 0)
    u = onp.zeros_like(rm.points)
    npl = tot = 0
    for k, a in enumerate(case['amps']):
        for _ in range(30):
            A = rng.normal(size=(3, 3))
            du = (rm.points / L) @ A.T * L * 10.**a + rng.normal(size=u.shape) * L * 10.**(a - 1) * .3
            if onp.linalg.det(grads(rm, u + du)[0] + I3).min() > .3:
                break
            a -= .3
        u = u + du
        sol = np.asarray(u)
        F = grads(rm, u)[0] + I3
        new = [onp.asarray(x) for x in p.update_int_vars_gp(sol, [np.asarray(x) for x in iv])]
        sig = onp.asarray(p.compute_stress(sol, [np.asarray(x) for x in iv]))
        require(len(new) == 3 and new[0].shape == sh + (3, 3) and new[2].shape == sh, "update returns arrays of shapes %s", [x.shape for x in new])
        close(new[0], F, f"step {k}: deformation at the quadrature points", 1e-10, 1e-12)
        P = onp.linalg.det(F)[..., None, None] * sig @ mT(onp.linalg.inv(F))
        ft, pl, el = judge(F, *iv, new[1], new[2], P, sig, f"mesh step {k}")
        rb, ra, rt = ref_update(F, *iv)[:3]
        close(new[1], rb, f"step {k}: elastic strain against the point-wise law", 1e-9, 0)
        close(new[2], ra, f"step {k}: hardening against the point-wise law", 1e-9, 1e-12)
        close(sig, rt / onp.linalg.det(F)[..., None, None], f"step {k}: Cauchy stress against the point-wise law", 1e-8, 1e-6)
        p.internal_vars = [np.asarray(x) for x in iv]
        r, sc = ref_residual(rm, u, iv)
        close(onp.asarray(p.compute_residual([sol])[0]), r, f"step {k}: residual with the old state", 1e-9, 1e-9, scale=sc)
        iv = new
        npl += int(pl.sum())
        tot += pl.size
    return {'nontrivial': npl > 0, 'labels': [rm.ele, f'{len(case["amps"])} steps'], 'observed': f'{npl} plastic updates of {tot}'}


def run_solve(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    rm = fem.make_mesh({'ele': case['ele'], 'n': [2, 1, 1], 'seed': case['seed'], 'grade': False, 'jitter': case['jitter'], 'curve': 0., 'affine': False, 'shuffle': True})
    X = rm.points
    Y, L = rm.grid, onp.ones(3)             # node sets by the undistorted position: distortion moves boundary nodes as well
    lo, hi = onp.where(Y[:, 2] < 1e-9)[0], onp.where(Y[:, 2] > L[2] - 1e-9)[0]
    orig, xc = onp.where(onp.abs(Y).max(1) < 1e-9)[0], onp.where(onp.abs(Y - onp.array([L[0], 0, 0])).max(1) < 1e-9)[0]
    if case['mode'] == 'uniaxial':
        fixed = [(orig, 0), (orig, 1), (xc, 1), (lo, 2)]
        moved = (hi, 2)
    elif case['mode'] == 'shear':
        fixed = [(lo, 0), (lo, 1), (lo, 2), (hi, 1), (hi, 2)]
        moved = (hi, 0)
    else:
        fixed = [(lo, 0), (lo, 1), (lo, 2), (hi, 0), (hi, 1)]
        moved = (hi, 2)

    def bc(s):
        allc = fixed + [moved]
        zero = [lambda x: 0. * x[0]] * len(fixed)
        return [[sut.in_set_fn(n) for n, _ in allc], [c for _, c in allc], zero + [lambda x: s * L[2] + 0. * x[0]]]
    p = make(rm, dirichlet_bc_info=bc(0.))
    iv = p.internal_vars
    sol = [np.zeros(X.shape)]
    npl, prev = 0, 0.
    bm = onp.zeros(X.shape, bool)
    for n, c in fixed + [moved]:
        bm[n, c] = True
    for k, s in enumerate(case['scales']):
        p.fes[0].update_Dirichlet_boundary_conditions(bc(s))
        p.internal_vars = list(iv)
        # start from the homogeneous motion: Newton without globalisation does not converge from any guess at this low hardening
        u = onp.asarray(sol[0]).copy()
        u[:, moved[1]] += (s - prev) * Y[:, 2]
        prev = s
        try:
            sol = solver(p, {'newton': {'linear': {'spsolve_solver': {}}}, 'initial_guess': [np.asarray(u)]})
        except AssertionError as e:
            if 'NaN' in str(e):
                raise Skip('Newton diverged')
            raise
        u = onp.asarray(sol[0])
        want = onp.zeros(X.shape)
        want[moved[0], moved[1]] = s * L[2]
        close(u[bm], want[bm], f"load step {k}: prescribed displacement", 1e-9, 1e-12)
        old = [onp.asarray(x) for x in iv]
        r, sc = ref_residual(rm, u, old)
        close(r[~bm], 0 * r[~bm], f"load step {k} (scale {s}): equilibrium of the free nodes", 1e-6, 1e-5, scale=sc)
        sig = onp.asarray(p.compute_stress(sol[0], iv))
        iv = p.update_int_vars_gp(sol[0], iv)
        new = [onp.asarray(x) for x in iv]
        F = grads(rm, u)[0] + I3
        P = onp.linalg.det(F)[..., None, None] * sig @ mT(onp.linalg.inv(F))
        ft, pl, el = judge(F, *old, new[1], new[2], P, sig, f"load step {k}")
        npl += int(pl.sum())
    return {'nontrivial': npl > 0, 'labels': [case['ele'], case['mode'], f'{len(case["scales"])} steps'], 'observed': f'{npl} plastic updates, max alpha {new[2].max():.4g}'}


SUBS = {'point': {'strategy': point_st, 'run': run_point, 'examples': {'quick': 240, 'thorough': 6000}, 'weight': 2},
        'mesh': {'strategy': mesh_case, 'run': run_mesh, 'examples': {'quick': 64, 'thorough': 1500}, 'weight': 1},
        'solve': {'strategy': solve_st, 'run': run_solve, 'examples': {'quick': 32, 'thorough': 600}, 'weight': 1.2}}

"""C22: crystal plasticity (applications/crystal_plasticity/models.py)."""
import itertools
import numpy as onp
import scipy.linalg as sla
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close, Skip
from checks.c21 import app, mT, rots

RULE = """Sub 'point': histories of up to four deformation increments (10^-6 to 10^-2, volumetric, rotation, reversal, hold) at time steps
from 1e-3 to 5 for a batch of differently oriented crystals; every update is judged by the implicit elastic law, the flow rule, the
hardening law, invariance under superposed rotations and cubic symmetry, and its derivatives with respect to deformation and state by
central differences.  Sub 'mesh': distorted meshes with random cell orientations and changing time steps; state update, average stress
and residual against the point law and a NumPy assembly.  Sub 'solve': displacement-driven steps of varying size; equilibrium with the
NumPy residual.  Sub 'rot': quaternion and tensor rotations.  Non-trivial: some slip increment exceeds 1e-8 (rot: random rotation)."""
BUDGET_S = {'quick': 70, 'thorough': 1200}
CASE_CPU_S = 200
B = 6
KINDS = ['stretch', 'stretch', 'iso', 'vol', 'rot', 'reverse', 'hold']
DTS = [1e-3, .05, .05, 5.]
AO, XM, H, TSAT, GA, G0 = 1e-3, .1, 541.5, 109.8, 2.5, 60.8
I3 = onp.eye(3)
NORMALS = [(1, 1, -1), (1, -1, -1), (1, -1, 1), (1, 1, 1)]


def fcc():
    """the twelve {111}<110> systems, in the file's grouping by plane (order and sign are free: the model is compared as a set)"""
    out = []
    for n in NORMALS:
        for d in itertools.product((-1, 0, 1), repeat=3):
            if sorted(map(abs, d)) == [0, 1, 1] and onp.dot(n, d) == 0 and next(x for x in d if x) > 0:
                out.append(onp.outer(d, n) / onp.sqrt(6.))
    return onp.array(out)


C4 = onp.zeros((3, 3, 3, 3))
for _i in range(3):
    for _j in range(3):
        C4[_i, _i, _j, _j] = 1.684e5 if _i == _j else 1.214e5
        if _i != _j:
            C4[_i, _j, _i, _j] = C4[_i, _j, _j, _i] = .754e5


@st.composite
def steps_st(draw, nmax=4):
    return [[draw(st.sampled_from(KINDS)), draw(st.sampled_from([-6., -4., -3.5, -3., -3., -2.7, -2.3, -2.])), draw(st.sampled_from(DTS))]
            for _ in range(draw(st.integers(1, nmax)))]


@st.composite
def point_st(draw):
    return {'steps': draw(steps_st()), 'seed': draw(fem.seeds()), 'start': draw(st.sampled_from(['virgin', 'worked']))}


@st.composite
def mesh_st(draw):
    ele = draw(st.sampled_from(['HEX8', 'HEX8', 'TET4', 'TET10']))
    return {'ele': ele, 'seed': draw(fem.seeds()), 'jitter': draw(st.sampled_from([0., .2])), 'shuffle': draw(st.booleans()), 'nori': draw(st.sampled_from([1, 2, 3])),
            'steps': [[draw(st.sampled_from([-6., -3.5, -3., -2.5])), draw(st.sampled_from(DTS))] for _ in range(draw(st.integers(1, 3)))]}


@st.composite
def solve_st(draw):
    return {'ele': draw(st.sampled_from(['HEX8', 'TET4'])), 'seed': draw(fem.seeds()), 'nori': draw(st.sampled_from([1, 2])), 'via': draw(st.sampled_from(['set_params', 'internal_vars'])),
            'steps': [[draw(st.sampled_from([5e-4, 1e-3, -5e-4, 2e-3])), draw(st.sampled_from([.02, .05, .1, 1.]))] for _ in range(draw(st.integers(2, 3)))]}


@st.composite
def rot_st(draw):
    return {'seed': draw(fem.seeds()), 'kind': draw(st.sampled_from(['random', 'random', 'axis', 'half', 'identity']))}


def model():
    return app('/applications/crystal_plasticity/models.py', 'crystal_plasticity_models')


def make(rm, quat, ori, **kw):
    return model().CrystalPlasticity(fem.jmesh(rm), vec=3, dim=3, ele_type=rm.ele, additional_info=(quat, ori), **kw)


def cells(shape, seed=0, n=(1, 1, 1), jitter=0., shuffle=False):
    return fem.make_mesh({'ele': shape, 'n': list(n), 'seed': seed, 'grade': False, 'jitter': jitter, 'curve': 0., 'affine': False, 'shuffle': shuffle})


_cache = {}


def maps(dt):
    """jitted maps for one time step: the maps are closures over the problem's dt"""
    if dt not in _cache:
        import jax
        p = make(cells('TET4'), onp.array([[1., 0, 0, 0]]), onp.zeros(len(cells('TET4').cells), int))
        p.dt = dt
        T, U = p.get_maps()
        vm = lambda f: jax.jit(jax.vmap(f))
        f = lambda *q: (T(*q), U(*q)[:3])

        def jv(v, a):
            return jax.jvp(f, tuple(a), tuple(v))[1]

        def vj(ct, a):
            return jax.vjp(f, *a)[1](ct)
        _cache[dt] = dict(f=vm(lambda *q: (T(*q), U(*q))), jv=jax.jit(jax.vmap(jv)), vj=jax.jit(jax.vmap(vj)),
                          schmid=onp.asarray(p.Schmid_tensors))
    return _cache[dt]


def schmid(S0, R):
    return onp.einsum('...ai,sij,...bj->...sab', R, S0, R)


def rotC(R):
    return onp.einsum('ai,bj,ck,dl,ijkl->abcd', R, R, R, R, C4, optimize=True)


def ref_step(F, Fpi, g, R, dt, S0, maxit=60):
    """implicit update at one point; None if Newton does not converge"""
    Sch, CR = schmid(S0, R), rotC(R)
    A = F @ Fpi

    def parts(S):
        tau = onp.einsum('ij,sij->s', S, Sch)
        q = onp.abs(tau / g)
        return tau, AO * dt * q**(1 / XM) * onp.sign(tau), AO * dt / XM * q**(1 / XM - 1) / g

    def res(S):
        Fe = A @ (I3 - onp.einsum('s,sij->ij', parts(S)[1], Sch))
        return S - onp.einsum('ijkl,kl->ij', CR, .5 * (Fe.T @ Fe - I3))
    S = onp.zeros((3, 3))
    r = res(S)
    for it in range(maxit):
        if onp.linalg.norm(r) <= 1e-9 * max(1., onp.abs(S).max()):
            dg = parts(S)[1]
            w = H * onp.abs(dg) * onp.abs(1 - g / TSAT)**GA * onp.sign(1 - g / TSAT)
            Fn = Fpi @ (I3 - onp.einsum('s,sij->ij', dg, Sch))
            Fe = F @ Fn
            P = onp.linalg.det(F) / onp.linalg.det(Fe) * Fe @ S @ Fe.T @ onp.linalg.inv(F).T
            return P, Fn, g + w.sum(), dg, it
        tau, dg, ddg = parts(S)
        Fe = A @ (I3 - onp.einsum('s,sij->ij', dg, Sch))
        dFe = -onp.einsum('ij,sjk,s,smn->ikmn', A, Sch, ddg, Sch)
        dE = onp.einsum('kimn,kj->ijmn', dFe, Fe)
        dE = .5 * (dE + dE.transpose(1, 0, 2, 3))
        J = onp.eye(9).reshape(3, 3, 3, 3) - onp.einsum('ijkl,klmn->ijmn', CR, dE)
        try:
            inc = onp.linalg.solve(J.reshape(9, 9), -r.ravel()).reshape(3, 3)
        except onp.linalg.LinAlgError:
            return None
        t, n0 = 1., onp.linalg.norm(r)
        for _ in range(5):
            r = res(S + t * inc)
            if onp.linalg.norm(r) < n0:
                break
            t *= .5
        else:
            t *= 2
        S = S + t * inc
        if not onp.isfinite(r).all():
            return None
    return None


def judge(F, Fpi, g, sl, R, dt, new, P, S0, where):
    """laws of one update at many points (leading axis)"""
    Fn, gn, sn, Rn = new
    for x, nm in zip((Fn, gn, sn, P), ('plastic deformation', 'slip resistance', 'slip', 'stress')):
        require(onp.isfinite(x).all(), "%s: the %s is not finite", where, nm)
    close(Rn, R, where + ": orientation kept", 0, 0)
    dg = sn - sl
    Sch = schmid(S0, R)
    close(Fn, Fpi @ (I3 - onp.einsum('...s,...sij->...ij', dg, Sch)), where + ": plastic deformation against the slip increments", 1e-11, 1e-13)
    Fe = F @ Fn
    J, Je = onp.linalg.det(F), onp.linalg.det(Fe)
    Ei = onp.linalg.inv(Fe)
    S = (Je / J)[..., None, None] * Ei @ P @ mT(F) @ mT(Ei)
    CR = onp.stack([rotC(r) for r in R.reshape(-1, 3, 3)]).reshape(R.shape[:-2] + (3,) * 4)
    want = onp.einsum('...ijkl,...kl->...ij', CR, .5 * (mT(Fe) @ Fe - I3))
    sc = onp.abs(want).max((-2, -1))
    d = onp.abs(S - want).max((-2, -1))
    require((d <= 1e-6 + 1e-9 * sc).all(), "%s: second Piola-Kirchhoff stress differs from C:E at the end of the step by %.3g (stress %.4g)", where, d.max(), sc.max())
    tau = onp.einsum('...ij,...sij->...s', S, Sch)
    rate = AO * dt * onp.abs(tau / g)**(1 / XM) * onp.sign(tau)
    tol = 1e-6 * onp.abs(rate) + 1e-12 + AO * dt * 10 * onp.abs(tau / g)**9 * 1e-6 / g
    d = onp.abs(dg - rate)
    k = onp.unravel_index(onp.argmax(d / tol), d.shape)
    require((d <= tol).all(), "%s: slip increment %.6g at %s, the power law of the resolved shear stress %.6g gives %.6g", where, dg[k], k, tau[k], rate[k])
    w = H * onp.abs(dg) * onp.abs(1 - g / TSAT)**GA * onp.sign(1 - g / TSAT)
    close(gn, g + w.sum(-1, keepdims=True), where + ": slip resistance against the hardening law", 1e-9, 0)
    sq = onp.abs(dg).sum(-1)
    v = onp.abs(onp.linalg.det(Fn) / onp.linalg.det(Fpi) - 1)
    require((v <= sq**2 + sq**3 + 1e-12).all(), "%s: plastic flow changes the volume by %.3g with total slip %.3g", where, v.max(), sq.max())
    return dg


_cube = None


def cube():
    global _cube
    if _cube is None:
        out = []
        for p in itertools.permutations(range(3)):
            for s in itertools.product((1, -1), repeat=3):
                M = onp.zeros((3, 3))
                M[range(3), p] = s
                if onp.linalg.det(M) > 0:
                    out.append(M)
        _cube = onp.array(out)
    return _cube


def increment(rng, kind, amp, prev):
    A = rng.normal(size=(B, 3, 3))
    A /= onp.sqrt((A**2).sum((1, 2)))[:, None, None]
    if kind == 'vol':
        return 10.**amp * rng.uniform(-1, 1, (B, 1, 1)) * I3
    if kind == 'iso':
        A = A - onp.trace(A, axis1=1, axis2=2)[:, None, None] / 3 * I3
    if kind == 'rot':
        return rng.uniform(.1, 1., (B, 1, 1)) * (A - mT(A))
    if kind == 'reverse' and prev is not None:
        return -prev
    if kind == 'hold':
        return 0. * A
    return 10.**amp * A


def run_point(case):
    import jax.numpy as np
    rng = onp.random.default_rng(case['seed'])
    R = rots(rng, B)
    if case['seed'] % 4 == 0:
        R = onp.tile(I3, (B, 1, 1))
    F, Fpi = onp.tile(I3, (B, 1, 1)), onp.tile(I3, (B, 1, 1))
    S0 = fcc()
    g, sl = onp.full((B, 12), G0), onp.zeros((B, 12))
    if case['start'] == 'worked':
        L = .05 * rng.normal(size=(B, 3, 3))
        L -= onp.trace(L, axis1=1, axis2=2)[:, None, None] / 3 * I3
        Fpi = onp.stack([sla.expm(x) for x in L])
        F = rots(rng, B) @ onp.linalg.inv(Fpi)
        g, sl = rng.uniform(55., 115., (B, 12)), rng.normal(size=(B, 12)) * .1
    prev, top = None, 0.
    m = maps(case['steps'][0][2])
    S0 = m['schmid']
    require(S0.shape == (12, 3, 3), "Schmid tensors of shape %s", S0.shape)
    ex = fcc()
    dist = onp.minimum(onp.abs(S0[:, None] - ex[None]).max((2, 3)), onp.abs(S0[:, None] + ex[None]).max((2, 3)))
    require(sorted(dist.argmin(1)) == list(range(12)) and dist.min(1).max() < 1e-12, "the slip systems are not the twelve fcc systems {111}<110> (gap %.3g)", dist.min(1).max())
    for k, (kind, amp, dt) in enumerate(case['steps']):
        m = maps(dt)
        A = increment(rng, kind, amp, prev)
        for b in range(B):
            for _ in range(12):
                Fb = sla.expm(A[b]) @ F[b]
                out = ref_step(Fb, Fpi[b], g[b], R[b], dt, S0)
                if out is not None and out[4] < 40 and onp.abs(out[3]).max() < .05:
                    break
                A[b] *= .5
            else:
                raise Skip('no step small enough')
        prev = A
        F = onp.stack([sla.expm(x) for x in A]) @ F
        where = f"step {k} ({kind}, 10^{amp}, dt={dt})"
        a = [np.asarray(x) for x in (F - I3, Fpi, g, sl, R)]
        P, new = m['f'](*a)
        P, new = onp.asarray(P), [onp.asarray(x) for x in new]
        dg = judge(F, Fpi, g, sl, R, dt, new, P, S0, where)
        if case['start'] == 'virgin' and not A.any() and k == 0:
            require(not P.any() and not dg.any() and (new[1] == g).all(), "%s: zero deformation of the virgin crystal gives stress up to %.3g", where, onp.abs(P).max())
        sP = onp.abs(P).max((1, 2))[:, None, None] + 1.
        for nm, (Q, b) in {'rotation of crystal and deformation': (None, None), 'superposed rotation': (None, None), 'cubic symmetry': (None, None)}.items():
            Q = rots(rng, B)
            if nm.startswith('rotation'):
                q = (Q @ F @ mT(Q) - I3, Q @ Fpi @ mT(Q), g, sl, Q @ R)
                back = lambda X: Q @ X @ mT(Q)
                Pw, Fw = back(P), back(new[0])
            elif nm.startswith('super'):
                q = (Q @ F - I3, Fpi, g, sl, R)
                Pw, Fw = Q @ P, new[0]
            else:
                c = cube()[rng.integers(0, 24, B)]
                gg = onp.tile(g.mean(1, keepdims=True), (1, 12))
                P0, n0 = m['f'](*[np.asarray(x) for x in (F - I3, Fpi, gg, sl, R)])
                q = (F - I3, Fpi, gg, sl, R @ c)
                Pw, Fw = onp.asarray(P0), onp.asarray(n0[0])
            P2, n2 = m['f'](*[np.asarray(x) for x in q])
            close(onp.asarray(P2) / sP, Pw / sP, f"{where}: stress under {nm}", 0, 1e-6)
            close(onp.asarray(n2[0]), Fw, f"{where}: plastic deformation under {nm}", 1e-7, 1e-9)
            if nm != 'cubic symmetry':
                close(onp.asarray(n2[1]), new[1], f"{where}: slip resistance under {nm}", 1e-7, 0)
                close(onp.asarray(n2[2]), new[2], f"{where}: slip under {nm}", 1e-6, 1e-8)
            else:
                close(onp.sort(onp.asarray(n2[1]), 1), onp.sort(onp.asarray(n0[1]), 1), f"{where}: slip resistances under {nm}", 1e-7, 0)
        # derivatives, one argument at a time
        V0 = [rng.normal(size=x.shape) for x in (F, Fpi, g, sl, R)]
        total = [0., 0.]
        ct = (rng.normal(size=P.shape), tuple(rng.normal(size=x.shape) for x in new[:3]))
        vj = [onp.asarray(x) for x in m['vj']((np.asarray(ct[0]), tuple(map(np.asarray, ct[1]))), tuple(a))]
        for i, (nm, h, sc) in enumerate((('deformation', 1e-7, 1e5), ('old plastic deformation', 1e-7, 1e5), ('old slip resistance', 1e-3, 1.), ('old slip', 1e-3, 1.), ('orientation', 1e-6, None))):
            V = [V0[j] if j == i else 0 * V0[j] for j in range(5)]
            jv = m['jv'](tuple(map(np.asarray, V)), tuple(a))
            jP, jn = onp.asarray(jv[0]), [onp.asarray(x) for x in jv[1]]
            require(onp.isfinite(jP).all() and all(onp.isfinite(x).all() for x in jn), "%s: derivative with respect to the %s is not finite", where, nm)
            num = []
            for s in (2, 1, -1, -2):
                o = m['f'](*[np.asarray(x + s * h * v) for x, v in zip((F - I3, Fpi, g, sl, R), V)])
                num.append([onp.asarray(o[0])] + [onp.asarray(x) for x in o[1][:3]])
            fd = [(8 * (p1 - m1) - (p2 - m2)) / (12 * h) for p2, p1, m1, m2 in zip(*num)]
            sc = sc or max(1., onp.abs(P).max() * 10)
            close(jP / sc, fd[0] / sc, f"{where}: derivative of the stress with respect to the {nm}", 2e-4, 2e-4)
            for x, y, on, o in zip(jn, fd[1:], ('plastic deformation', 'slip resistance', 'slip'), (1., 600., 1.)):
                close(x / o, y / o, f"{where}: derivative of the {on} with respect to the {nm}", 5e-4, 5e-4 * max(1e-4, min(1., sc / 1e5)) + 1e-7)
            lhs = (vj[i] * V0[i]).reshape(B, -1).sum(1)
            rhs = (ct[0] * jP).sum((1, 2)) + sum((c * x).reshape(B, -1).sum(1) for c, x in zip(ct[1], jn))
            close(lhs, rhs, f"{where}: reverse against forward derivative with respect to the {nm}", 1e-8, 1e-8 * sc)
        Fpi, g, sl = new[0], new[1], new[2]
        top = max(top, float(onp.abs(dg).max()))
    return {'nontrivial': top > 1e-8, 'labels': sorted({s[0] for s in case['steps']}) + [f"start={case['start']}", f'dts={len({s[2] for s in case["steps"]})}'],
            'observed': f'largest slip increment {top:.3g}, resistance {g.min():.4g}..{g.max():.4g}'}


def grads(rm, u):
    x, N, gr, w = rm.tabulate(None)
    return onp.einsum('cqnd,cnv->cqvd', gr, u[rm.cells]), gr, w


def world(case, n, **kw):
    rng = onp.random.default_rng(case['seed'])
    rm = cells(case['ele'], case['seed'], n, case.get('jitter', 0.), case.get('shuffle', True))
    Q = rng.normal(size=(case['nori'], 4))
    Q /= onp.linalg.norm(Q, axis=1)[:, None]
    ori = rng.integers(0, case['nori'], len(rm.cells))
    p = make(rm, Q, ori, **kw)
    R = onp.asarray([quat_mat(q) for q in Q])[ori]
    return rng, rm, p, R


def quat_mat(q):
    from scipy.spatial.transform import Rotation
    return Rotation.from_quat(onp.array([q[1], q[2], q[3], q[0]])).as_matrix()


def initial(p, rm, R):
    iv = [onp.asarray(x) for x in p.internal_vars]
    sh = grads(rm, onp.zeros_like(rm.points))[2].shape
    close(iv[0], onp.broadcast_to(I3, sh + (3, 3)), "initial plastic deformation", 0, 0)
    close(iv[1], onp.full(sh + (12,), G0), "initial slip resistance", 1e-15, 0)
    close(iv[2], onp.zeros(sh + (12,)), "initial slip", 0, 0)
    close(iv[3], onp.broadcast_to(R[:, None], sh + (3, 3)), "orientation of the quadrature points", 1e-12, 0)
    return iv


def ref_all(F, iv, dt, S0):
    sh = F.shape[:2]
    out = [ref_step(*x, dt, S0) for x in zip(F.reshape(-1, 3, 3), iv[0].reshape(-1, 3, 3), iv[1].reshape(-1, 12), iv[3].reshape(-1, 3, 3))]
    if any(o is None or o[4] > 40 or onp.abs(o[3]).max() > .05 for o in out):
        return None
    P, Fn, gn, dg = [onp.array([o[i] for o in out]).reshape(sh + onp.shape(out[0][i])) for i in range(4)]
    return P, [Fn, gn, iv[2] + dg]


def check_update(p, rm, sol, iv, dt, F, ref, where):
    import jax.numpy as np
    P, new = ref
    got = [onp.asarray(x) for x in p.update_int_vars_gp(sol, [np.asarray(x) for x in iv])]
    S0 = onp.asarray(p.Schmid_tensors)
    judge(F, *iv, dt, got, P, S0, where)
    for x, y, nm in zip(got, new, ('plastic deformation', 'slip resistance', 'slip')):
        close(x, y, f"{where}: {nm} against the point law", 1e-7, 1e-9)
    w = grads(rm, onp.zeros_like(rm.points))[2]
    sig = P @ mT(F) / onp.linalg.det(F)[..., None, None]
    avg = (sig * w[..., None, None]).sum(1) / w.sum(1)[:, None, None]
    close(onp.asarray(p.compute_avg_stress(sol, [np.asarray(x) for x in iv])), avg, f"{where}: cell average of the Cauchy stress", 1e-7, 1e-5)
    return got


def residual(rm, u, P):
    _, gr, w = grads(rm, u)
    r = onp.zeros_like(u)
    onp.add.at(r, rm.cells, onp.einsum('cqvd,cqnd,cq->cnv', P, gr, w))
    return r, onp.abs(onp.einsum('cqvd,cqnd,cq->cnqv', onp.abs(P), onp.abs(gr), w)).sum(2).max()


def run_mesh(case):
    import jax.numpy as np
    rng, rm, p, R = world(case, {'HEX8': (2, 1, 1), 'TET4': (1, 1, 1), 'TET10': (1, 1, 1)}[case['ele']])
    iv = initial(p, rm, R)
    L = onp.ptp(rm.points, axis=0)
    u, top = onp.zeros_like(rm.points), 0.
    S0 = onp.asarray(p.Schmid_tensors)
    for k, (amp, dt) in enumerate(case['steps']):
        du = (rm.points / L) @ rng.normal(size=(3, 3)).T * L + .3 * rng.normal(size=u.shape) * L
        du *= 10.**amp
        for _ in range(14):
            F = grads(rm, u + du)[0] + I3
            ref = ref_all(F, iv, dt, S0)
            if ref is not None:
                break
            du *= .5
        else:
            raise Skip('no step small enough')
        u = u + du
        sol = np.asarray(u)
        where = f"mesh step {k} (dt={dt})"
        p.dt = dt
        p.set_params([np.asarray(x) for x in iv])
        r, sc = residual(rm, u, ref[0])
        close(onp.asarray(p.compute_residual([sol])[0]), r, where + ": residual", 1e-7, 1e-6, scale=sc)
        new = check_update(p, rm, sol, iv, dt, F, ref, where)
        top = max(top, float(onp.abs(new[2] - iv[2]).max()))
        iv = new
    return {'nontrivial': top > 1e-8, 'labels': [case['ele'], f'{len(case["steps"])} steps', f'{len({s[1] for s in case["steps"]})} time steps', f'orientations={case["nori"]}'],
            'observed': f'largest slip increment {top:.3g}'}


def run_solve(case):
    import jax.numpy as np
    from jax_fem.solver import solver
    n = {'HEX8': (2, 1, 1), 'TET4': (1, 1, 1)}[case['ele']]
    X = cells(case['ele'], case['seed'], n, 0., True).points
    L = X.max(0)
    lo, hi = onp.where(X[:, 2] < 1e-9)[0], onp.where(X[:, 2] > L[2] - 1e-9)[0]
    orig = onp.where(onp.abs(X).max(1) < 1e-9)[0]
    xc = onp.where(onp.abs(X - onp.array([L[0], 0, 0])).max(1) < 1e-9)[0]
    where_ = [(orig, 0), (orig, 1), (xc, 1), (lo, 2), (hi, 2)]

    def bc(s):
        return [[sut.in_set_fn(k) for k, _ in where_], [c for _, c in where_], [lambda x: 0. * x[0]] * 4 + [lambda x: s * L[2] + 0. * x[0]]]
    rng, rm, p, R = world(case, n, dirichlet_bc_info=bc(0.))
    S0 = onp.asarray(p.Schmid_tensors)
    bm = onp.zeros(X.shape, bool)
    for k, c in where_:
        bm[k, c] = True
    iv = initial(p, rm, R)
    sol, tot, top = [np.zeros(X.shape)], 0., 0.
    for k, (ds, dt) in enumerate(case['steps']):
        tot += ds
        p.dt = dt
        p.fes[0].update_Dirichlet_boundary_conditions(bc(tot))
        if case['via'] == 'set_params':
            p.set_params([np.asarray(x) for x in iv])
        else:
            p.internal_vars = [np.asarray(x) for x in iv]
        u = onp.asarray(sol[0]).copy()
        u[:, 2] += ds * X[:, 2]
        u[:, :2] -= .4 * ds * X[:, :2]
        sol = solver(p, {'newton': {'linear': {'spsolve_solver': {}}}, 'initial_guess': [np.asarray(u)]})
        u = onp.asarray(sol[0])
        want = onp.zeros(X.shape)
        want[hi, 2] = tot * L[2]
        close(u[bm], want[bm], f"load step {k}: prescribed displacement", 1e-9, 1e-12)
        F = grads(rm, u)[0] + I3
        ref = ref_all(F, iv, dt, S0)
        if ref is None:
            raise Skip('reference update did not converge')
        r, sc = residual(rm, u, ref[0])
        close(r[~bm], 0 * r[~bm], f"load step {k} (dt={dt}): equilibrium of the free nodes", 1e-6, 2e-5, scale=sc)
        new = check_update(p, rm, sol[0], iv, dt, F, ref, f"load step {k}")
        top = max(top, float(onp.abs(new[2] - iv[2]).max()))
        iv = new
    return {'nontrivial': top > 1e-8, 'labels': [case['ele'], f'{len({s[1] for s in case["steps"]})} time steps', case['via']], 'observed': f'largest slip increment {top:.3g}'}


def run_rot(case):
    import jax.numpy as np
    m = model()
    rng = onp.random.default_rng(case['seed'])
    q = rng.normal(size=4)
    if case['kind'] == 'axis':
        q = onp.array([rng.normal(), 0, 0, 0])
        q[1 + rng.integers(0, 3)] = rng.normal()
    if case['kind'] == 'half':
        q[0] = 0.
    if case['kind'] == 'identity':
        q = onp.array([1., 0, 0, 0])
    q /= onp.linalg.norm(q)
    R = onp.asarray(m.get_rot_mat(np.asarray(q)))
    close(R, quat_mat(q), "rotation matrix of a unit quaternion", 0, 1e-13)
    close(onp.asarray(m.get_rot_mat_vmap(np.asarray(onp.stack([q, -q])))), onp.stack([R, R]), "rotation matrices of q and -q", 0, 1e-13)
    M = rng.normal(size=(3, 3))        # any matrix, not only rotations
    T2, T4, T2b = rng.normal(size=(3, 3)), rng.normal(size=(3,) * 4), rng.normal(size=(5, 3, 3))
    close(onp.asarray(m.rotate_tensor_rank_2(np.asarray(M), np.asarray(T2))), M @ T2 @ M.T, "rotation of a second-order tensor", 1e-12, 0)
    close(onp.asarray(m.rotate_tensor_rank_2_vmap(np.asarray(M), np.asarray(T2b))), M @ T2b @ M.T, "rotation of several second-order tensors", 1e-12, 0)
    close(onp.asarray(m.rotate_tensor_rank_4(np.asarray(M), np.asarray(T4))), onp.einsum('ai,bj,ck,dl,ijkl->abcd', M, M, M, M, T4), "rotation of a fourth-order tensor", 1e-12, 0)
    return {'nontrivial': case['kind'] != 'identity', 'labels': [case['kind']], 'observed': str(onp.round(q, 4).tolist())}


SUBS = {'point': {'strategy': point_st, 'run': run_point, 'examples': {'quick': 120, 'thorough': 4000}, 'weight': 2},
        'mesh': {'strategy': mesh_st, 'run': run_mesh, 'examples': {'quick': 32, 'thorough': 800}, 'weight': 1.2},
        'solve': {'strategy': solve_st, 'run': run_solve, 'examples': {'quick': 16, 'thorough': 400}, 'weight': 1.2},
        'rot': {'strategy': rot_st, 'run': run_rot, 'examples': {'quick': 64, 'thorough': 1000}, 'weight': .2}}

"""C27: the hyperelastic and elastic material laws of the example applications."""
import numpy as onp
from hypothesis import strategies as st
from pbt import app, fem, sut
from pbt.core import require, close, Skip, Violation

RULE = """Sub 'point': batches of deformations (rotation times stretch over seven decades of strain, up to 60 % and near-incompressible or strongly
sheared ones) for every law: stress against its closed form, frame indifference, symmetric Kirchhoff stress, symmetric tangent equal to the
derivative, stress-free rotations, Hooke's law for small strains; for the contact law the third medium, its regularisation and the stored rotations.
Sub 'mesh': the same laws through assembly on distorted meshes (residual against NumPy, self-equilibrated forces) and the scalability cube solved
with random modulus fields.  Non-trivial: at least one deformation with strain above one percent and one rotation."""
BUDGET_S = {'quick': 120, 'thorough': 900}
CASE_CPU_S = 200
B = 16

# name -> (file, class, defs_only, dim, dimension of the energy, E, nu, kind, constructor extras)
LAWS = {
    'arc2d': ('arc_length/hyperelastic_models.py', 'BeamHyperelastic', False, 2, 2, 1e3, .3, 'neo', ()),
    'relax2d': ('dynamic_relaxation/beam2d_displacement.py', 'HyperElasticity', True, 2, 2, 1e3, .3, 'neo', ()),
    'relax2d_aux': ('dynamic_relaxation/beam2d_displacement.py', 'HyperElasticityAux', True, 2, 2, 1e3, .3, 'neo', ()),
    'relax3d': ('dynamic_relaxation/beam3d_displacement.py', 'HyperElasticity', True, 3, 3, 10., .3, 'neo', ()),
    'cellular': ('dynamic_relaxation/cellular_displacement.py', 'Elasticity', True, 2, 3, 70e3, .3, 'neo', ()),
    'cube': ('scalability/hyperelastic3d_common.py', 'HyperElasticityClassic', False, 3, 3, 10., .3, 'neo', ()),
    'cube_rho': ('scalability/hyperelastic3d_common.py', 'HyperElasticityInverse', False, 3, 3, 10., .3, 'neo', ()),
    'nodal': ('nodal_stress/example.py', 'HyperElasticity', True, 3, 3, 10., .3, 'neo', ()),
    'wave': ('explicit_dynamics/example.py', 'LinearElasticity', True, 3, 3, None, None, 'lin', (2.5, .2)),
    'serendipity': ('serendipity/example.py', 'LinearElasticity', True, 3, 3, 70e3, .3, 'lin', ()),
    'contact': ('third_medium_contact/example.py', 'Contact', True, 2, 3, 1., .4, 'contact', ()),
}
NAMES = list(LAWS)
SURF = {'relax2d', 'cube', 'cube_rho'}


def cls(name):
    f, c, d = LAWS[name][:3]
    return getattr(app.load('/applications/' + f, 'c27_' + f.replace('/', '_').replace('.py', ''), defs_only=d), c)


def moduli(name):
    _, _, _, dim, ed, E, nu, kind, extra = LAWS[name]
    if extra:
        E, nu = extra
    return E, nu, E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))


_p = {}


def problem(name, rm=None):
    key = name if rm is None else None
    if key in _p:
        return _p[key]
    _, _, _, dim, _, _, _, kind, extra = LAWS[name]
    if rm is None:
        mesh = fem.make_mesh({'ele': 'TRI3' if dim == 2 else 'TET4', 'n': [1] * dim, 'seed': 0, 'grade': False, 'jitter': 0., 'curve': 0.,
                              'affine': False, 'shuffle': False, 'flip': False})
    else:
        mesh = rm
    kw = {'location_fns': [lambda p: True]} if name in SURF else {}
    p = cls(name)(fem.jmesh(mesh), vec=dim, dim=dim, ele_type=mesh.ele, additional_info=extra, **kw)
    if key:
        _p[key] = p
    return p


# ------------------------------------------------------------------------------------------------ closed forms

def embed(F):
    if F.shape[-1] == 3:
        return F
    out = onp.zeros(F.shape[:-2] + (3, 3))
    out[..., :2, :2] = F
    out[..., 2, 2] = 1.
    return out


def neo_stress(F, ed, mu, kappa):
    """d/dF of mu/2 (J^(-2/d) tr(F^T F) - d) + kappa/2 (J-1)^2, F embedded as ed x ed"""
    d = F.shape[-1]
    G = embed(F) if ed == 3 else F
    J = onp.linalg.det(G)[..., None, None]
    Fit = onp.swapaxes(onp.linalg.inv(G), -1, -2)
    I1 = (G * G).sum((-1, -2))[..., None, None]
    P = mu * J ** (-2. / ed) * (G - I1 / ed * Fit) + kappa * (J - 1) * J * Fit
    return P[..., :d, :d]


def log_stress(F, mu, kappa):
    """d/dF of kappa/2 (ln J)^2 + mu/2 (J^(-2/3) I1 - 3) for a plane deformation"""
    G = embed(F)
    J = onp.linalg.det(G)[..., None, None]
    Fit = onp.swapaxes(onp.linalg.inv(G), -1, -2)
    I1 = (G * G).sum((-1, -2))[..., None, None]
    return (mu * J ** (-2. / 3.) * (G - I1 / 3. * Fit) + kappa * onp.log(J) * Fit)[..., :2, :2]


def hooke(H, mu, lam, d3):
    e = .5 * (H + onp.swapaxes(H, -1, -2))
    return lam * onp.trace(e, axis1=-2, axis2=-1)[..., None, None] * onp.eye(H.shape[-1]) + 2 * mu * e


def rot(rng, dim, n, full=True):
    out = []
    for _ in range(n):
        if dim == 2:
            a = rng.uniform(-onp.pi, onp.pi)
            out.append([[onp.cos(a), -onp.sin(a)], [onp.sin(a), onp.cos(a)]])
        else:
            Q, _ = onp.linalg.qr(rng.normal(size=(3, 3)))
            out.append(Q * onp.sign(onp.linalg.det(Q)))
    return onp.array(out)


def deformations(case, dim):
    rng = onp.random.default_rng(case['seed'])
    Q = rot(rng, dim, B)
    if not case['rot']:
        Q[:] = onp.eye(dim)
    S = rng.normal(size=(B, dim, dim))
    S = .5 * (S + onp.swapaxes(S, 1, 2))
    S /= onp.abs(onp.linalg.eigvalsh(S)).max(1)[:, None, None]
    amp = 10. ** case['amp'] * rng.uniform(.5, 1., B)
    w, V = onp.linalg.eigh(S)
    if case['shape'] == 'isochoric':
        w = w - w.mean(1, keepdims=True)
    elif case['shape'] == 'volumetric':
        w = onp.ones_like(w) * rng.choice([-1, 1], size=(B, 1))
    elif case['shape'] == 'uniaxial':
        w[:, 1:] = 0.
    U = onp.einsum('bik,bk,bjk->bij', V, onp.exp(onp.clip(amp[:, None] * w, -.9, .9)), V)
    F = Q @ U
    F[0] = onp.eye(dim)
    if case['rot']:
        F[1] = Q[1]
    return F, Q, rng


@st.composite
def point_st(draw):
    return {'law': draw(st.sampled_from(NAMES)), 'seed': draw(fem.seeds()), 'amp': draw(st.sampled_from([-7., -4., -3., -2., -1., -.5, -.25])),
            'shape': draw(st.sampled_from(['general', 'general', 'isochoric', 'volumetric', 'uniaxial'])), 'rot': draw(st.sampled_from([True, True, False])),
            'theta': draw(st.sampled_from([1., 0., .6, .4]))}


_f = {}


def fns(name):
    if name not in _f:
        import jax
        P = problem(name).get_tensor_map()
        n = {'cube_rho': 1, 'contact': 2}.get(name, 0)
        _f[name] = (jax.jit(jax.vmap(P)), jax.jit(jax.vmap(jax.jacfwd(P))))
    return _f[name]


def extras(name, case, rng, R=None):
    import jax.numpy as np
    if name == 'cube_rho':
        return (np.asarray(rng.uniform(.1, 2., B)),)
    if name == 'contact':
        return (np.full(B, case['theta']), np.asarray(embed(rot(rng, 2, B))) if R is None else np.asarray(R))
    return ()


def run_point(case):
    import jax.numpy as np
    name = case['law']
    _, _, _, dim, ed, _, _, kind, _ = LAWS[name]
    E, nu, mu, kappa = moduli(name)
    lam = kappa - 2 * mu / 3
    F, Q, rng = deformations(case, dim)
    I = onp.eye(dim)
    H = F - I
    ex = extras(name, case, rng)
    val, jac = fns(name)
    P, A = onp.asarray(val(np.asarray(H), *ex)), onp.asarray(jac(np.asarray(H), *ex))
    require(P.shape == F.shape and onp.isfinite(P).all(), "%s: stress is not finite (shape %s)", name, P.shape)
    strain = float(onp.abs(onp.swapaxes(F, 1, 2) @ F - I).max())
    labels = [name, case['shape'], f"amp={case['amp']}"]
    if kind == 'contact':
        info = run_contact(case, F, Q, rng, ex, P, A, mu, kappa)
    else:
        s = onp.asarray(ex[0])[:, None, None] if name == 'cube_rho' else 1.
        if kind == 'lin':
            want = hooke(H, mu, lam, True)
        else:
            want = s * neo_stress(F, ed, mu, kappa)
        sc = float(onp.abs(want).max())
        close(P, want, f"{name}: stress against its closed form", rtol=1e-9, atol=1e-9 * E * max(strain, 1e-5), scale=sc)
        if kind == 'neo':
            Q2 = rot(rng, dim, B)
            close(onp.asarray(val(np.asarray(Q2 @ F - I), *ex)), Q2 @ P, f"{name}: stress after an added rotation", rtol=1e-9, atol=1e-10 * E)
            K = P @ onp.swapaxes(F, 1, 2)
            close(K, onp.swapaxes(K, 1, 2), f"{name}: the Kirchhoff stress is not symmetric", rtol=1e-9, atol=1e-10 * E)
            rigid = onp.asarray(val(np.asarray(Q2 - I), *ex))
            close(rigid, 0 * rigid, f"{name}: a rigid rotation is stressed", atol=1e-10 * E)
        # the tangent: symmetric, and the derivative of the stress
        close(A, onp.transpose(A, (0, 3, 4, 1, 2)), f"{name}: tangent without major symmetry", rtol=1e-9, atol=1e-9 * E)
        dF = rng.normal(size=F.shape)
        h = 1e-5
        fd = (onp.asarray(val(np.asarray(H + h * dF), *ex)) - onp.asarray(val(np.asarray(H - h * dF), *ex))) / (2 * h)
        close(onp.einsum('bijkl,bkl->bij', A, dF), fd, f"{name}: tangent against differences", rtol=1e-5, atol=1e-6 * E)
        # small strains: Hooke's law of the stated modulus and Poisson's ratio (index 0 is undeformed)
        I4 = onp.einsum('ik,jl->ijkl', I, I)
        if ed == 3:
            C0 = lam * onp.einsum('ij,kl->ijkl', I, I) + mu * (I4 + onp.transpose(I4, (0, 1, 3, 2)))
        else:              # two-dimensional energy: bulk modulus kappa, deviator with respect to d = 2
            C0 = (kappa - mu) * onp.einsum('ij,kl->ijkl', I, I) + mu * (I4 + onp.transpose(I4, (0, 1, 3, 2)))
        s0 = float(onp.asarray(ex[0])[0]) if name == 'cube_rho' else 1.
        close(A[0], s0 * C0, f"{name}: initial elasticity tensor", rtol=1e-8, atol=1e-8 * E)
    return {'nontrivial': strain > 1e-2 and case['rot'], 'labels': labels, 'observed': f"strain up to {strain:.3g}, stress up to {onp.abs(P).max():.3g}"}


def polar(F):
    U, _, Vt = onp.linalg.svd(embed(F))
    return U @ Vt


def run_contact(case, F, Q, rng, ex, P, A, mu, kappa):
    """solid: logarithmic neo-Hookean; third medium: 1e-6 of the deviatoric part plus rotation regularisation.  The law perturbs the
    diagonal of F by at most 1e-6 to keep repeated principal stretches apart, hence the tolerances."""
    import jax
    import jax.numpy as np
    theta, Ro = case['theta'], onp.asarray(ex[1])
    val, jac = fns('contact')
    I = onp.eye(2)
    tol = 2e-5
    if theta > .5:
        close(P, log_stress(F, mu, kappa), "contact: stress of the solid", rtol=tol, atol=tol)
        Q2 = rot(rng, 2, B)
        P2 = onp.asarray(val(np.asarray(Q2 @ F - I), *ex))
        close(P2, Q2 @ P, "contact: stress of the solid after an added rotation", rtol=tol, atol=tol)
        K = P @ onp.swapaxes(F, 1, 2)
        close(K, onp.swapaxes(K, 1, 2), "contact: Kirchhoff stress of the solid is not symmetric", rtol=tol, atol=tol)
    else:
        # regularisation energy kR/2 |I - R Ro^T|^2 = kR (3 - tr(R Ro^T)) for rotations
        iso = 1e-6 * log_stress(F, mu, 0.)

        def reg(F):
            a = onp.arctan2(F[..., 1, 0] - F[..., 0, 1], F[..., 0, 0] + F[..., 1, 1])      # plane polar angle
            b = onp.arctan2(Ro[:, 1, 0], Ro[:, 0, 0])
            return 1e-2 * (2 - 2 * onp.cos(a - b))
        h = 1e-5
        want = onp.zeros_like(P)
        for i in range(2):
            for j in range(2):
                D = onp.zeros((2, 2))
                D[i, j] = h
                want[:, i, j] = (reg(F + D) - reg(F - D)) / (2 * h)
        U = onp.swapaxes(polar(F)[:, :2, :2], 1, 2) @ F
        mild = onp.linalg.cond(U) < 50
        close(P[mild], (want + iso)[mild], "contact: stress of the third medium", rtol=1e-3, atol=2e-6)
        close(onp.asarray(val(np.asarray(F - I), ex[0], np.asarray(polar(F)))), iso, "contact: third medium that has not turned since the last step",
              rtol=1e-3, atol=2e-7)
    C = problem('contact')
    _, dg, ro = C.get_maps()
    F3 = onp.asarray(jax.vmap(dg)(np.asarray(F - I)))
    close(F3, embed(F), "contact: deformation gradient", atol=2e-6)
    R = onp.asarray(jax.vmap(ro)(np.asarray(F3)))
    close(R, polar(F), "contact: rotation of the polar decomposition", atol=1e-5)
    close(R @ onp.swapaxes(R, 1, 2), onp.broadcast_to(onp.eye(3), R.shape), "contact: rotations are not orthogonal", atol=1e-9)


# ------------------------------------------------------------------------------------------------ through assembly

@st.composite
def mesh_case(draw):
    name = draw(st.sampled_from(NAMES))
    dim = LAWS[name][3]
    ele = draw(st.sampled_from(['QUAD4', 'QUAD4', 'TRI6'] if dim == 2 else ['HEX8', 'HEX8', 'TET4']))
    return {'law': name, 'mesh': {'ele': ele, 'n': [2, 2] if dim == 2 else [1, 1, 1] if 'TET' in ele else [2, 1, 1], 'seed': draw(fem.seeds()), 'grade': draw(st.booleans()),
                                  'jitter': draw(st.sampled_from([0., .2])), 'curve': 0., 'affine': draw(st.booleans()), 'shuffle': draw(st.booleans()), 'flip': False},
            'amp': draw(st.sampled_from([1e-4, 1e-2, .1])), 'seed': draw(fem.seeds()), 'rot': draw(st.booleans())}


def quad_stress(name, rm, u, rng_ex, tab):
    x, N, G, JxW = tab
    F = onp.einsum('cni,cqnj->cqij', u[rm.cells], G) + onp.eye(rm.dim)
    _, _, _, dim, ed, _, _, kind, _ = LAWS[name]
    E, nu, mu, kappa = moduli(name)
    if kind == 'lin':
        return F, hooke(F - onp.eye(dim), mu, kappa - 2 * mu / 3, True)
    if kind == 'contact':
        return F, log_stress(F, mu, kappa)
    s = rng_ex[..., None, None] if name == 'cube_rho' else 1.
    return F, s * neo_stress(F, ed, mu, kappa)


def run_mesh(case):
    import jax.numpy as np
    name = case['law']
    rm = fem.make_mesh(case['mesh'])
    p = problem(name, rm)
    rng = onp.random.default_rng(case['seed'])
    d = rm.dim
    tab = rm.tabulate()
    x, N, G, JxW = tab
    size = onp.ptp(rm.points, axis=0).max()
    Q = rot(rng, d, 1)[0] if case['rot'] and LAWS[name][7] != 'lin' else onp.eye(d)
    u = rm.points @ (Q + case['amp'] * rng.uniform(-1, 1, (d, d))).T - rm.points
    hmin = JxW.sum(1).min() ** (1 / d)
    u = u + .2 * case['amp'] * hmin * rng.uniform(-1, 1, u.shape)
    shape = JxW.shape
    ex = rng.uniform(.2, 2., shape)
    if name == 'cube_rho':
        p.set_params(np.asarray(ex))
    elif name == 'contact':
        p.internal_vars = [np.ones(shape), np.broadcast_to(np.eye(3), shape + (3, 3))]
    F, P = quad_stress(name, rm, u, ex, tab)
    if (onp.linalg.det(F) < .1).any():
        raise Skip()
    R = onp.zeros_like(u)
    onp.add.at(R, rm.cells, onp.einsum('cqij,cqnj,cq->cni', P, G, JxW))
    load = onp.zeros_like(u)
    if name in SURF:
        t = onp.array([0., 1e-5]) if d == 2 else onp.array([0., 1e-3, 0.])
        for _, (c, f) in rm.boundary:
            pass
        for k, cf in rm.faces_by_verts.items():
            for c, f in cf:                      # every face of every cell: the location function accepts all points
                xs, Nf, _, w, _ = rm.tab_face(c, f)
                onp.add.at(load, rm.cells[c], onp.einsum('qn,q,i->ni', Nf, w, t))
    got = onp.asarray(p.compute_residual([np.asarray(u)])[0])
    E = moduli(name)[0]
    mag = onp.abs(onp.einsum('cqij,cqnj,cq->cqni', P, G, JxW)).max()
    tol = 2e-5 if name == 'contact' else 1e-9
    gm = float(onp.abs(onp.einsum('cqnj,cq->cqnj', G, JxW)).max())
    close(got, R + load, f"{name}: assembled internal force", rtol=tol, atol=tol * E * gm * (1. if name == 'contact' else max(case['amp'], 1e-3)), scale=mag)
    inner = got - load
    close(inner.sum(0), onp.zeros(d), f"{name}: internal forces do not add up to zero", atol=1e-8 * max(mag, E * gm * 1e-3))
    if LAWS[name][7] == 'neo':
        y = rm.points + u
        M = onp.einsum('ni,nj->ij', y, inner)
        close(M, M.T, f"{name}: internal forces have a resulting moment", atol=1e-8 * max(mag, E * gm * 1e-3) * (onp.abs(y).max() + 1))
    if name == 'contact':
        Rs = onp.asarray(p.post_processing(np.asarray(u)))
        want = polar(F).mean(1, keepdims=True)
        close(Rs, onp.broadcast_to(want, Rs.shape), "contact: stored rotations (cell mean of the polar rotations)", atol=1e-5)
    return {'nontrivial': case['amp'] > 1e-3 and (case['rot'] or LAWS[name][7] == 'lin'), 'labels': [name, rm.ele], 'observed': f"force {onp.abs(got).max():.3g}"}


@st.composite
def cube_st(draw):
    return {'which': draw(st.sampled_from(['classic', 'inverse', 'inverse'])), 'n': draw(st.sampled_from([[2, 2, 1], [3, 1, 2], [2, 2, 2]])), 'seed': draw(fem.seeds()),
            'stretch': draw(st.sampled_from([.02, .2, -.1])), 'traction': draw(st.sampled_from([1e-3, .3, -.2])), 'contrast': draw(st.sampled_from([0., .5, .9]))}


def run_cube(case):
    """the shared benchmark cube, with the module's own builder and boundary data"""
    import jax
    import jax.numpy as np
    from jax_fem.solver import solver, ad_wrapper
    m = app.load('/applications/scalability/hyperelastic3d_common.py', 'c27_scalability_hyperelastic3d_common')
    keep = (m.STRETCH, m.T_LATERAL)
    rng = onp.random.default_rng(case['seed'])
    opt = {'spsolve_solver': {}, 'tol': 1e-9, 'rel_tol': 1e-11}
    try:
        m.STRETCH, m.T_LATERAL = case['stretch'], case['traction']
        build = m.build_hyperelastic3d_problem_classic if case['which'] == 'classic' else m.build_hyperelastic3d_problem_inverse
        p, mesh = build(*case['n'])
        rm = fem.RefMesh('HEX8', onp.asarray(mesh.points), onp.asarray(mesh.cells))
        x, N, G, JxW = rm.tabulate()
        rho = 1. + case['contrast'] * rng.uniform(-1, 1, JxW.shape)
        grad = None
        if case['which'] == 'classic':
            u = onp.asarray(solver(p, solver_options=opt)[0])
            rho = onp.ones(JxW.shape)
        else:
            f = ad_wrapper(p, solver_options=opt, adjoint_solver_options={'spsolve_solver': {}})

            def obj(r):
                s = f(r)
                return np.sum(s[0]**2), s[0]
            (_, u), grad = jax.value_and_grad(obj, has_aux=True)(np.asarray(rho))
            u, grad = onp.asarray(u), onp.asarray(grad)
    finally:
        m.STRETCH, m.T_LATERAL = keep
    E, nu, mu, kappa = moduli('cube')
    left, right = onp.isclose(rm.points[:, 0], 0), onp.isclose(rm.points[:, 0], 1)
    top = onp.isclose(rm.points[:, 1], 1)
    close(u[left], 0 * u[left], "cube: clamped side", atol=1e-9)
    close(u[right], onp.tile([case['stretch'], 0, 0], (int(right.sum()), 1)), "cube: stretched side", atol=1e-9)
    F = onp.einsum('cni,cqnj->cqij', u[rm.cells], G) + onp.eye(3)
    P1 = neo_stress(F, 3, mu, kappa)
    fq = onp.einsum('cqij,cqnj,cq->cqni', P1, G, JxW)
    R = onp.zeros_like(u)
    onp.add.at(R, rm.cells, onp.einsum('cqni,cq->cni', fq, rho))
    for k, (c, f_) in rm.boundary:
        if all(top[v] for v in k):
            xs, Nf, _, w, _ = rm.tab_face(c, f_)
            onp.add.at(R, rm.cells[c], onp.einsum('qn,q,i->ni', Nf, w, onp.array([0., case['traction'], 0.])))
    free = ~(left | right)
    big = onp.abs(fq).max()
    close(R[free], 0 * R[free], "cube: out-of-balance force", atol=1e-6 * big)
    if grad is not None:
        # adjoint of the same system, assembled here: K by differences of the closed-form stress along unit nodal motions
        n = u.size
        h = 1e-6
        A = onp.zeros(F.shape + (3, 3))
        for i in range(3):
            for j in range(3):
                D = onp.zeros((3, 3))
                D[i, j] = h
                A[..., i, j] = (neo_stress(F + D, 3, mu, kappa) - neo_stress(F - D, 3, mu, kappa)) / (2 * h)
        Kc = onp.einsum('cqijkl,cqnj,cqml,cq,cq->cnimk', A, G, G, JxW, rho)
        K = onp.zeros((n, n))
        for c, cell in enumerate(rm.cells):
            ids = (3 * cell[:, None] + onp.arange(3)).ravel()
            K[onp.ix_(ids, ids)] += Kc[c].reshape(24, 24)
        fr = onp.repeat(free, 3)
        lam = onp.zeros(n)
        lam[fr] = onp.linalg.solve(K[onp.ix_(fr, fr)].T, 2 * u.reshape(-1)[fr])
        want = -onp.einsum('cqni,cni->cq', fq, lam.reshape(-1, 3)[rm.cells])
        close(grad, want, "cube: gradient with respect to the modulus field", rtol=1e-5, atol=1e-9)
    return {'nontrivial': True, 'labels': [case['which'], f"contrast={case['contrast']}"], 'observed': f"u up to {onp.abs(u).max():.3g}"}


SUBS = {
    'point': {'strategy': point_st, 'run': run_point, 'examples': {'quick': 1000, 'thorough': 10000}, 'weight': 1.},
    'mesh': {'strategy': mesh_case, 'run': run_mesh, 'examples': {'quick': 160, 'thorough': 1500}, 'weight': 1.},
    'cube': {'strategy': cube_st, 'run': run_cube, 'examples': {'quick': 48, 'thorough': 300}, 'weight': .8},
}

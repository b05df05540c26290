"""C23: spectral matrix functions (applications/phase_field_fracture/eigen.py)."""
import numpy as onp
import scipy.linalg as sla
from hypothesis import strategies as st
from pbt import fem
from pbt.core import require, close
from checks.c21 import app

RULE = """Symmetric matrices of size 2 to 5 built from generated spectra (distinct, exactly repeated, clusters with relative gaps from 1e-16 to
1e-2, opposite pairs, zero matrix, diagonal, identity multiples; twelve decades of size) in random or axis-aligned orientations, twelve
scalar functions (polynomials, exp, sin, inverse, square root, brackets) with a traced scale factor.  Value against Q f Q^T, forward and
reverse derivative, plain, jitted and batched, against Q (theta o Q^T V Q) Q^T with analytic divided differences; isotropy as a metamorphic
relation; the phase-field stress built on the function against its NumPy twin.  Non-trivial: two eigenvalues closer than 1e-3 relative."""
BUDGET_S = {'quick': 40, 'thorough': 600}
B = 8


def _sinhc(x):
    return onp.where(onp.abs(x) < 1e-4, 1 + x**2 / 6, onp.sinh(x) / onp.where(x == 0, 1, x))


def _sinc(x):
    return onp.sinc(x / onp.pi)


def _kink(hi, lo):
    def dd(a, b):
        same = onp.where((a > 0) & (b > 0), hi, onp.where((a < 0) & (b < 0), lo, .5 * (hi + lo)))
        f = lambda x: onp.where(x > 0, hi, lo) * x
        d = a - b
        return onp.where((a * b > 0) | (d == 0), same, (f(a) - f(b)) / onp.where(d == 0, 1, d))
    return dd


# name: jax function, numpy function, stable divided difference, needs positive spectrum
FNS = {'id': (lambda np, x: x, lambda x: x, lambda a, b: 1. + 0 * a, False),
       'const': (lambda np, x: 2. + 0. * x, lambda x: 2. + 0 * x, lambda a, b: 0. * a * b, False),
       'square': (lambda np, x: x * x, lambda x: x * x, lambda a, b: a + b, False),
       'cube': (lambda np, x: x**3, lambda x: x**3, lambda a, b: a * a + a * b + b * b, False),
       'wiggle': (lambda np, x: x**3 - x, lambda x: x**3 - x, lambda a, b: a * a + a * b + b * b - 1, False),
       'expm1': (lambda np, x: np.expm1(x), lambda x: onp.expm1(x), lambda a, b: onp.exp((a + b) / 2) * _sinhc((a - b) / 2), False),
       'exp': (lambda np, x: np.exp(x), lambda x: onp.exp(x), lambda a, b: onp.exp((a + b) / 2) * _sinhc((a - b) / 2), False),
       'sin': (lambda np, x: np.sin(x), lambda x: onp.sin(x), lambda a, b: onp.cos((a + b) / 2) * _sinc((a - b) / 2), False),
       'inverse': (lambda np, x: 1. / x, lambda x: 1. / x, lambda a, b: -1. / (a * b), True),
       'sqrt': (lambda np, x: np.sqrt(x), lambda x: onp.sqrt(x), lambda a, b: 1. / (onp.sqrt(a) + onp.sqrt(b)), True),
       'plus': (lambda np, x: .5 * (x + np.abs(x)), lambda x: .5 * (x + onp.abs(x)), _kink(1., 0.), False),
       'split': (lambda np, x: .25 * .5 * (x + np.abs(x)) + .5 * (x - np.abs(x)), lambda x: .25 * .5 * (x + onp.abs(x)) + .5 * (x - onp.abs(x)), _kink(.25, 1.), False)}
SPEC = ['distinct', 'double', 'double', 'all', 'near', 'near', 'near', 'opposite', 'zero', 'two_clusters']


@st.composite
def spectral_st(draw):
    return {'fn': draw(st.sampled_from(sorted(FNS))), 'n': draw(st.sampled_from([3, 3, 3, 2, 4, 5])), 'spec': draw(st.sampled_from(SPEC)), 'gap': draw(st.sampled_from(list(range(-16, -1)))),
            'ori': draw(st.sampled_from(['random', 'random', 'diag', 'plane'])), 'logc': draw(st.sampled_from([0., 0., -6., -3., 3., 6.])), 'seed': draw(fem.seeds())}


def eigen():
    return app('/applications/phase_field_fracture/eigen.py', 'phase_field_eigen')


def spectrum(rng, case, n):
    pos = FNS[case['fn']][3]
    lam = rng.uniform(.3, 2., n) * (1 if pos else rng.choice([1, -1], n))
    lam += onp.sign(lam) * onp.arange(n) * .15
    k = case['spec']
    if k == 'double':
        lam[1] = lam[0]
    elif k == 'all':
        lam[:] = lam[0]
    elif k == 'near':
        d = 10.**case['gap']
        lam[1] = lam[0] * (1 + d)
        if n > 2 and rng.random() < .3:
            lam[2] = lam[0] * (1 - d * rng.uniform(.5, 2))
    elif k == 'opposite' and not pos:
        lam[1] = -lam[0]
    elif k == 'two_clusters' and n > 3:
        lam[1] = lam[0]
        lam[3] = lam[2] * (1 + 10.**case['gap'])
    elif k == 'zero' and not pos:
        lam[:] = 0.
        if rng.random() < .4 and case['fn'] not in ('plus', 'split'):       # a zero eigenvalue up to round-off sits on either side of the kink
            lam[0] = 1.
    return lam


def orient(rng, kind, n):
    if kind == 'diag':
        return onp.eye(n)[rng.permutation(n)]
    if kind == 'plane':
        Q = onp.eye(n)
        t = rng.uniform(0, 2 * onp.pi)
        Q[:2, :2] = [[onp.cos(t), -onp.sin(t)], [onp.sin(t), onp.cos(t)]]
        return Q[rng.permutation(n)]
    return onp.linalg.qr(rng.normal(size=(n, n)))[0]


_cache = {}


def fns(name, n):
    if (name, n) not in _cache:
        import jax
        import jax.numpy as np
        base = FNS[name][0]
        mod = eigen()

        def val(x, c):
            return mod.get_eigen_f_custom(lambda s: base(np, s * c))(x)

        def plain(x, c):
            return mod.get_eigen_f_jax(lambda s: base(np, s * c))(x)

        def jv(x, c, v):
            return jax.jvp(lambda y: val(y, c), (x,), (v,))

        def vj(x, c, w):
            y, f = jax.vjp(lambda y: val(y, c), x)
            return f(w)[0]
        b = lambda f: jax.jit(jax.vmap(f))
        _cache[name, n] = dict(val=b(val), plain=b(plain), jv=b(jv), vj=b(vj), jf=b(jax.jacfwd(val)), one=val)
    return _cache[name, n]


def run_spectral(case):
    import jax
    import jax.numpy as np
    n, name = case['n'], case['fn']
    _, f, dd, pos = FNS[name]
    rng = onp.random.default_rng(case['seed'])
    size = 10.**case['logc']                       # matrices of this size, functions of the scaled eigenvalue
    c = onp.full(B, 1. / size) * rng.uniform(.8, 1.2, B)
    lam = onp.stack([spectrum(rng, case, n) for _ in range(B)])
    Q = onp.stack([orient(rng, case['ori'], n) for _ in range(B)])
    X = onp.einsum('bij,bj,bkj->bik', Q, lam * size, Q)
    X = .5 * (X + X.swapaxes(1, 2))
    V = rng.normal(size=(B, n, n))
    V = .5 * (V + V.swapaxes(1, 2)) * size
    m = fns(name, n)
    z = lam * size * c[:, None]
    fv = f(z)
    want = onp.einsum('bij,bj,bkj->bik', Q, fv, Q)
    T = dd(z[:, :, None], z[:, None, :]) * c[:, None, None]
    tm = onp.abs(T).max((1, 2))
    lm = onp.abs(lam * size).max(1)
    fs = onp.abs(fv).max(1)
    a = [np.asarray(X), np.asarray(c)]
    tol = (1e-12 * fs + 1e-12 * tm * lm)[:, None, None] + 1e-300
    for k in ('val', 'plain'):
        got = onp.asarray(m[k](*a))
        close(got / tol, want / tol, f"{k}: {name} of a symmetric matrix (units of the tolerance)", 0, 1.)
    dwant = Q @ (T * (Q.swapaxes(1, 2) @ V @ Q)) @ Q.swapaxes(1, 2)
    # the divided difference of the function values carries round-off eps max|f| / gap; below sqrt(eps) no gap needs to be resolved
    dtol = ((1e-7 * tm + 1e-15 * fs / (1e-8 * lm + 1e-300) * (name in ('exp', 'const'))) * size)[:, None, None] * 5 + 1e-300
    if name == 'const' or name == 'exp':
        dtol = dtol + (1e-7 * size * c)[:, None, None]
    val, jv = [onp.asarray(x) for x in m['jv'](a[0], a[1], np.asarray(V))]
    close(val / tol, want / tol, f"jvp primal: {name} of a symmetric matrix (units of the tolerance)", 0, 1.)
    require(onp.isfinite(jv).all(), "the derivative of %s is not finite at %s", name, X[onp.argwhere(~onp.isfinite(jv))[0][0]].tolist() if not onp.isfinite(jv).all() else '')
    kink = name in ('plus', 'split') and case['spec'] == 'zero'        # the derivative at the kink is any subgradient: finite
    if kink:
        dtol = dtol * 1e300
    close(jv / dtol, dwant / dtol, f"derivative of {name} (units of the tolerance)", 0, 1.)
    W = rng.normal(size=(B, n, n))
    vj = onp.asarray(m['vj'](a[0], a[1], np.asarray(W)))
    Ws = .5 * (W + W.swapaxes(1, 2))
    wwant = Q @ (T * (Q.swapaxes(1, 2) @ Ws @ Q)) @ Q.swapaxes(1, 2)
    # only the symmetric part of the gradient acts on symmetric matrices
    close(.5 * (vj + vj.swapaxes(1, 2)) * size / dtol, wwant * size / dtol, f"reverse derivative of {name} (units of the tolerance)", 0, 3.)
    close(vj * size / dtol, wwant * size / dtol, f"reverse derivative of {name}, all components (units of the tolerance)", 0, 3.)
    # a direction that is not symmetric acts through its symmetric part
    A = rng.normal(size=(B, n, n)) * size
    _, ja = m['jv'](a[0], a[1], np.asarray(V + .5 * (A - A.swapaxes(1, 2))))
    close(onp.asarray(ja) / dtol, dwant / dtol, f"derivative of {name} in an unsymmetric direction (units of the tolerance)", 0, 3.)
    # full fourth-order derivative: contracted with V
    jf = onp.asarray(m['jf'](*a))
    close(onp.einsum('bijkl,bkl->bij', jf, V) / dtol, dwant / dtol, f"fourth-order derivative of {name} contracted (units of the tolerance)", 0, 1.)
    # unbatched, untraced
    j1 = onp.asarray(jax.jvp(lambda y: m['one'](y, c[0]), (np.asarray(X[0]),), (np.asarray(V[0]),))[1])
    close(j1 / dtol[0], dwant[0] / dtol[0], f"derivative of {name} outside jit (units of the tolerance)", 0, 1.)
    # isotropy: rotate the argument
    R = onp.stack([onp.linalg.qr(rng.normal(size=(n, n)))[0] for _ in range(B)])
    Xr = R @ X @ R.swapaxes(1, 2)
    Xr = .5 * (Xr + Xr.swapaxes(1, 2))
    Vr = R @ V @ R.swapaxes(1, 2)
    if not kink:
        _, jr = m['jv'](np.asarray(Xr), a[1], np.asarray(Vr))
        close(onp.asarray(jr) / dtol, R @ jv @ R.swapaxes(1, 2) / dtol, f"derivative of {name} at the rotated matrix (units of the tolerance)", 0, 2.)
    gaps = onp.diff(onp.sort(lam, 1), axis=1).min() / max(1e-300, onp.abs(lam).max())
    return {'nontrivial': gaps < 1e-3, 'labels': [name, f'n={n}', case['spec'], case['ori'], f'size=1e{case["logc"]:g}'],
            'observed': f'eigenvalues {onp.round(lam[0] * size, 6).tolist()}, |derivative| {onp.abs(jv).max():.4g}'}


@st.composite
def stress_st(draw):
    return {'seed': draw(fem.seeds()), 'dim': draw(st.sampled_from([2, 3])), 'kind': draw(st.sampled_from(['zero', 'uniaxial', 'hydro', 'shear', 'random', 'near'])), 'log': draw(st.sampled_from([-8., -5., -3., -1.]))}


MU, LA = 80.77, 121.15


def run_stress(case):
    """the phase-field stress built on the spectral function (second option of the application), as a problem would use it"""
    import jax
    import jax.numpy as np
    d = case['dim']
    key = ('stress', d)
    if key not in _cache:
        mod = eigen()
        sp, sm = lambda x: .5 * (x + np.abs(x)), lambda x: .5 * (x - np.abs(x))

        def stress(u_grad, dam):
            eps = .5 * (u_grad + u_grad.T)
            g = (1 - dam[0])**2
            f = mod.get_eigen_f_custom(lambda x: 2 * MU * (g * sp(x) + sm(x)))
            tr = np.trace(eps)
            return LA * (g * sp(tr) + sm(tr)) * np.eye(d) + f(eps)
        _cache[key] = (jax.jit(jax.vmap(stress)), jax.jit(jax.vmap(jax.jacfwd(stress))), jax.jit(jax.vmap(jax.jacrev(stress))))
    rng = onp.random.default_rng(case['seed'])
    Q = onp.stack([onp.linalg.qr(rng.normal(size=(d, d)))[0] for _ in range(B)])
    k = case['kind']
    lam = rng.uniform(.2, 1., (B, d)) * rng.choice([1, -1], (B, d))
    if k == 'zero':
        lam[:] = 0
    elif k == 'uniaxial':
        lam[:, 1:] = -.3 * lam[:, :1]
    elif k == 'hydro':
        lam[:] = lam[:, :1]
    elif k == 'shear':
        lam[:, 1] = -lam[:, 0]
        lam[:, 2:] = 0
        Q[:] = onp.eye(d)
    elif k == 'near':
        lam[:, 1] = lam[:, 0] * (1 + 10.**rng.integers(-16, -2))
    lam *= 10.**case['log']
    E = onp.einsum('bij,bj,bkj->bik', Q, lam, Q)
    Wm = rng.normal(size=(B, d, d))
    ug = .5 * (E + E.swapaxes(1, 2)) + 10.**case['log'] * (Wm - Wm.swapaxes(1, 2))
    dam = rng.uniform(0, 1, (B, 1))
    g = (1 - dam[:, 0])**2
    pl, mi = .5 * (lam + onp.abs(lam)), .5 * (lam - onp.abs(lam))
    tr = lam.sum(1)
    tp, tn = .5 * (tr + abs(tr)), .5 * (tr - abs(tr))
    want = onp.einsum('bij,bj,bkj->bik', Q, 2 * MU * (g[:, None] * pl + mi), Q) + (LA * (g * tp + tn))[:, None, None] * onp.eye(d)
    a = (np.asarray(ug), np.asarray(dam))
    S, jf, jr = [onp.asarray(f(*a)) for f in _cache[key]]
    sc = MU * 10.**case['log']
    close(S / sc, want / sc, "stress with tension/compression split", 0, 1e-10)
    require(onp.isfinite(jf).all() and onp.isfinite(jr).all(), "tangent of the split stress is not finite (%s, 10^%s)", k, case['log'])
    close(jr / MU, jf / MU, "reverse against forward tangent of the split stress", 0, 1e-8)
    kink = k in ('zero', 'shear')
    if not kink and onp.abs(tr).min() > 1e-6 * onp.abs(lam).max():
        V = rng.normal(size=(B, d, d))
        Vs = .5 * (V + V.swapaxes(1, 2))
        A, Bm = lam[:, :, None], lam[:, None, :]
        same = onp.where(A > 0, g[:, None, None], 1.)
        ff = lambda x: onp.where(x > 0, g[:, None, None], 1.) * x
        th = 2 * MU * onp.where(A * Bm > 0, same, (ff(A) - ff(Bm)) / onp.where(A == Bm, 1., A - Bm))
        dw = Q @ (th * (Q.swapaxes(1, 2) @ Vs @ Q)) @ Q.swapaxes(1, 2)
        dw += (LA * onp.where(tr > 0, g, 1.) * onp.trace(Vs, axis1=1, axis2=2))[:, None, None] * onp.eye(d)
        close(onp.einsum('bijkl,bkl->bij', jf, V) / MU, dw / MU, "tangent of the split stress", 0, 1e-6)
    return {'nontrivial': k in ('hydro', 'near', 'zero', 'uniaxial'), 'labels': [k, f'dim={d}', f'strain=1e{case["log"]:g}'], 'observed': f'stress up to {onp.abs(S).max():.4g}'}


SUBS = {'spectral': {'strategy': spectral_st, 'run': run_spectral, 'examples': {'quick': 800, 'thorough': 20000}, 'weight': 2},
        'stress': {'strategy': stress_st, 'run': run_stress, 'examples': {'quick': 160, 'thorough': 3000}, 'weight': .5}}

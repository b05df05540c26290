"""C19: the MMA optimiser."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, sut
from pbt.core import require, close

RULE = """Sub 'step': histories of MMA steps (from the start, or resumed with arbitrary iterates and asymptotes) with random gradients (scales, zeros), constraint values, bounds over two decades, move limits,
penalties and sizes (more variables than constraints and the reverse); after every step the asymptotes must follow the published
rules, the point must respect bounds and move limits and the optimality conditions of an independently built subproblem must hold
with non-negative multipliers (skipped where an independent implementation of the published inner iteration stalls too).
Sub 'convex': strongly convex problems with linear or quadratic constraints are iterated to the optimum found by SLSQP.
Sub 'loop': optimize() on generated meshes with recording callbacks, filters on and off, one or two fields; the whole design history
must match a re-run of the steps.  Non-trivial: a constraint is active or violated in some step (step, convex); every loop."""
BUDGET_S = {'quick': 75, 'thorough': 1500}
CASE_CPU_S = 240


def make_mma(m, n, xmin, xmax, a, c, d, move):
    from jax_fem.mma import MMA
    M = MMA()
    M.setNumConstraints(m)
    M.setNumDesignVariables(n)
    M.setMinandMaxBoundsForDesignVariables(xmin, xmax)
    M.setScalingParams(1., a, c, d)
    M.setMoveLimit(move)
    M.setLowerAndUpperAsymptotes(onp.ones((n, 1)), onp.ones((n, 1)))
    return M


class Sub:
    """the published subproblem at x"""

    def __init__(self, x, low, upp, xmin, xmax, move, df, f, dg, a, c, d):
        R = xmax - xmin
        self.low, self.upp, self.a, self.c, self.d = low, upp, a, c, d
        self.alfa = onp.maximum(onp.maximum(low + .1 * (x - low), x - move * R), xmin)
        self.beta = onp.minimum(onp.minimum(upp - .1 * (upp - x), x + move * R), xmax)

        def pq(g):
            e = .001 * onp.abs(g) + 1e-5 / onp.maximum(R, 1e-5)
            return (onp.maximum(g, 0) + e) * (upp - x)**2, (onp.maximum(-g, 0) + e) * (x - low)**2
        self.p0, self.q0 = pq(df)
        PQ = [pq(g[:, None]) for g in dg]
        self.P, self.Q = onp.concatenate([p.T for p, _ in PQ]), onp.concatenate([q.T for _, q in PQ])
        self.b = self.P @ (1 / (upp - x)) + self.Q @ (1 / (x - low)) - f

    def residual(self, v, eps=0.):
        x, y, z, lam, xsi, eta, mu, zet, s = v
        u, l = self.upp - x, x - self.low
        return dict(x=(self.p0 + self.P.T @ lam) / u**2 - (self.q0 + self.Q.T @ lam) / l**2 - xsi + eta, y=self.c + self.d * y - mu - lam,
                    z=1. - zet - self.a.T @ lam, lam=self.P @ (1 / u) + self.Q @ (1 / l) - self.a * z - y + s - self.b, xsi=xsi * (x - self.alfa) - eps,
                    eta=eta * (self.beta - x) - eps, mu=mu * y - eps, zet=zet * z - eps, s=lam * s - eps)

    def reference(self):
        """independent primal-dual Newton of the published kind; worst residual it reaches (full Newton matrix)"""
        n, m = len(self.p0), len(self.b)
        x = .5 * (self.alfa + self.beta)
        v = [x, onp.ones((m, 1)), onp.ones((1, 1)), onp.ones((m, 1)), onp.maximum(1 / (x - self.alfa), 1), onp.maximum(1 / (self.beta - x), 1),
             onp.maximum(1, self.c / 2), onp.ones((1, 1)), onp.ones((m, 1))]
        sizes = onp.cumsum([0] + [len(t) for t in v])
        keys = ['x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's']
        F = lambda w, e: (lambda r: onp.concatenate([r[k] for k in keys])[:, 0])(self.residual(w, e))
        split = lambda w: [w[sizes[i]:sizes[i + 1], None] for i in range(9)]
        sl = [slice(sizes[i], sizes[i + 1]) for i in range(9)]
        lo = onp.concatenate([self.alfa[:, 0], onp.zeros(sizes[-1] - n)])
        w = onp.concatenate(v)[:, 0]
        eps = 1.
        while eps > 1e-7:
            r = F(split(w), eps)
            rn = onp.linalg.norm(r)
            for _ in range(200):
                if onp.abs(r).max() <= .9 * eps:
                    break
                x, y, z, lam, xsi, eta, mu, zet, s = split(w)
                u, l = self.upp - x, x - self.low
                K = onp.zeros((sizes[-1], sizes[-1]))
                i = {k: j for j, k in enumerate(keys)}

                def put(a, b, val):
                    K[sl[i[a]], sl[i[b]]] += val
                G = self.P / (u**2).T - self.Q / (l**2).T
                D = lambda t: onp.diag(onp.asarray(t).reshape(-1))
                I, J = onp.eye(n), onp.eye(m)
                put('x', 'x', D(2 * (self.p0 + self.P.T @ lam) / u**3 + 2 * (self.q0 + self.Q.T @ lam) / l**3)), put('x', 'lam', G.T), put('x', 'xsi', -I), put('x', 'eta', I)
                put('y', 'y', D(self.d)), put('y', 'mu', -J), put('y', 'lam', -J)
                put('z', 'zet', -1.), put('z', 'lam', -self.a.T)
                put('lam', 'x', G), put('lam', 'z', -self.a), put('lam', 'y', -J), put('lam', 's', J)
                put('xsi', 'xsi', D(x - self.alfa)), put('xsi', 'x', D(xsi)), put('eta', 'eta', D(self.beta - x)), put('eta', 'x', -D(eta))
                put('mu', 'mu', D(y)), put('mu', 'y', D(mu)), put('zet', 'zet', z), put('zet', 'z', zet), put('s', 's', D(lam)), put('s', 'lam', D(s))
                try:
                    dw = onp.linalg.solve(K, -r)
                except onp.linalg.LinAlgError:
                    return onp.inf
                step = onp.max(-1.01 * dw / (w - lo))
                step = max(step, onp.max(1.01 * dw[:n] / (self.beta[:, 0] - w[:n])), 1.)
                t = 1 / step
                for _ in range(50):
                    w2 = w + t * dw
                    r2 = F(split(w2), eps)
                    if onp.linalg.norm(r2) <= rn:
                        break
                    t /= 2
                w, r, rn = w2, r2, onp.linalg.norm(r2)
            eps *= .1
        return onp.abs(F(split(w), 0.)).max()


def asymptotes(k, x, xo1, xo2, low, upp, R):
    """k = number of the step, from 1"""
    if k <= 2:
        return x - .5 * R, x + .5 * R
    z = (x - xo1) * (xo1 - xo2)
    fac = onp.where(z > 0, 1.2, onp.where(z < 0, .7, 1.))
    return onp.clip(x - fac * (xo1 - low), x - 10 * R, x - .01 * R), onp.clip(x + fac * (upp - xo1), x + .01 * R, x + 10 * R)


def judge(M, S, xmin, xmax, x, move, k):
    """the state M is in after a step from x against the independent subproblem S; returns labels"""
    R = xmax - xmin
    v = [onp.asarray(t) for t in M.getOptimalValues() + M.getLagrangeMultipliers()] + [onp.asarray(M.getSlackValue())]
    for name, got, like in zip(('x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's'), v, (x, S.b, onp.ones((1, 1)), S.b, x, x, S.b, onp.ones((1, 1)), S.b)):
        require(got.shape == like.shape, "step %d: %s has shape %s, expected %s", k, name, got.shape, like.shape)
        require(onp.isfinite(got).all(), "step %d: %s is not finite", k, name)
        if name != 'x':
            require(got.min() >= 0., "step %d: negative %s: %.3g", k, name, got.min())
    X = v[0]
    tol = 1e-12 * (onp.abs(X) + R)
    require((X >= xmin - tol).all() and (X <= xmax + tol).all(), "step %d leaves the variable bounds", k)
    require((onp.abs(X - x) <= move * R + tol).all(), "step %d violates the move limit %g: %.6g of the range", k, move, (onp.abs(X - x) / R).max())
    require((X >= S.alfa - tol).all() and (X <= S.beta + tol).all(), "step %d leaves the box of the subproblem", k)
    r = S.residual(v)
    sc = {kk: 1. for kk in r}
    lam = v[3]
    sc['x'] = 1. + onp.abs((S.p0 + S.P.T @ lam) / (S.upp - X)**2).max() + onp.abs((S.q0 + S.Q.T @ lam) / (X - S.low)**2).max()
    sc['lam'] = 1. + onp.abs(S.b).max() + onp.abs(S.P).max() / (S.upp - X).min() * 1e-3
    sc['y'] = 1. + onp.abs(S.c).max()
    worst = max((onp.abs(r[kk]).max() / sc[kk], kk) for kk in r)
    if worst[0] > 2e-6:
        if S.reference() > 1e-6:
            return 'reference stalls'
        require(False, "step %d: optimality condition %r of the subproblem is violated by %.3g (relative to its terms)", k, worst[1], worst[0])
    return 'active' if lam.max() > 1e-3 else 'inactive'


@st.composite
def step_st(draw):
    big = st.sampled_from([1, 2, 3, 5, 9, 20, 40])
    return {'n': draw(big), 'm': draw(st.sampled_from([1, 1, 2, 3, 6, 12])), 'steps': draw(st.integers(1, 6)), 'move': draw(st.sampled_from([.02, .1, .2, .5, 1.])),
            'c': draw(st.sampled_from([10., 1000., 10000.])), 'd': draw(st.sampled_from([0., 0., 1.])), 'a': draw(st.booleans()), 'fscale': draw(st.sampled_from([.1, 1., 1., 10.])),
            'start': draw(st.sampled_from(['mid', 'random', 'bounds'])), 'warm': draw(st.booleans()), 'unit': draw(st.booleans()), 'smooth': draw(st.booleans()), 'seed': draw(fem.seeds())}


def run_step(case):
    rng = onp.random.default_rng(case['seed'])
    n, m, move = case['n'], case['m'], case['move']
    xmin = onp.zeros((n, 1)) if case['unit'] else rng.uniform(-2, 1, (n, 1)) * 10**rng.uniform(-1, 1)
    R = onp.ones((n, 1)) if case['unit'] else 10**rng.uniform(-1, 1, (n, 1))
    xmax = xmin + R
    R = xmax - xmin
    a = rng.uniform(0, 1, (m, 1)) * case['a']
    c, d = onp.full((m, 1), case['c']), onp.full((m, 1), case['d'])
    M = make_mma(m, n, xmin, xmax, a, c, d, move)
    x = xmin + R * {'mid': .5, 'random': rng.random((n, 1)), 'bounds': rng.integers(0, 2, (n, 1))}[case['start']]
    xo1, xo2 = x.copy(), x.copy()
    low = upp = onp.ones((n, 1))
    first = 1
    if case['warm']:        # resume somewhere in an optimisation: arbitrary last iterates and asymptotes
        first = 3
        xo1, xo2 = (xmin + R * rng.random((n, 1)) for _ in range(2))
        if rng.random() < .3:
            xo1 = onp.where(rng.random((n, 1)) < .3, x, xo1)
        low, upp = xo1 - R * 10**rng.uniform(-2.3, 1.3, (n, 1)), xo1 + R * 10**rng.uniform(-2.3, 1.3, (n, 1))
        for _ in range(2):
            M.registerMMAIter(x.copy(), xo1.copy(), xo2.copy())
        M.setLowerAndUpperAsymptotes(low.copy(), upp.copy())
    labels = []
    base = [rng.normal(size=(n, 1)), rng.normal(size=(m, n)), rng.normal(size=(m, 1))]
    for k in range(first, first + case['steps']):
        w = .3 if case['smooth'] else 1.
        df = ((1 - w) * base[0] + w * rng.normal(size=(n, 1))) * 10**rng.uniform(-2, 2) * (rng.random((n, 1)) < .9)
        dg = ((1 - w) * base[1] + w * rng.normal(size=(m, n))) * (rng.random((m, n)) < .9) / R.T
        f = ((1 - w) * base[2] + w * rng.normal(size=(m, 1))) * case['fscale']
        M.registerMMAIter(x.copy(), xo1.copy(), xo2.copy())
        M.setObjectiveWithGradient(1., df.copy())
        M.setConstraintWithGradient(f.copy(), dg.copy())
        M.mmasub(x.copy())
        low, upp = asymptotes(k, x, xo1, xo2, low, upp, R)
        L, U = M.getAsymptoteValues()
        close((L - x) / R, (low - x) / R, f"lower asymptotes in step {k}", 1e-9, 0)
        close((U - x) / R, (upp - x) / R, f"upper asymptotes in step {k}", 1e-9, 0)
        S = Sub(x, low, upp, xmin, xmax, move, df, f, dg, a, c, d)
        labels.append(judge(M, S, xmin, xmax, x, move, k))
        xo2, xo1, x = xo1, x, onp.array(M.getOptimalValues()[0])
    return {'nontrivial': 'active' in labels, 'labels': sorted(set(labels)) + [f'm<n={m < n}', f'steps={case["steps"]}', 'resumed' if case['warm'] else 'from the start'], 'observed': f'{labels}'}


@st.composite
def convex_st(draw):
    return {'n': draw(st.integers(1, 10)), 'm': draw(st.integers(1, 5)), 'kind': draw(st.sampled_from(['quad', 'recip', 'linear'])), 'move': draw(st.sampled_from([.1, .2, .5])),
            'coupled': draw(st.booleans()), 'unit': draw(st.booleans()), 'seed': draw(fem.seeds())}


def run_convex(case):
    from scipy.optimize import minimize
    rng = onp.random.default_rng(case['seed'])
    n, m, kind = case['n'], case['m'], case['kind']
    xmin = onp.zeros(n) if case['unit'] else rng.uniform(-2, 1, n)
    R = onp.ones(n) if case['unit'] else 10**rng.uniform(-.5, .5, n)
    B = rng.normal(size=(n, n)) * (.3 if case['coupled'] else 0.) / onp.sqrt(n)
    A = onp.diag(rng.uniform(.5, 5, n)) + B @ B.T
    t0 = rng.uniform(-.5, 1.5, n)
    rec = .3 if kind == 'recip' else 0.
    f = lambda t: .5 * (t - t0) @ A @ (t - t0) + onp.sum(rec / (t + .3))
    df = lambda t: A @ (t - t0) - rec / (t + .3)**2
    ts = rng.uniform(.2, .8, n)
    G = rng.normal(size=(m, n))
    q = rng.uniform(0, 2, (m, n)) * (kind != 'linear')
    c0 = G @ ts + .5 * q @ ts**2 + rng.uniform(.02, .3, m)
    g = lambda t: G @ t + .5 * q @ t**2 - c0
    dg = lambda t: G + q * t
    best = None
    for start in (ts, onp.full(n, .5), rng.random(n)):
        s = minimize(f, start, jac=df, bounds=[(0, 1)] * n, constraints=[{'type': 'ineq', 'fun': lambda t: -g(t), 'jac': lambda t: -dg(t)}], method='SLSQP',
                     options={'ftol': 1e-13, 'maxiter': 500})
        if g(s.x).max() < 1e-8 and (best is None or s.fun < best.fun):
            best = s
    assert best is not None
    M = make_mma(m, n, xmin[:, None], xmin[:, None] + R[:, None], onp.zeros((m, 1)), onp.full((m, 1), 1000.), onp.zeros((m, 1)), case['move'])
    x = (xmin + R * rng.random(n))[:, None]
    xo1, xo2 = x.copy(), x.copy()
    for k in range(45):
        t = (x[:, 0] - xmin) / R
        M.registerMMAIter(x, xo1, xo2)
        M.setObjectiveWithGradient(f(t), (df(t) / R)[:, None])
        M.setConstraintWithGradient(g(t)[:, None], dg(t) / R[None])
        M.mmasub(x)
        xo2, xo1, x = xo1, x, onp.array(M.getOptimalValues()[0])
    t = (x[:, 0] - xmin) / R
    lam = M.getLagrangeMultipliers()[0]
    require((lam >= 0).all() and (onp.asarray(M.getSlackValue()) >= 0).all(), "negative multiplier or slack")
    sc = 1. + abs(best.fun)
    require(g(t).max() <= 1e-2 and f(t) - best.fun <= 1e-2 * sc and onp.abs(t - best.x).max() <= .08,
            "after 45 iterations: objective above the optimum by %.3g, largest constraint %.3g, distance to the optimum %.3g of the range", f(t) - best.fun, g(t).max(), onp.abs(t - best.x).max())
    active = g(best.x).max() > -1e-6
    return {'nontrivial': bool(active), 'labels': [kind, f'm<n={m < n}', f'active={bool(active)}'], 'observed': f'objective gap {f(t) - best.fun:.3g}, distance {onp.abs(t - best.x).max():.3g}'}


# ------------------------------------------------------------------------------------------------ the loop
@st.composite
def loop_st(draw):
    ele = draw(st.sampled_from(['QUAD4', 'QUAD4', 'HEX8', 'TRI3']))
    return {'mesh': {'ele': ele, 'n': {'QUAD4': [6, 4], 'HEX8': [3, 2, 2], 'TRI3': [3, 3]}[ele], 'seed': draw(fem.seeds()), 'grade': True, 'jitter': .1, 'curve': 0., 'affine': False, 'shuffle': False},
            'frac': draw(st.sampled_from([1., .7, .3])), 'k': draw(st.sampled_from([1, 1, 2])), 'm': draw(st.integers(1, 3)), 'iters': draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 6])),
            'move': draw(st.sampled_from([.05, .1, .3])), 'dens': draw(st.booleans()), 'sens': draw(st.sampled_from([True, True, False])), 'jax': draw(st.booleans()), 'seed': draw(fem.seeds())}


def run_loop(case):
    import jax.numpy as np
    from jax_fem import mma
    rng = onp.random.default_rng(case['seed'])
    rm = fem.make_mesh(case['mesh'])
    nc, k, m = len(rm.cells), case['k'], case['m']
    flex = onp.sort(rng.permutation(nc)[:max(1, int(case['frac'] * nc))])
    nf = len(flex)
    fe = sut.make_fe(rm)
    fe.flex_inds = flex
    rho0 = rng.uniform(.1, .9, (nf, k))
    tgt, G, wob = rng.uniform(0, 1, (nf, k)), rng.uniform(.2, 1, (m, nf, k)), rng.normal(size=(8, nf, k))
    G /= G.sum((1, 2), keepdims=True)
    bound = rng.uniform(.3, .6, m)
    conv = np.asarray if case['jax'] else onp.asarray
    log = []

    def objective(rho):
        r = onp.asarray(rho)
        log.append(['J', r.copy()])
        dJ = 2 * (r - tgt) + .3 * wob[len(log) % 8]
        log[-1].append(dJ)
        return conv(onp.sum((r - tgt)**2)), conv(dJ)

    def constraint(rho, it):
        r = onp.asarray(rho)
        vc = onp.einsum('mik,ik->m', G, r) / bound - 1.
        dv = G / bound[:, None, None] * 1.
        log.append(['c', r.copy(), it, vc, dv])
        return conv(vc), conv(dv)
    old = mma.density_filtering, mma.sensitivity_filtering
    mma.density_filtering, mma.sensitivity_filtering = case['dens'], case['sens']
    try:
        start = rho0.copy()
        out = onp.asarray(mma.optimize(fe, start, {'maxIters': case['iters'], 'movelimit': case['move']}, objective, constraint, m))
    finally:
        mma.density_filtering, mma.sensitivity_filtering = old
    require(onp.array_equal(start, rho0), "optimize changed the caller's initial design")
    require(out.shape == rho0.shape, "design of shape %s returned for %s", out.shape, rho0.shape)
    require((out >= 0).all() and (out <= 1).all(), "design outside [0, 1]: %g..%g", out.min(), out.max())
    Jc, cc = [e for e in log if e[0] == 'J'], [e for e in log if e[0] == 'c']
    require(len(Jc) == len(cc) == case['iters'], "%d objective and %d constraint calls in %d iterations", len(Jc), len(cc), case['iters'])
    require([e[2] for e in cc] == list(range(1, case['iters'] + 1)), "iteration numbers passed: %s", [e[2] for e in cc])
    # the filter by its definition, the step by the class verified in sub 'step'
    cen = rm.points[rm.cells].mean(1)[flex]
    r = 1.5 * (rm.tabulate(None)[3].sum() / nc)**(1 / rm.dim)
    H = onp.maximum(0., r - onp.linalg.norm(cen[:, None] - cen[None], axis=2))
    hs = H.sum(1)[:, None]
    n = nf * k
    one = onp.ones((n, 1))
    x = rho0.reshape(-1, 1)
    xo1, xo2, low, upp = x.copy(), x.copy(), one, one
    labels = []
    for it in range(1, case['iters'] + 1):
        rho = x.reshape(nf, k)
        phys = H @ rho / hs if case['dens'] else rho
        J, c = Jc[it - 1], cc[it - 1]
        close(J[1], phys, f"design passed to the objective in iteration {it}", 0, 1e-9)
        close(c[1], phys, f"design passed to the constraint in iteration {it}", 0, 1e-9)
        dJ, dv = J[2], c[4]
        if case['sens']:
            w = rho / onp.maximum(1e-3, rho) / hs
            dJ, dv = H @ (w * dJ), onp.einsum('ij,mjk->mik', H, w[None] * dv)
        low, upp = asymptotes(it, x, xo1, xo2, low, upp, one)
        S = Sub(x, low, upp, 0 * one, one, case['move'], dJ.reshape(-1, 1), c[3][:, None], dv.reshape(m, -1), onp.zeros((m, 1)), onp.full((m, 1), 10000.), onp.zeros((m, 1)))
        nxt = (Jc[it][1] if it < case['iters'] else out)
        M = make_mma(m, n, 0 * one, one, onp.zeros((m, 1)), onp.full((m, 1), 10000.), onp.zeros((m, 1)), case['move'])
        M.epoch = 0
        if it > 2:
            M.setLowerAndUpperAsymptotes(*last)
        for _ in range(it):
            M.registerMMAIter(x, xo1, xo2)
        M.setObjectiveWithGradient(1., dJ.reshape(-1, 1))
        M.setConstraintWithGradient(c[3][:, None], dv.reshape(m, -1))
        M.mmasub(x)
        last = M.getAsymptoteValues()
        labels.append(judge(M, S, 0 * one, one, x, case['move'], it))
        new = onp.array(M.getOptimalValues()[0])
        seen = onp.asarray(nxt)
        exp = new.reshape(nf, k)
        if it < case['iters'] and case['dens']:
            exp = H @ exp / hs
        if labels[-1] == 'reference stalls':
            break
        close(seen, exp, f"design after iteration {it}", 0, 1e-6)
        xo2, xo1, x = xo1, x, new
    else:
        require((onp.abs(out - xo1.reshape(nf, k)) <= case['move'] + 1e-12).all() or case['iters'] == 0, "the last step exceeds the move limit")
        if case['iters'] == 0:
            require(onp.array_equal(out, rho0), "no iteration, but another design is returned")
    return {'nontrivial': case['iters'] > 0, 'labels': [rm.ele, f'iters={case["iters"]}', f'filters={case["dens"]}/{case["sens"]}', f'fields={k}'] + sorted(set(labels)),
            'observed': f'{nf} cells, {case["iters"]} iterations'}


SUBS = {'step': {'strategy': step_st, 'run': run_step, 'examples': {'quick': 640, 'thorough': 12000}, 'weight': 1},
        'convex': {'strategy': convex_st, 'run': run_convex, 'examples': {'quick': 80, 'thorough': 3000}, 'weight': 1},
        'loop': {'strategy': loop_st, 'run': run_loop, 'examples': {'quick': 96, 'thorough': 4000}, 'weight': 1}}

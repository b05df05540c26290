"""C08: reverse-mode derivatives."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models
from pbt.core import require, close, Violation

RULE = """A case is a uniquely solvable problem (linear or nonlinear, symmetric or not, one to three variables, surface terms,
optionally reduced by a random prolongation matrix), a random smooth map from a parameter vector to internal variables, surface
variables and prescribed values, one of five pytree layouts of that vector, a random smooth objective of all solution fields,
an adjoint linear backend and a sequence of two to three gradient / pullback calls on one wrapper.  Each gradient is compared
with the exact sensitivity computed by the independent NumPy model (dense tangent, complex-step parameter derivative).
Non-trivial: the parameters enter through at least one internal variable, surface variable or prescribed value."""
BUDGET_S = {'quick': 80, 'thorough': 1800}
CASE_CPU_S = 200
NP = 5          # number of scalar parameters


@st.composite
def case_st(draw):
    tpl = [t for t in models.TEMPLATES if t['ivs'] or any(t['surfs'])] if draw(st.integers(0, 3)) else None
    c = draw(models.solvable_case(templates=tpl))
    c['layout'] = draw(st.sampled_from(['array', 'dict', 'tuple', 'nested', 'scalars']))
    c['adjoint'] = draw(st.sampled_from(['default', 'jax', 'spsolve', 'spsolve', 'petsc', 'custom']))
    c['flow'] = draw(st.lists(st.sampled_from(['grad', 'pullback', 'late_pullback', 'directional']), min_size=2, max_size=3))
    c['P'] = draw(st.sampled_from([0, 0, 0, 1, 3]))
    c['pseed'] = draw(fem.seeds())
    return c


def pack(v, layout):
    import jax.numpy as np
    v = np.asarray(v)
    return {'array': lambda: v, 'dict': lambda: {'a': v[:2], 'b': v[2:]}, 'tuple': lambda: (v[:1], v[1:].reshape(2, 2)),
            'nested': lambda: [{'x': v[0]}, [v[1:3], (v[3], v[4:])]], 'scalars': lambda: [v[i] for i in range(NP)]}[layout]()


class Model:
    """theta -> (internal variables, surface variables, Dirichlet values); xp is numpy or jax.numpy"""

    def __init__(self, S, rng):
        self.S = S
        self.mv = [rng.uniform(-1, 1, (NP,) + a.shape) for a in S.ivs]
        self.ms = [[rng.uniform(-1, 1, (NP,) + a.shape) for a in l] for l in S.surf_ivs]
        p = S.problem
        self.bc = [[(onp.asarray(v), rng.uniform(-1, 1, (NP, len(v)))) for v in fe.vals_list] for fe in p.fes]

    def feats(self, xp, t):
        return xp.stack([t[0], xp.sin(t[1]), t[2] * t[3], xp.exp(0.3 * t[3]), t[4]])

    def ivs(self, xp, t):
        f = self.feats(xp, t)
        return [xp.asarray(a) + xp.tensordot(f, xp.asarray(m), 1) for a, m in zip(self.S.ivs, self.mv)]

    def sivs(self, xp, t):
        f = self.feats(xp, t)
        return [[xp.asarray(a) + xp.tensordot(f, xp.asarray(m), 1) for a, m in zip(l, ml)] for l, ml in zip(self.S.surf_ivs, self.ms)]

    def vals(self, xp, t):
        f = self.feats(xp, t)
        return [[xp.asarray(v) + f @ xp.asarray(m) for v, m in l] for l in self.bc]

    def ref_bc(self, t):
        """dof -> value"""
        out, off = {}, self.S.offsets
        for i, (fe, vals) in enumerate(zip(self.S.problem.fes, self.vals(onp, t))):
            for nodes, comps, v in zip(fe.node_inds_list, fe.vec_inds_list, vals):
                for n, c, x in zip(onp.asarray(nodes), onp.asarray(comps), v):
                    out[int(off[i] + n * self.S.vecs[i] + c)] = x
        return out

    def apply_ref(self, t):
        self.S.set_ref(self.ivs(onp, t), self.sivs(onp, t), self.ref_bc(t))


def run(case):
    import jax
    import jax.numpy as np
    from jax.flatten_util import ravel_pytree
    from jax_fem.solver import ad_wrapper
    S = models.Setup(case)
    S.prepare_ref()
    p = S.problem
    rng = onp.random.default_rng(case['pseed'])
    M = Model(S, rng)
    P = models.make_P(S, rng, case['P']) if case['P'] else None
    if P is not None:
        import scipy.sparse as sps
        p.P_mat = sps.csr_array(P)

    def set_params(params):
        t = ravel_pytree(params)[0]
        p.internal_vars = M.ivs(np, t)
        p.internal_vars_surfaces = M.sivs(np, t)
        for fe, vals in zip(p.fes, M.vals(np, t)):
            fe.vals_list = vals
    p.set_params = set_params
    from checks.c06 import custom
    adj = {'default': {}, 'jax': {'jax_solver': {}}, 'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {}},
           'custom': {'custom_solver': custom}}[case['adjoint']]
    fwd = ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9, 'rel_tol': 1e-14}}, adj)
    n = int(S.offsets[-1])
    w, tgt, q = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), rng.uniform(0, 1, n)

    def J(xp, u):
        return xp.sum(w * xp.sin(u)) + 0.5 * xp.sum(q * (u - tgt)**2)

    def Ju(u):
        return w * onp.cos(u) + q * (u - tgt)

    def reference(t):
        M.apply_ref(t)
        u = models.ref_solve(S, P=P)
        K = models.ref_tangent(S, u)
        Pd = onp.eye(n) if P is None else P.toarray()
        R = onp.zeros((n, NP))
        for k in range(NP):
            tc = t.astype(complex)
            tc[k] += 1e-30j
            M.apply_ref(tc)
            R[:, k] = onp.imag(models.bc_residual(S, S.unflat(u.astype(complex)))) / 1e-30
        M.apply_ref(t)
        du = -Pd @ onp.linalg.solve(Pd.T @ K @ Pd, Pd.T @ R)
        return u, du

    def obj(params):
        sol = fwd(params)
        return J(np, ravel_pytree(sol)[0])

    rtol = 2e-3 if case['adjoint'] == 'petsc' else 1e-6
    ts = [rng.uniform(-1, 1, NP) for _ in range(3)]
    refs, late = {}, []
    for k, kind in enumerate(case['flow']):
        t = ts[k]
        u, du = refs.setdefault(k, reference(t))
        params = pack(t, case['layout'])
        flat, _ = ravel_pytree(params)
        close(flat, t, "harness: layout", 1e-15, 0)
        gref = Ju(u) @ du
        gs = onp.abs(Ju(u)[:, None] * du).sum(0).max() + 1e-8
        what = f"call {k} ({kind}, layout {case['layout']}, adjoint {case['adjoint']})"
        if kind == 'grad':
            val, g = jax.value_and_grad(obj)(params)
            close(val, J(onp, u), f"objective of {what}", 1e-7, 0, scale=1 + onp.abs(J(onp, u)))
            require(jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(params), "gradient layout differs from the parameters' in %s", what)
            close(ravel_pytree(g)[0], gref, f"gradient of {what}", rtol, 1e-9, scale=gs)
        elif kind == 'directional':
            h = rng.uniform(-1, 1, NP)
            hp = pack(h, case['layout'])
            g = jax.grad(lambda s: obj(jax.tree_util.tree_map(lambda a, b: a + s * b, params, hp)))(0.)
            close(g, gref @ h, f"derivative along a line, {what}", rtol, 1e-9, scale=gs * onp.abs(h).sum())
        else:
            sol, pull = jax.vjp(fwd, params)
            close(ravel_pytree(sol)[0], u, f"solution of {what}", 1e-6, 0, scale=1 + onp.abs(u).max())
            v = rng.uniform(-1, 1, n)
            if kind == 'late_pullback':
                late.append((pull, v, v @ du, onp.abs(v[:, None] * du).sum(0).max() + 1e-8, what))
            else:
                for vv in (v, -2. * v):
                    g, = pull([np.asarray(s) for s in S.unflat(vv)])
                    close(ravel_pytree(g)[0], vv @ du, f"pullback of {what}", rtol, 1e-9, scale=onp.abs(vv[:, None] * du).sum(0).max() + 1e-8)
    for pull, v, want, sc, what in late:        # pulled back after other forward solves
        g, = pull([np.asarray(s) for s in S.unflat(v)])
        close(ravel_pytree(g)[0], want, f"late pullback of {what}", rtol, 1e-9, scale=sc)
    nt = bool(case['ivs'] or any(s['ivs'] for s in case['surfs']) or case['bcs'])
    return {'nontrivial': nt, 'labels': models.case_labels(case) + ['adjoint=' + case['adjoint'], 'layout=' + case['layout'], case['mono'],
                                                                   f'P={bool(case["P"])}'] + ['flow=' + f for f in case['flow']] +
            (['dirichlet params'] if case['bcs'] else []) + (['surface params'] if any(s['ivs'] for s in case['surfs']) else []),
            'observed': f'gradient {onp.round(gref, 6).tolist()}'}


SUBS = {'adjoint': {'strategy': case_st, 'run': run, 'examples': {'quick': 96, 'thorough': 3000}}}

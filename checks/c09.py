"""C09: histories on reused problem objects (model-based)."""
import numpy as onp
from hypothesis import strategies as st
from pbt import fem, models, sut
from pbt.core import require, close, Violation

RULE = """A case is one or two problem objects (random monotone laws, one or two variables, surface terms, internal variables) and
a sequence of 4 to 10 operations on them: residual, tangent, system matrix, solve (various guesses, backends, stop at a loose
tolerance), gradient, pullback, parameter change, replacement of all Dirichlet conditions of a variable, replacement, append,
removal or value edit of one set, a solve that raises, interleaved between the objects.  The model is the independent NumPy
problem with the current parameters and conditions (what a freshly built problem would compute); at the end a problem is freshly
built with them and compared too.  Non-trivial: at least one observation follows a change of conditions or parameters which
itself follows an earlier tangent, solve or gradient on the same object."""
BUDGET_S = {'quick': 80, 'thorough': 1800}
CASE_CPU_S = 240
T = models.TEMPLATES
POOL = [T[0], T[2], T[3], T[8], T[7]]
NP = 3
OBSERVE = ['residual', 'tangent', 'matrix', 'solve', 'solve_loose', 'grad', 'pullback']
CHANGE = ['params', 'raw_ivs', 'update_bc', 'update_bc', 'clear_bc', 'edit_vals', 'edit_nodes', 'edit_comp', 'append_bc', 'drop_bc', 'swap_bc', 'raise']


@st.composite
def case_st(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    probs = [draw(models.solvable_case(templates=POOL, max_bcs=2)) for _ in range(k)]
    ops = []
    for _ in range(draw(st.integers(4, 10))):
        ops.append([draw(st.integers(0, k - 1)), draw(st.one_of(st.sampled_from(OBSERVE), st.sampled_from(CHANGE))), draw(fem.seeds())])
    return {'probs': probs, 'ops': ops, 'pseed': draw(fem.seeds())}


class Obj:
    """a problem under test and the model of its current conditions and parameters"""

    def __init__(self, case, rng):
        from checks.c08 import Model
        from jax_fem.solver import ad_wrapper
        from jax.flatten_util import ravel_pytree
        import jax.numpy as np
        self.case = case
        self.S = S = models.Setup(case)
        S.prepare_ref()
        self.M = Model(S, rng)
        self.theta = onp.zeros(5)
        self.off = [onp.zeros_like(a) for a in S.ivs]
        # current sets per variable: list of (nodes, comps, vals) as the library holds them
        self.sets = [[(onp.asarray(n), onp.asarray(c), onp.asarray(v)) for n, c, v in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list)]
                     for fe in S.problem.fes]
        p = S.problem

        def set_params(params):
            t = ravel_pytree(params)[0]
            p.internal_vars = self.M.ivs(np, t)
            p.internal_vars_surfaces = self.M.sivs(np, t)
        p.set_params = set_params
        self.wrapper = ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9, 'rel_tol': 1e-14}}, {'spsolve_solver': {}})
        self.raw = None            # internal variables set directly
        self.touched = self.changed_after_touch = False
        set_params(np.asarray(self.theta))

    def ivs(self, t=None):
        return self.raw if self.raw is not None else self.M.ivs(onp, self.theta if t is None else t)

    def bc(self):
        out, off = {}, self.S.offsets
        for i, sets in enumerate(self.sets):
            for nodes, comps, vals in sets:
                for n, c, v in zip(nodes, comps, vals):
                    out[int(off[i] + n * self.S.vecs[i] + c)] = float(v)
        return out

    def refresh(self, t=None):
        t = self.theta if t is None else t
        self.S.set_ref(self.ivs(t), self.M.sivs(onp, t), self.bc())

    def matrix(self, u):
        K = self.S.ref_jvp(self.S.unflat(u), onp.eye(len(u)))
        rows = onp.array(sorted(self.bc()), dtype=int)
        K[rows] = 0.
        K[rows, rows] = 1.
        return K

    def well_posed(self):
        if any(k in ('mass', 'univ') for k in self.case['kinds']):
            return True
        have = {(i, int(c)) for i, sets in enumerate(self.sets) for n, cs, v in sets for c in cs}
        return all((i, c) in have for i, v in enumerate(self.S.vecs) for c in range(v))

    def ref_solution(self):
        S = self.S
        u = onp.zeros(int(S.offsets[-1]))
        for d, v in self.bc().items():
            u[d] = v
        r = models.bc_residual(S, S.unflat(u))
        for _ in range(30):
            rn = onp.linalg.norm(r)
            if rn < 1e-12:
                break
            du = onp.linalg.solve(self.matrix(u), -r)
            a = 1.
            while True:
                r2 = models.bc_residual(S, S.unflat(u + a * du))
                if onp.linalg.norm(r2) < rn * (1 - 1e-4 * a) or a < 1e-3:
                    break
                a /= 2
            if onp.linalg.norm(r2) >= rn:
                break
            u, r = u + a * du, r2
        assert onp.linalg.norm(r) < 1e-8
        return u

    def new_set(self, rng, i, avoid):
        """a random Dirichlet set of variable i on dofs not in avoid; None if none left"""
        S = self.S
        n = len(S.rms[i].points)
        c = int(rng.integers(S.vecs[i]))
        free = [k for k in range(n) if (k, c) not in avoid]
        if not free:
            return None
        m = min(len(free), int(rng.choice([1, 2, 4])))
        nodes = onp.sort(rng.choice(free, size=m, replace=False))
        return nodes, onp.full(m, c), rng.uniform(-1, 1, m)


def info_of(obj, i, sets):
    """the sets as location/component/value functions for update_Dirichlet_boundary_conditions"""
    import jax.numpy as np
    pts = obj.S.rms[i].points
    locs, comps, vals = [], [], []
    for nodes, cs, vs in sets:
        if not len(nodes):          # a set that selects nothing
            continue
        X = np.asarray(pts[nodes])
        V = np.asarray(vs)
        locs.append(sut.in_set_fn(nodes))
        comps.append(int(cs[0]))
        vals.append(lambda x, X=X, V=V: V[np.argmin(np.sum((X - x)**2, axis=1))])
    return [locs, comps, vals]


def taken(sets, skip=None):
    return {(int(n), int(c)) for k, (ns, cs, _) in enumerate(sets) if k != skip for n, c in zip(ns, cs)}


def change(o, kind, rng):
    import jax.numpy as np
    S = o.S
    p = S.problem
    i = int(rng.integers(S.nvars))
    fe, sets = p.fes[i], o.sets[i]
    if kind == 'params':
        o.theta = rng.uniform(-1, 1, 5)
        o.raw = None
        p.set_params(np.asarray(o.theta))
    elif kind == 'raw_ivs':
        if not S.ivs:
            return False
        o.raw = [rng.uniform(-1, 1, a.shape) for a in S.ivs]
        p.internal_vars = [np.asarray(a) for a in o.raw]
    elif kind in ('update_bc', 'clear_bc'):
        new = []
        for _ in range(int(rng.integers(1, 4)) if kind == 'update_bc' else 0):
            s = o.new_set(rng, i, taken(new))
            if s is not None:
                new.append(s)
        o.sets[i] = new
        fe.update_Dirichlet_boundary_conditions(info_of(o, i, new) if new else None)
    elif kind in ('edit_vals', 'edit_nodes', 'edit_comp', 'drop_bc'):
        if not sets:
            return False
        k = int(rng.integers(len(sets)))
        ns, cs, vs = sets[k]
        if not len(ns) and kind != 'drop_bc':
            return False
        if kind == 'edit_vals':
            vs = rng.uniform(-1, 1, len(ns))
            fe.vals_list[k] = np.asarray(vs)
        elif kind == 'drop_bc':
            del sets[k]
            for l in (fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
                del l[k]
            return True
        elif kind == 'edit_nodes':
            av = taken(sets, k)
            c = int(cs[0])
            free = [n for n in range(len(S.rms[i].points)) if (n, c) not in av]
            if len(free) < len(ns):
                return False
            ns = onp.sort(rng.choice(free, size=len(ns), replace=False))
            fe.node_inds_list[k] = np.asarray(ns)
        else:
            c = int(rng.integers(S.vecs[i]))
            if any((int(n), c) in taken(sets, k) for n in ns):
                return False
            cs = onp.full(len(ns), c)
            fe.vec_inds_list[k] = np.asarray(cs)
        sets[k] = (ns, cs, vs)
    elif kind == 'append_bc':
        s = o.new_set(rng, i, taken(sets))
        if s is None:
            return False
        sets.append(s)
        fe.node_inds_list = list(fe.node_inds_list) + [np.asarray(s[0])]
        fe.vec_inds_list = list(fe.vec_inds_list) + [np.asarray(s[1])]
        fe.vals_list = list(fe.vals_list) + [np.asarray(s[2])]
    elif kind == 'swap_bc':
        if len(sets) < 2:
            return False
        sets.reverse()
        for l in (fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
            l.reverse()
    elif kind == 'raise':
        from jax_fem.solver import solver

        def boom(A, b, x0, opts):
            raise ZeroDivisionError('planned')
        try:
            solver(p, {'newton': {'linear': {'custom_solver': boom}, 'initial_guess': [np.asarray(s) for s in S.random_state()], 'tol': 0., 'rel_tol': 0.}})
        except ZeroDivisionError:
            pass
    return True


def observe(o, kind, rng, what, p=None):
    import jax
    import jax.numpy as np
    import scipy.sparse as sps
    from jax.flatten_util import ravel_pytree
    from jax_fem.solver import solver
    S = o.S
    fresh = p is not None
    p = S.problem if p is None else p
    o.refresh()
    n = int(S.offsets[-1])
    state = rng.uniform(-1, 1, n)
    sols = [np.asarray(s) for s in S.unflat(state)]
    if kind == 'residual':
        ref = S.flat(S.ref_residual(S.unflat(state)))
        close(ravel_pytree(p.compute_residual(sols))[0], ref, f"residual ({what})", 1e-10, 0)
    elif kind in ('tangent', 'matrix'):
        K = S.ref_jvp(S.unflat(state), onp.eye(n))
        if kind == 'tangent':
            p.newton_update(sols)
            got = sps.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(n, n)).toarray()
        else:
            seen = {}

            class Stop(Exception):
                pass

            def grab(A, b, x0, opts):
                ptr, ind, val = A.getValuesCSR()
                seen.update(A=sps.csr_matrix((val, ind, ptr), shape=A.getSize()).toarray(), b=onp.asarray(b))
                raise Stop()
            try:
                solver(p, {'newton': {'linear': {'custom_solver': grab}, 'initial_guess': sols, 'tol': 0., 'rel_tol': 0.}})
            except Stop:
                pass
            K, got = o.matrix(state), seen['A']
            r = models.bc_residual(S, S.unflat(state))
            close(seen['b'], -r, f"right-hand side ({what})", 1e-10, 0, scale=onp.abs(state).max())
        close(got, K, f"{kind} ({what})", 1e-9, 0)
    elif kind in ('solve', 'solve_loose'):
        if not o.well_posed():
            return False
        u = o.ref_solution()
        opts = {'linear': {'spsolve_solver': {}} if rng.random() < .8 else {'petsc_solver': {}}, 'tol': 1e-9 if kind == 'solve' else 1e-2, 'rel_tol': 1e-13}
        if rng.random() < .4:
            opts['initial_guess'] = sols
        got = S.flat(solver(p, {'newton': opts}))
        if kind == 'solve':
            close(got, u, f"solution ({what})", 1e-6, 0, scale=1 + onp.abs(u).max())
        else:
            r = onp.linalg.norm(models.bc_residual(S, S.unflat(got)))
            require(r <= 1.0001e-2, "residual %.3g of the solution (%s)", r, what)
    else:
        if not o.well_posed() or fresh:
            return False
        o.raw = None
        t = rng.uniform(-1, 1, 5)
        o.theta = t               # the forward call sets these parameters on the problem
        o.refresh()
        u = o.ref_solution()
        K = o.matrix(u)
        R = onp.zeros((n, 5))
        for k in range(5):
            tc = t.astype(complex)
            tc[k] += 1e-30j
            S.set_ref(o.M.ivs(onp, tc), o.M.sivs(onp, tc), o.bc())
            R[:, k] = onp.imag(models.bc_residual(S, S.unflat(u.astype(complex)))) / 1e-30
        o.refresh()
        du = -onp.linalg.solve(K, R)
        w = rng.uniform(-1, 1, n)
        want, sc = w @ du, onp.abs(w[:, None] * du).sum(0).max() + 1e-8
        if kind == 'grad':
            g = jax.grad(lambda q: np.sum(w * ravel_pytree(o.wrapper(q))[0]))(np.asarray(t))
        else:
            _, pull = jax.vjp(o.wrapper, np.asarray(t))
            g, = pull([np.asarray(s) for s in S.unflat(w)])
        close(g, want, f"{kind} ({what})", 1e-6, 1e-9, scale=sc)
    return True


def run(case):
    import jax.numpy as np
    rng0 = onp.random.default_rng(case['pseed'])
    objs = [Obj(c, rng0) for c in case['probs']]
    nontrivial, done = False, []
    for step, (k, kind, seed) in enumerate(case['ops']):
        o = objs[k]
        rng = onp.random.default_rng(seed)
        what = f"object {k}, operation {step} of {[op[:2] for op in case['ops'][:step + 1]]}"
        if kind in CHANGE:
            ok = change(o, kind, rng)
            if ok and o.touched:
                o.changed_after_touch = True
        else:
            ok = observe(o, kind, rng, what)
            if ok:
                nontrivial |= o.changed_after_touch
                o.touched |= kind != 'residual'
        done.append(kind if ok else 'n/a')
    # finally every object must agree with the model, and so must a freshly built problem
    rng = onp.random.default_rng(case['pseed'] + 1)
    for k, o in enumerate(objs):
        for kind in ('residual', 'matrix', 'solve'):
            observe(o, kind, rng, f"object {k} at the end of {[op[:2] for op in case['ops']]}")
        p = o.S.build()
        p.internal_vars = [np.asarray(a) for a in o.ivs()]
        p.internal_vars_surfaces = [[np.asarray(a) for a in l] for l in o.M.sivs(onp, o.theta)]
        for i, fe in enumerate(p.fes):
            fe.update_Dirichlet_boundary_conditions(info_of(o, i, o.sets[i]) if o.sets[i] else None)
        for kind in ('residual', 'matrix'):
            observe(o, kind, rng, f"freshly built problem {k}", p)
        nontrivial |= o.changed_after_touch
    return {'nontrivial': nontrivial, 'labels': [f'objects={len(objs)}'] + ['op=' + d for d in done] +
            [l for c in case['probs'] for l in models.case_labels(c)[:2]], 'observed': ' '.join(done)}


SUBS = {'history': {'strategy': case_st, 'run': run, 'examples': {'quick': 88, 'thorough': 2500}}}

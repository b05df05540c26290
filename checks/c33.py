"""C33: the distributed Poisson drivers give the serial answer, whatever the partition of the mesh."""
import os
import re
import sys
import time
import types
import numpy as onp
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from hypothesis import strategies as st
from pbt import app, fem
from pbt.core import require, close, quiet, Skip
from pbt.ranks import World, FakeMPI, FakePETSc

RULE = """Sub 'element': element stiffness and load on random triangles of either orientation.  Sub 'gold': residual, tangent and Newton solution of the
serial manufactured problem on random triangulations, and its main program.  Sub 'serial': both distributed main programs on one rank with the real PETSc.
Sub 'ranks': both main programs on 1 to 5 simulated ranks (threads), random partitions (also ranks without boundary vertices, ranks owning no vertex),
random vertex owners and numberings, against a serial NumPy solution of the same mesh.  Non-trivial: more than one rank and a vertex shared between ranks."""
BUDGET_S = {'quick': 75, 'thorough': 900}
CASE_CPU_S = 240


def modules():
    """the drivers, with stand-ins for mpi4py where it is not installed"""
    if 'c33_mods' in modules.__dict__:
        return modules.__dict__['c33_mods']
    try:
        import mpi4py                     # noqa: F401
    except ImportError:
        from petsc4py import PETSc

        class OneRank(PETSc.Comm):
            Get_rank = lambda self: 0
            Get_size = lambda self: 1
            allreduce = lambda self, v, op=None: v
            gather = lambda self, v, root=0: [v]
            allgather = lambda self, v: [v]
            bcast = lambda self, v, root=0: v
            Barrier = lambda self: None

            def Allreduce(self, a, b, op=None):
                b[...] = a

        MPI = types.SimpleNamespace(COMM_WORLD=OneRank(PETSc.COMM_WORLD), SUM='SUM', MAX='MAX', MIN='MIN', Wtime=time.perf_counter)
        m = types.ModuleType('mpi4py')
        m.MPI = MPI
        sys.modules['mpi4py'] = m
        sys.modules['mpi4py.MPI'] = MPI
    path, argv = list(sys.path), sys.argv
    sys.argv = argv[:1]
    try:
        out = {k: app.load(f'/applications/parallel/{f}.py', f'c33_{k}') for k, f in (('gold', 'poisson_gold'), ('example', 'example'), ('mpi', 'poisson_mpi'))}
    finally:
        sys.path[:], sys.argv = path, argv
    modules.__dict__['c33_mods'] = out
    return out


# ------------------------------------------------------------------------------------------------------ triangulations

@st.composite
def tri_st(draw, small=2, big=5):
    return {'n': [draw(st.integers(small, big)), draw(st.integers(small, big))], 'jitter': draw(st.sampled_from([0., .2, .3])), 'shuffle': draw(st.booleans()), 'seed': draw(fem.seeds())}


def triangulation(case):
    nx, ny = case['n']
    rng = onp.random.default_rng(case['seed'])
    P = onp.array([[i / nx, j / ny] for i in range(nx + 1) for j in range(ny + 1)])
    inside = ((P > 1e-6) & (P < 1 - 1e-6)).all(1)
    P[inside] += case['jitter'] * rng.uniform(-1, 1, (inside.sum(), 2)) / onp.array([nx, ny])
    C = []
    for i in range(nx):
        for j in range(ny):
            a, b, c, d = i * (ny + 1) + j, (i + 1) * (ny + 1) + j, (i + 1) * (ny + 1) + j + 1, i * (ny + 1) + j + 1
            C += [(a, b, c), (a, c, d)] if not case['shuffle'] or rng.random() < .5 else [(a, b, d), (b, c, d)]
    C = onp.array(C, onp.int32)
    if case['shuffle']:
        p = rng.permutation(len(P))
        q = onp.empty(len(P), int)
        q[p] = onp.arange(len(P))
        P, C = P[p], q[C]
        C = onp.array([onp.roll(c, rng.integers(3)) for c in C[rng.permutation(len(C))]], onp.int32)
    J = onp.stack([P[C[:, 1]] - P[C[:, 0]], P[C[:, 2]] - P[C[:, 0]]], -1)
    if (onp.linalg.det(J) < 1e-4).any():
        raise Skip("folded cell")
    return P, onp.ascontiguousarray(C, onp.int32)


def boundary(P):
    return ((onp.abs(P) < 1e-9) | (onp.abs(P - 1) < 1e-9)).any(1)


def element(v):
    e = onp.array([v[(i + 2) % 3] - v[(i + 1) % 3] for i in range(3)])              # edge opposite to each vertex
    area = .5 * abs(e[1][0] * e[2][1] - e[1][1] * e[2][0])
    return (e @ e.T) / (4 * area), area


exact = lambda P: onp.sin(onp.pi * P[..., 0]) * onp.sin(onp.pi * P[..., 1])


def serial_linear(P, C):
    """P1, load sampled at the centroid"""
    n = len(P)
    K, b = onp.zeros((n, n)), onp.zeros(n)
    for c in C:
        k, a = element(P[c])
        K[onp.ix_(c, c)] += k
        b[c] += a / 3 * 2 * onp.pi**2 * exact(P[c].mean(0))
    bd = boundary(P)
    K[bd] = 0.
    K[bd, bd] = 1.
    b[bd] = 0.
    return K, b


class Nonlinear:
    def __init__(self, P, C):
        self.P, self.C = P, C
        rm = fem.RefMesh('TRI3', P, C)
        self.x, self.N, self.G, self.JxW = rm.tabulate()
        ue = exact(self.x)
        self.f = 2 * onp.pi**2 * ue + ue**3
        self.bd = boundary(P)

    def res(self, u):
        c = self.C
        uq = u[c] @ self.N.T
        g = onp.einsum('ca,cqai->cqi', u[c], self.G)
        r = onp.einsum('cqi,cqai,cq->ca', g, self.G, self.JxW) + onp.einsum('cq,qa,cq->ca', uq**3 - self.f, self.N, self.JxW)
        out = onp.zeros(len(self.P))
        onp.add.at(out, c, r)
        return out

    def tangent(self, u):
        uq = u[self.C] @ self.N.T
        k = onp.einsum('cqai,cqbi,cq->cab', self.G, self.G, self.JxW) + onp.einsum('qa,qb,cq->cab', self.N, self.N, 3 * uq**2 * self.JxW)
        K = onp.zeros((len(self.P),) * 2)
        for c, ke in zip(self.C, k):
            K[onp.ix_(c, c)] += ke
        return K

    def solve(self):
        u = onp.zeros(len(self.P))
        for _ in range(30):
            r, K = self.res(u), self.tangent(u)
            r[self.bd] = u[self.bd]
            K[self.bd] = 0.
            K[self.bd, self.bd] = 1.
            if onp.linalg.norm(r) < 1e-13:
                break
            u = u - onp.linalg.solve(K, r)
        return u


# ------------------------------------------------------------------------------------------------------------- element

@st.composite
def element_st(draw):
    return {'seed': draw(fem.seeds()), 'n': draw(st.integers(1, 5)), 'scale': draw(st.sampled_from([1e-2, 1., 30.])), 'low': draw(st.sampled_from([0., -1.5])), 'nx': draw(st.integers(1, 6)), 'ny': draw(st.integers(1, 6))}


def run_element(case):
    import jax.numpy as np
    m = modules()
    rng = onp.random.default_rng(case['seed'])
    for _ in range(case['n']):
        v = case['scale'] * rng.normal(size=(3, 2))
        k, a = element(v)
        if a < .05 * case['scale']**2:
            continue
        close(m['example'].element_stiffness(np.array(v)), k, "element stiffness", rtol=1e-9)
        w = rng.normal(size=3)
        f = lambda x, y: w[0] + w[1] * x + w[2] * x * y
        c = v.mean(0)
        close(m['example'].element_load(np.array(v), f), onp.full(3, a / 3 * f(*c)), "element load", rtol=1e-9, atol=1e-12)
    nx, ny = case['nx'], case['ny']
    lo, up = onp.full(2, case['low']), onp.array([1.5, 2.5])
    for name, args, (l, u) in (('example', (lo, up), (lo, up)), ('example', (), (onp.zeros(2), onp.ones(2))), ('gold', (), (onp.zeros(2), onp.ones(2)))):
        P, C = m[name].unit_square_triangle_mesh(nx, ny, *args)
        P, C = onp.asarray(P), onp.asarray(C)
        want = onp.array([l + (u - l) * onp.array([i / nx, j / ny]) for i in range(nx + 1) for j in range(ny + 1)])
        key = lambda A: A[onp.lexsort(onp.round(A, 9).T)]
        close(key(P), key(want), f"{name}: vertices of the structured mesh", rtol=1e-12)
        require(C.shape == (2 * nx * ny, 3), "%s: %d cells on a %d x %d grid", name, len(C), nx, ny)
        e1, e2 = P[C[:, 1]] - P[C[:, 0]], P[C[:, 2]] - P[C[:, 0]]
        a = .5 * (e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0])
        close(a, onp.full(len(C), onp.prod(u - l) / (2 * nx * ny)), f"{name}: signed cell areas", rtol=1e-9)
        edges = onp.sort(C[:, [[0, 1], [1, 2], [2, 0]]].reshape(-1, 2), 1)
        _, cnt = onp.unique(edges, axis=0, return_counts=True)
        require(cnt.max() <= 2 and (cnt == 1).sum() == 2 * (nx + ny), "%s: the cells do not tile the square (%d boundary edges)", name, (cnt == 1).sum())
    return {'nontrivial': nx != ny, 'labels': [f"scale={case['scale']}"]}


# ---------------------------------------------------------------------------------------------------------------- gold

@st.composite
def gold_st(draw):
    return {'mesh': draw(tri_st(small=3)), 'main': draw(st.booleans()), 'seed': draw(fem.seeds())}


def capture(mod, fn):
    out = []
    mod.__dict__['print'] = lambda *a, **k: out.append(' '.join(str(x) for x in a))
    try:
        with quiet():
            fn()
    finally:
        mod.__dict__.pop('print')
    return '\n'.join(out)


def number(text, pattern):
    m = re.search(pattern + r'\s*([-+0-9.eEinfa]+)', text)
    require(m is not None, "no '%s' in the report: %s", pattern, text[-300:])
    return float(m.group(1))


def run_gold(case):
    import jax
    import jax.numpy as np
    from jax_fem.generate_mesh import Mesh
    from jax_fem.solver import solver
    g = modules()['gold']
    P, C = triangulation(case['mesh'])
    rng = onp.random.default_rng(case['seed'])
    ref = Nonlinear(P, C)
    close(g.u_exact(P[:, 0], P[:, 1]), exact(P), "exact solution", rtol=1e-12)
    q = rng.uniform(0, 1, (4, 2))
    ue = exact(q)
    close(g.source_f(q[:, 0], q[:, 1]), 2 * onp.pi**2 * ue + ue**3, "source", rtol=1e-12)
    p = g.NonlinearManufacturedPoisson(Mesh(P, C, ele_type='TRI3'), vec=1, dim=2, ele_type='TRI3', dirichlet_bc_info=g.dirichlet_bc_unit_square(), location_fns=None)
    require(sorted(set(onp.concatenate([onp.asarray(a) for a in p.fes[0].node_inds_list]).tolist())) == onp.flatnonzero(ref.bd).tolist(), "boundary vertices of the unit square")
    u = rng.normal(size=len(P))
    r = onp.asarray(p.newton_update([np.array(u)[:, None]])[0])[:, 0]
    close(r, ref.res(u), "residual", rtol=1e-10)
    A = sp.coo_matrix((onp.asarray(p.V), (onp.asarray(p.I), onp.asarray(p.J))), shape=(len(P),) * 2).toarray()
    close(A, ref.tangent(u), "tangent", rtol=1e-10)
    want = ref.solve()
    got = onp.asarray(solver(p, solver_options=g.fair_solver_options())[0])[:, 0]
    close(got, want, "solution", rtol=1e-6)
    if case['main']:
        keep = g.unit_square_triangle_mesh, g.GRID_NX, g.GRID_NY
        g.unit_square_triangle_mesh, g.GRID_NX, g.GRID_NY = (lambda *a, **k: (P, C)), *case['mesh']['n']
        try:
            text = capture(g, g.main)
        finally:
            g.unit_square_triangle_mesh, g.GRID_NX, g.GRID_NY = keep
        rms = onp.sqrt(((want - exact(P))**2).mean())
        close(number(text, 'RMS error vs exact u:'), rms, "reported RMS", rtol=2e-3, atol=1e-8)
        close(number(text, r'max\|u\|:'), onp.abs(want).max(), "reported maximum", atol=2e-6)
    return {'nontrivial': case['mesh']['jitter'] > 0 and (~ref.bd).sum() > 1, 'labels': [f"main={case['main']}"]}


# -------------------------------------------------------------------------------------------------------- whole drivers

def use_mesh(mod, P, C, n):
    """the driver's mesh replaced by (P, C); returns an undo"""
    keep = {k: mod.__dict__[k] for k in ('unit_square_triangle_mesh', 'GRID_NX', 'GRID_NY') if k in mod.__dict__}
    mod.unit_square_triangle_mesh = lambda *a, **k: (P.copy(), C.copy())
    for k, v in zip(('GRID_NX', 'GRID_NY'), n):
        if k in keep:
            mod.__dict__[k] = v
    return lambda: mod.__dict__.update(keep)


def check_example(mod, text, P, C, plan=None, tol=2e-5):
    import meshio
    K, b = serial_linear(P, C)
    want = onp.linalg.solve(K, b)
    rms = onp.sqrt(((want - exact(P))**2).mean())
    f = re.search(r'Wrote VTK for ParaView: (\S+)', text)
    path = f.group(1) if f else os.path.join(os.path.dirname(mod.__file__), 'output', 'vtk', 'u.vtu')
    require(os.path.exists(path), "no VTU file was written")
    m = meshio.read(path)
    close(m.points[:, :2], P, "vertices in the file", rtol=1e-6)
    require((m.cells[0].data == C).all(), "cells in the file")
    pd = {k: onp.asarray(v).reshape(-1) for k, v in m.point_data.items()}
    close(pd['u'], want, "solution in the file", rtol=tol)
    close(pd['u_exact'], exact(P), "exact solution in the file", rtol=1e-6)
    close(pd['u_error'], want - exact(P), "error in the file", rtol=tol, scale=1.)
    owner, part = (onp.zeros(len(P)), onp.zeros(len(C))) if plan is None else (plan.owner, plan.part)
    require((pd['owner_rank'] == owner).all(), "owner ranks in the file: %s, expected %s", pd['owner_rank'], owner)
    require((onp.asarray(m.cell_data['partition'][0]).reshape(-1) == part).all(), "cell partition in the file")
    close(number(text, 'Root-mean-square vertex error vs exact u:'), rms, "reported RMS", rtol=2e-2, atol=1e-6)
    os.remove(path)
    return want


@st.composite
def serial_st(draw):
    return {'mesh': draw(tri_st(small=3, big=6)), 'driver': draw(st.sampled_from(['example', 'mpi']))}


def run_serial(case):
    mods = modules()
    mod = mods[case['driver']]
    P, C = triangulation(case['mesh'])
    n = case['mesh']['n']
    undo = use_mesh(mod, P, C, n)
    try:
        text = capture(mod, mod.main)
    finally:
        undo()
    if case['driver'] == 'example':
        check_example(mod, text, P, C, tol=1e-4)
    else:
        want = Nonlinear(P, C).solve()
        rms = onp.sqrt(((want - exact(P))**2).mean())
        close(number(text, r'RMS vs exact \(owned verts\):'), rms, "reported RMS", rtol=2e-3, atol=1e-8)
        require(f"global_dofs={len(P)} " in text.replace('\n', ' '), "reported number of unknowns: %s", text[-400:])
    return {'nontrivial': (~boundary(P)).sum() > 1, 'labels': [case['driver']]}


@st.composite
def ranks_st(draw):
    drv = draw(st.sampled_from(['example', 'mpi']))
    return {'mesh': draw(tri_st(big=6 if drv == 'example' else 5)), 'driver': drv, 'size': draw(st.sampled_from([2, 3, 4, 5, 1])), 'owners': draw(st.sampled_from(['random', 'low', 'high'])),
            'kind': draw(st.sampled_from(['rings', 'strips', 'scatter'])), 'seed': draw(fem.seeds())}


def run_ranks(case):
    mods = modules()
    mod = mods[case['driver']]
    P, C = triangulation(case['mesh'])
    R = case['size']
    w = World(R)
    fake = FakePETSc(w, onp.random.default_rng(case['seed']), case['owners'], case['kind'])
    keep = {k: mod.__dict__[k] for k in ('PETSc', 'MPI')}
    undo = use_mesh(mod, P, C, case['mesh']['n'])
    mod.__dict__.update(PETSc=fake, MPI=FakeMPI(w))
    try:
        text = capture(mod, lambda: w.run(mod.main))
    finally:
        undo()
        mod.__dict__.update(keep)
    plan = fake.plan
    if plan is None or not fake.solves:
        raise Skip("the driver did not go through the stand-ins")
    require((plan.points == P).all() and (plan.cells == C).all(), "the distributed mesh is not the mesh of the driver")
    # the assembled systems, back in the serial numbering
    g = plan.gdof
    inner = ~boundary(P)
    if case['driver'] == 'example':
        K, b = serial_linear(P, C)
        A, rhs, sol = fake.solves[-1]
        A = A.toarray()[onp.ix_(g, g)]
        if (A[inner][:, ~inner] == 0).all():             # the boundary values are zero
            K[onp.ix_(inner, ~inner)] = 0.
        close(A, K, "assembled matrix", rtol=1e-9)
        close(rhs[g], b, "assembled load", rtol=1e-9)
        check_example(mod, text, P, C, plan)
    else:
        ref = Nonlinear(P, C)
        u = onp.zeros(len(P))
        for A, rhs, sol in fake.solves:
            r, K = ref.res(u), ref.tangent(u)
            r[ref.bd] = 0.
            K[ref.bd] = 0.
            K[ref.bd, ref.bd] = 1.
            A = A.toarray()[onp.ix_(g, g)]
            if (A[inner][:, ref.bd] == 0).all():         # columns of known values may be eliminated as well: they multiply zero increments
                K[onp.ix_(inner, ref.bd)] = 0.
            close(A, K, "assembled tangent", rtol=1e-9)
            close(-rhs[g], r, "assembled residual", rtol=1e-9, scale=1.)
            u = u + sol[g]
        want = ref.solve()
        close(u, want, "solution", rtol=1e-8)
        rms = onp.sqrt(((want - exact(P))**2).mean())
        close(number(text, r'RMS vs exact \(owned verts\):'), rms, "reported RMS", rtol=2e-3, atol=1e-8)
        require(f"MPI_ranks={R}" in text, "reported number of ranks")
    shared = any(len(set(plan.part[(C == v).any(1)])) > 1 for v in range(len(P)))
    lone = any((plan.owner == r).any() and not boundary(P)[plan.owner == r].any() for r in range(R))
    return {'nontrivial': R > 1 and shared and inner.sum() > 1,
            'labels': [case['driver'], f'ranks={R}', f"no_boundary_rank={lone}", f"rank_without_rows={bool((plan.counts == 0).any())}"], 'observed': f"rows per rank {plan.counts.tolist()}"}


SUBS = {'element': dict(strategy=element_st, run=run_element, examples={'quick': 25, 'thorough': 400}, weight=1),
        'gold': dict(strategy=gold_st, run=run_gold, examples={'quick': 10, 'thorough': 150}, weight=3),
        'serial': dict(strategy=serial_st, run=run_serial, examples={'quick': 64, 'thorough': 600}, weight=3),
        'ranks': dict(strategy=ranks_st, run=run_ranks, examples={'quick': 40, 'thorough': 600}, weight=6)}

_MESH = {'n': [4, 4], 'jitter': .2, 'shuffle': True, 'seed': 3}
PINNED = {f'{name}_{d}': {'sub': 'ranks', 'mesh': _MESH, 'driver': d, 'size': size, 'owners': 'random', 'kind': 'rings', 'seed': 0}
          for name, size in (('rank_without_boundary', 3), ('rank_without_rows', 4)) for d in ('example', 'mpi')}
PINNED.update({f'irregular_{k}': {'sub': 'serial', 'mesh': {'n': n, 'jitter': .3, 'shuffle': sh, 'seed': k}, 'driver': 'mpi'} for k, n, sh in ((12, [5, 5], False), (21, [4, 5], True))})

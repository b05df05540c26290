"""C17: mesh generators."""
import os
import shutil
import sys
import tempfile
import numpy as onp
from hypothesis import strategies as st
from pbt import fem
from pbt.core import require, close

RULE = """Sub 'grid': rectangle_mesh and box_mesh for random cell counts and side lengths.  Sub 'gmsh': sequences of box_mesh_gmsh calls
(HEX8, TET4, TET10, HEX27) and cylinder_mesh_gmsh calls with random counts, sizes over six decades and ratios, sharing one scratch
directory.  Every mesh is judged geometrically by an independent reference: element type and counts, index range, orphan and duplicate
nodes, node order (positive Jacobian at all nodes and quadrature points, higher-order nodes where the element puts them), conformity
(every face in one or two cells, boundary faces on the boundary and covering its area), tiling of the volume; the library's own JxW,
check_mesh_TET4 and count_selected_faces must agree.  Non-trivial: unequal counts or sides, or a sequence of more than one call."""
BUDGET_S = {'quick': 60, 'thorough': 1200}
CASE_CPU_S = 150
size = st.tuples(st.floats(-3, 3), st.floats(-.7, .7), st.floats(-.7, .7)).map(lambda t: [float('%.6g' % 10**t[0]), float('%.6g' % 10**(t[0] + t[1])), float('%.6g' % 10**(t[0] + t[2]))])


@st.composite
def grid_st(draw):
    return {'kind': draw(st.sampled_from(['rect', 'box'])), 'n': draw(st.lists(st.integers(1, 9), min_size=3, max_size=3)), 'L': draw(size)}


@st.composite
def box_st(draw):
    return {'kind': 'box', 'ele': draw(st.sampled_from(['HEX8', 'TET4', 'TET10', 'HEX27'])), 'n': draw(st.lists(st.integers(1, 5), min_size=3, max_size=3)), 'L': draw(size)}


@st.composite
def cyl_st(draw):
    s = draw(size)
    return {'kind': 'cyl', 'cm': draw(st.integers(2, 7)), 'hm': draw(st.integers(1, 8)), 'R': s[0], 'H': s[1], 'ratio': draw(st.integers(15, 60)) / 100,
            'default': draw(st.sampled_from([False, False, False, True]))}


@st.composite
def gmsh_st(draw):
    return {'calls': draw(st.lists(st.one_of(box_st(), box_st(), cyl_st()), min_size=1, max_size=3))}


def judge(rm, what, volume, on_boundary, area):
    """everything that holds for any valid conforming mesh of a domain"""
    X, C = rm.points, rm.cells
    L = onp.ptp(X, axis=0).max()
    require(C.min() == 0 and C.max() == len(X) - 1, "%s: node indices %d..%d for %d nodes", what, C.min(), C.max(), len(X))
    used = onp.unique(C)
    require(len(used) == len(X), "%s: %d of %d nodes belong to no cell", what, len(X) - len(used), len(X))
    for c in C:
        require(len(set(c.tolist())) == len(c), "%s: a cell lists a node twice: %s", what, c.tolist())
    require(len({frozenset(c.tolist()) for c in C}) == len(C), "%s: a cell appears twice", what)
    # duplicates: sort along a generic direction, compare neighbours in a window
    q = onp.round(X / (1e-7 * L)).astype(onp.int64)
    require(len(onp.unique(q, axis=0)) == len(X), "%s: duplicate nodes", what)
    md, J = rm.min_det()
    require(md > 0, "%s: smallest Jacobian determinant %.3g", what, md)
    lin = fem.ref({'quad': 'QUAD4', 'tri': 'TRI3', 'hex': 'HEX8', 'tet': 'TET4'}[rm.ref.shape])
    W = lin.vals(rm.ref.nodes)
    close(X[C], onp.einsum('ij,cjd->cid', W, X[C[:, :rm.ref.nv]]), f"{what}: positions of the cells' nodes in the documented order", 0, 1e-8 * L)
    x, N, g, w = rm.tabulate(rm.ref.order)
    close(w.sum(), volume, f"{what}: total volume", 1e-9, 0)
    tot = 0.
    for k, l in rm.faces_by_verts.items():
        require(len(l) <= 2, "%s: a face is shared by %d cells", what, len(l))
        if len(l) == 1:
            c, f = l[0]
            nodes = [int(C[c][i]) for i in fem.face_nodes(rm.ele)[f]]
            require(on_boundary(X[nodes], X[sorted(k)]), "%s: a face of one cell only lies inside the domain: %s", what, X[sorted(k)].tolist())
            tot += rm.tab_face(c, f, 2)[3].sum()
        else:
            a, b = [sorted(int(C[c][i]) for i in fem.face_nodes(rm.ele)[f]) for c, f in l]
            require(a == b, "%s: two cells list different nodes on their common face", what)
    close(tot, area, f"{what}: total boundary area", 1e-9, 0)


def library_view(rm, what, volume, planes):
    """the library's own measures of the mesh"""
    from jax_fem.generate_mesh import Mesh, check_mesh_TET4
    from jax_fem.fe import FiniteElement
    import jax.numpy as np
    mesh = Mesh(rm.points, rm.cells, ele_type=rm.ele)
    fe = FiniteElement(mesh=mesh, vec=1, dim=rm.dim, ele_type=rm.ele, quadrature_rule=None, quadrature_order=None, dirichlet_bc_info=None)
    g, w = fe.get_shape_grads()
    require(onp.asarray(w).min() > 0, "%s: the library reports a non-positive JxW %.3g", what, onp.asarray(w).min())
    close(onp.asarray(w).sum(), volume, f"{what}: volume according to the library", 1e-9, 0)
    if rm.ele == 'TET4':
        q = onp.asarray(check_mesh_TET4(np.asarray(rm.points), np.asarray(rm.cells)))
        P = rm.points[rm.cells]
        det = onp.linalg.det(P[:, 1:] - P[:, :1])
        close(q, det, f"{what}: check_mesh_TET4", 1e-9, 0)
        bad = rm.cells.copy()
        bad[0] = bad[0][[1, 0, 2, 3]]
        q = onp.asarray(check_mesh_TET4(np.asarray(rm.points), np.asarray(bad)))
        require(q[0] < 0 and (q[1:] > 0).all(), "%s: check_mesh_TET4 does not single out an inverted cell", what)
    tol = 1e-6 * onp.ptp(rm.points, axis=0).min()
    for ax, val, want in planes:
        n = mesh.count_selected_faces(lambda p: np.abs(p[ax] - val) < tol)
        require(n == want, "%s: count_selected_faces on the plane x%d = %g gives %s, expected %d", what, ax, val, n, want)


def box_reference(rm, what, n, L):
    d = rm.dim
    n, L = onp.array(n[:d]), onp.array(L[:d])
    h = L / n
    V = float(onp.prod(L))
    A = float(2 * L.sum()) if d == 2 else float(2 * (L[0] * L[1] + L[1] * L[2] + L[0] * L[2]))

    def on_b(P, _):
        return any((onp.abs(P[:, i] - v) <= 1e-8 * L[i]).all() for i in range(d) for v in (0., L[i]))
    judge(rm, what, V, on_b, A)
    # nodes on the grid, cells inside one grid cell each
    deg = 1 if len(rm.ref.nodes) in (4, 8, 3) else 2
    g = onp.stack(onp.meshgrid(*[onp.arange(k * deg + 1) for k in n], indexing='ij'), -1).reshape(-1, d)
    idx = rm.points / h * deg
    close(idx, onp.round(idx), f"{what}: nodes on the requested grid", 0, 1e-7 * max(n))
    got = onp.unique(onp.round(idx).astype(int), axis=0)
    require(len(got) == len(g) == len(rm.points) and onp.array_equal(got, onp.unique(g, axis=0)), "%s: %d nodes, the grid has %d", what, len(rm.points), len(g))
    per = {'hex': 1, 'quad': 1, 'tet': 6, 'tri': 2}[rm.ref.shape]
    require(len(rm.cells) == per * int(onp.prod(n)), "%s: %d cells, expected %d", what, len(rm.cells), per * int(onp.prod(n)))
    P = rm.points[rm.cells[:, :rm.ref.nv]] / h
    lo = onp.floor(P.mean(1)).astype(int)
    require((P >= lo[:, None] - 1e-6).all() and (P <= lo[:, None] + 1 + 1e-6).all(), "%s: a cell reaches beyond one grid cell", what)
    u, cnt = onp.unique(lo, axis=0, return_counts=True)
    require(len(u) == int(onp.prod(n)) and (cnt == per).all(), "%s: grid cells hold %s cells, expected %d each", what, sorted(set(cnt.tolist())), per)
    f = {'hex': 1, 'quad': 1, 'tet': 2, 'tri': 1}[rm.ref.shape]
    library_view(rm, what, V, [(i, v, f * int(onp.prod(n)) // int(n[i])) for i in range(d) for v in (0., float(L[i]))] if 'TET10' != rm.ele else [])


def run_grid(case):
    from jax_fem.generate_mesh import rectangle_mesh, box_mesh, get_meshio_cell_type
    n, L = case['n'], case['L']
    d = 2 if case['kind'] == 'rect' else 3
    ele = 'QUAD4' if d == 2 else 'HEX8'
    m = rectangle_mesh(*n[:2], *L[:2]) if d == 2 else box_mesh(*n, *L)
    t = get_meshio_cell_type(ele)
    require(list(m.cells_dict) == [t], "cell types %s, expected %s", list(m.cells_dict), t)
    P = onp.asarray(m.points)
    require(P.ndim == 2 and P.shape[1] == d, "points of shape %s in %d dimensions", P.shape, d)
    box_reference(fem.RefMesh(ele, P, m.cells_dict[t]), f"{case['kind']} mesh", n, L)
    return {'nontrivial': len(set(n[:d])) > 1 or len(set(L[:d])) > 1, 'labels': [case['kind'], f'cells~{10**len(str(int(onp.prod(n[:d]))))}'], 'observed': f'{len(P)} nodes, {len(m.cells_dict[t])} cells'}


def run_gmsh(case):
    from jax_fem.generate_mesh import box_mesh_gmsh, cylinder_mesh_gmsh, get_meshio_cell_type
    bindir = os.path.dirname(sys.executable)
    if bindir not in os.environ.get('PATH', '').split(':'):
        os.environ['PATH'] = bindir + ':' + os.environ.get('PATH', '')      # cylinder_mesh_gmsh calls the gmsh program
    scratch = tempfile.mkdtemp(prefix='c17_')
    labels, obs = [f'calls={len(case["calls"])}'], []
    keep = []
    try:
        data_dir = os.path.join(scratch, 'sub', 'data')
        for c in case['calls']:
            ele = c.get('ele', 'HEX8')
            t = get_meshio_cell_type(ele)
            if c['kind'] == 'box':
                m = box_mesh_gmsh(*c['n'], *c['L'], data_dir, **({} if ele == 'HEX8' and c['n'][0] % 2 else {'ele_type': ele}))
            elif c['default']:
                c = dict(c, R=5., H=10., ratio=.4)
                m = cylinder_mesh_gmsh(data_dir, circle_mesh=c['cm'], hight_mesh=c['hm'])
            else:
                m = cylinder_mesh_gmsh(data_dir, R=c['R'], H=c['H'], circle_mesh=c['cm'], hight_mesh=c['hm'], rect_ratio=c['ratio'])
            require(list(m.cells_dict) == [t], "cell types %s, expected %s", list(m.cells_dict), t)
            keep.append((c, ele, t, m))
        for c, ele, t, m in keep:                       # judged after all calls: a later one must not disturb an earlier result
            P = onp.asarray(m.points)
            require(P.ndim == 2 and P.shape[1] == 3, "points of shape %s", P.shape)
            rm = fem.RefMesh(ele, P, m.cells_dict[t])
            if c['kind'] == 'box':
                labels.append(ele)
                box_reference(rm, f"gmsh {ele} box {c['n']}", c['n'], c['L'])
            else:
                labels.append('cylinder')
                k, R, H = c['cm'] - 1, c['R'], c['H']
                what = f"cylinder circle_mesh={c['cm']} hight_mesh={c['hm']}"
                poly = .5 * R * R * 4 * k * onp.sin(2 * onp.pi / (4 * k))
                side = 2 * R * onp.sin(onp.pi / (4 * k)) * 4 * k

                def on_b(P, V):
                    return (onp.abs(P[:, 2]) <= 1e-8 * H).all() or (onp.abs(P[:, 2] - H) <= 1e-8 * H).all() or \
                        (onp.abs(onp.hypot(V[:, 0], V[:, 1]) - R) <= 1e-6 * R).all()
                judge(rm, what, poly * H, on_b, 2 * poly + side * H)
                layer = (k + 1)**2 + 4 * k * k
                require(len(rm.cells) == 5 * k * k * c['hm'], "%s: %d cells, expected %d", what, len(rm.cells), 5 * k * k * c['hm'])
                require(len(P) == layer * (c['hm'] + 1), "%s: %d nodes, expected %d", what, len(P), layer * (c['hm'] + 1))
                z = P[:, 2] / H * c['hm']
                close(z, onp.round(z), f"{what}: nodes on the requested layers", 0, 1e-7 * c['hm'])
                sq = onp.abs(P[:, :2]).max(1) <= R * c['ratio'] * (1 + 1e-8)
                require(sq.sum() == (k + 1)**2 * (c['hm'] + 1), "%s: %d nodes in the central square of half side %g R, expected %d", what, sq.sum(), c['ratio'], (k + 1)**2 * (c['hm'] + 1))
                library_view(rm, what, poly * H, [(2, 0., 5 * k * k), (2, H, 5 * k * k)])
            obs.append(f'{ele}: {len(P)} nodes, {len(rm.cells)} cells')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return {'nontrivial': True, 'labels': sorted(set(labels)), 'observed': '; '.join(obs)}


SUBS = {'grid': {'strategy': grid_st, 'run': run_grid, 'examples': {'quick': 160, 'thorough': 3000}, 'weight': .5},
        'gmsh': {'strategy': gmsh_st, 'run': run_gmsh, 'examples': {'quick': 96, 'thorough': 2500}, 'weight': 1}}

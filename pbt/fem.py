"""Independent finite element reference (NumPy only) and mesh generators.

Nothing here imports jax_fem.  Node orders are the meshio/VTK/Abaqus ones; shape functions come from inverting the
Vandermonde matrix of the element's polynomial space at its reference nodes.
"""
import itertools
import functools
import numpy as onp
import basix
from hypothesis import strategies as st


def _hexv():
    return [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def _mid(v, pairs):
    v = onp.array(v, dtype=float)
    return [tuple((v[a] + v[b]) / 2) for a, b in pairs]


_HEX_EDGES = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_TET_EDGES = [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]
_TETV = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
_QUADV = [(0, 0), (1, 0), (1, 1), (0, 1)]
_TRIV = [(0, 0), (1, 0), (0, 1)]
_HEXF = [(.0, .5, .5), (1, .5, .5), (.5, 0, .5), (.5, 1, .5), (.5, .5, 0), (.5, .5, 1), (.5, .5, .5)]


def _P(dim, k):
    return [e for e in itertools.product(range(k + 1), repeat=dim) if sum(e) <= k]


def _Q(dim, k):
    return list(itertools.product(range(k + 1), repeat=dim))


def _S2(dim):
    # serendipity degree 2: superlinear degree <= 2
    return [e for e in itertools.product(range(3), repeat=dim) if sum(x for x in e if x > 1) + sum(1 for x in e if x == 1 and False) <= 2
            and sum(x for x in e if x >= 2) <= 2 and _superlin(e) <= 2]


def _superlin(e):
    return sum(x for x in e if x != 1)


_QF = [(0, 1), (1, 2), (2, 3), (3, 0)]
_TF = [(0, 1), (1, 2), (2, 0)]
_HF = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]
_TETF = [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)]

# name: dim, shape, nodes, exponents, faces (vertices, cyclic order), complete degree, default quadrature order
ELE = {
    'QUAD4': (2, 'quad', _QUADV, _Q(2, 1), _QF, 1, 2),
    'QUAD8': (2, 'quad', _QUADV + _mid(_QUADV, _QF), _S2(2), _QF, 2, 2),
    'TRI3': (2, 'tri', _TRIV, _P(2, 1), _TF, 1, 0),
    'TRI6': (2, 'tri', _TRIV + _mid(_TRIV, _TF), _P(2, 2), _TF, 2, 2),
    'HEX8': (3, 'hex', _hexv(), _Q(3, 1), _HF, 1, 2),
    'HEX20': (3, 'hex', _hexv() + _mid(_hexv(), _HEX_EDGES), _S2(3), _HF, 2, 2),
    'HEX27': (3, 'hex', _hexv() + _mid(_hexv(), _HEX_EDGES) + _HEXF, _Q(3, 2), _HF, 2, 10),
    'TET4': (3, 'tet', _TETV, _P(3, 1), _TETF, 1, 0),
    'TET10': (3, 'tet', _TETV + _mid(_TETV, _TET_EDGES), _P(3, 2), _TETF, 2, 2),
}
ALL_ELES = list(ELE)
SIMPLEX = {'TRI3', 'TRI6', 'TET4', 'TET10'}
_BASIX = {'quad': basix.CellType.quadrilateral, 'tri': basix.CellType.triangle,
          'hex': basix.CellType.hexahedron, 'tet': basix.CellType.tetrahedron}
_FACET = {'quad': basix.CellType.interval, 'tri': basix.CellType.interval,
          'hex': basix.CellType.quadrilateral, 'tet': basix.CellType.triangle}
NV = {'quad': 4, 'tri': 3, 'hex': 8, 'tet': 4}


class Ref:
    def __init__(self, name):
        self.name = name
        self.dim, self.shape, nodes, exps, self.faces, self.degree, self.order = ELE[name]
        self.nodes = onp.array(nodes, dtype=float)
        self.exps = onp.array(exps, dtype=int)
        self.nv = NV[self.shape]
        assert len(self.nodes) == len(self.exps), (name, len(self.nodes), len(self.exps))
        self.coef = onp.linalg.inv(self._mono(self.nodes))
        self.cell = _BASIX[self.shape]
        self.facet = _FACET[self.shape]
        self.centre = self.nodes[:self.nv].mean(0)

    def _mono(self, x):
        return onp.prod(x[:, None, :] ** self.exps[None], axis=2)

    def vals(self, x):
        return self._mono(x) @ self.coef                      # (q, n)

    def grads(self, x):
        out = []
        for d in range(self.dim):
            e = self.exps.copy()
            f = e[:, d].astype(float)
            e[:, d] = onp.maximum(e[:, d] - 1, 0)
            out.append((f * onp.prod(x[:, None, :] ** e[None], axis=2)) @ self.coef)
        return onp.stack(out, axis=2)                         # (q, n, dim)

    def quad(self, order=None, rule=None):
        kw = {} if rule is None else {'rule': basix.quadrature.string_to_type(rule)}
        return basix.make_quadrature(self.cell, self.order if order is None else order, **kw)

    def face_quad(self, f, order=None, rule=None):
        """points in reference coordinates, weights for d(reference facet), tangents (dim-1 vectors constant/varying)."""
        kw = {} if rule is None else {'rule': basix.quadrature.string_to_type(rule)}
        s, w = basix.make_quadrature(self.facet, self.order if order is None else order, **kw)
        v = self.nodes[list(self.faces[f])]
        if self.dim == 2:
            pts = v[0] + s * (v[1] - v[0])
            tang = onp.broadcast_to(v[1] - v[0], (len(s), 1, 2))
        elif self.shape == 'hex':   # square faces of the unit cube are affine
            pts = v[0] + s[:, :1] * (v[1] - v[0]) + s[:, 1:] * (v[3] - v[0])
            tang = onp.broadcast_to(onp.stack([v[1] - v[0], v[3] - v[0]]), (len(s), 2, 3))
        else:
            pts = v[0] + s[:, :1] * (v[1] - v[0]) + s[:, 1:] * (v[2] - v[0])
            tang = onp.broadcast_to(onp.stack([v[1] - v[0], v[2] - v[0]]), (len(s), 2, 3))
        return pts, w, tang


@functools.lru_cache(None)
def ref(name):
    return Ref(name)


@functools.lru_cache(None)
def rotations(name):
    """Local node permutations that are proper symmetries of the reference cell."""
    r = ref(name)
    X = r.nodes
    out = []
    nv, dim = r.nv, r.dim
    base = [0, 1, 3] if r.shape == 'quad' else ([0, 1, 3, 4] if r.shape == 'hex' else list(range(dim + 1)))
    for img in itertools.permutations(range(nv), len(base)):
        A = (X[list(img[1:])] - X[img[0]]).T @ onp.linalg.inv((X[base[1:]] - X[base[0]]).T)
        if abs(abs(onp.linalg.det(A)) - 1) > 1e-9 or onp.linalg.det(A) < 0:
            continue
        Y = X[img[0]] + (X - X[base[0]]) @ A.T
        D = onp.abs(Y[:, None] - X[None]).sum(2)
        if onp.all(D.min(1) < 1e-9):
            p = tuple(int(i) for i in D.argmin(1))
            if p not in out:
                out.append(p)
    return out


# ----------------------------------------------------------------------------------------------- meshes

class RefMesh:
    def __init__(self, ele, points, cells):
        self.ele, self.points, self.cells = ele, onp.asarray(points, dtype=float), onp.asarray(cells, dtype=int)
        self.ref = ref(ele)
        self.dim = self.ref.dim

    def tabulate(self, order=None, rule=None):
        """x (c,q,dim), N (q,n), dN (c,q,n,dim), JxW (c,q)"""
        r = self.ref
        s, w = r.quad(order, rule)
        N, dN = r.vals(s), r.grads(s)
        X = self.points[self.cells]
        x = onp.einsum('qn,cnd->cqd', N, X)
        J = onp.einsum('cni,qnj->cqij', X, dN)
        g = onp.einsum('qnj,cqji->cqni', dN, onp.linalg.inv(J))
        return x, N, g, onp.linalg.det(J) * w[None]

    def tab_face(self, c, f, order=None, rule=None):
        """x (q,dim), N (q,n), dN (q,n,dim), JxW (q,), unit outward normal (q,dim) for local face f of cell c"""
        r = self.ref
        s, w, tang = r.face_quad(f, order, rule)
        N, dN = r.vals(s), r.grads(s)
        X = self.points[self.cells[c]]
        x = N @ X
        J = onp.einsum('ni,qnj->qij', X, dN)
        g = onp.einsum('qnj,qji->qni', dN, onp.linalg.inv(J))
        T = onp.einsum('qij,qkj->qki', J, tang)      # physical tangents
        if r.dim == 2:
            n = onp.stack([T[:, 0, 1], -T[:, 0, 0]], 1)
        else:
            n = onp.cross(T[:, 0], T[:, 1])
        area = onp.linalg.norm(n, axis=1)
        n = n / area[:, None]
        # outward: reference outward direction mapped by the (positive) Jacobian
        out_ref = r.nodes[list(r.faces[f])].mean(0) - r.centre
        sgn = onp.sign(onp.einsum('qij,j,qi->q', J, out_ref, n))
        return x, N, g, area * w, n * sgn[:, None]

    @functools.cached_property
    def faces_by_verts(self):
        """frozenset(global vertices) -> [(cell, local face)]"""
        d = {}
        for c, cell in enumerate(self.cells):
            for f, fv in enumerate(self.ref.faces):
                d.setdefault(frozenset(int(cell[v]) for v in fv), []).append((c, f))
        return d

    @property
    def boundary(self):
        return [(k, v[0]) for k, v in self.faces_by_verts.items() if len(v) == 1]

    @property
    def boundary_nodes(self):
        """all nodes lying on boundary faces (vertices and higher order nodes)"""
        s = set()
        for _, (c, f) in self.boundary:
            for ln in face_nodes(self.ele)[f]:
                s.add(int(self.cells[c][ln]))
        return onp.array(sorted(s), dtype=int)

    def min_det(self):
        r = self.ref
        pts = onp.concatenate([r.nodes, r.quad(4)[0]])
        J = onp.einsum('cni,qnj->cqij', self.points[self.cells], r.grads(pts))
        return float(onp.linalg.det(J).min()), J


@functools.lru_cache(None)
def face_nodes(ele):
    """all local nodes on each local face"""
    r = ref(ele)
    out = []
    for fv in r.faces:
        V = r.nodes[list(fv)]
        v0 = V[0]
        D = V[1:] - v0
        keep = []
        for i, x in enumerate(r.nodes):
            sol, *_ = onp.linalg.lstsq(D.T, x - v0, rcond=None)
            if onp.linalg.norm(D.T @ sol - (x - v0)) < 1e-9:
                keep.append(i)
        out.append(tuple(keep))
    return out


def _grid_cells(shape_name, n, flip):
    dim = len(n)
    idx = onp.arange(int(onp.prod([k + 1 for k in n]))).reshape([k + 1 for k in n])
    cells = []
    for pos in itertools.product(*[range(k) for k in n]):
        corner = lambda *o: int(idx[tuple(p + q for p, q in zip(pos, o))])
        if dim == 2:
            q = [corner(*v) for v in _QUADV]
            if shape_name == 'quad':
                cells.append(q)
            elif (sum(pos) % 2 == 0) if flip else True:
                cells += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
            else:
                cells += [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
        else:
            h = [corner(*v) for v in _hexv()]
            if shape_name == 'hex':
                cells.append(h)
            else:                      # Kuhn split: conforming everywhere
                for perm in itertools.permutations(range(3)):
                    o = [0, 0, 0]
                    t = [corner(*o)]
                    for a in perm:
                        o[a] = 1
                        t.append(corner(*o))
                    sign = onp.linalg.det(onp.eye(3)[list(perm)])
                    if sign < 0:
                        t[2], t[3] = t[3], t[2]
                    cells.append(t)
    return onp.array(cells)


def make_mesh(m):
    """Mesh from its JSON description: {ele, n, jitter, curve, affine, shuffle, grade, seed}."""
    ele, n = m['ele'], tuple(m['n'])
    r = ref(ele)
    rng = onp.random.default_rng(m['seed'])
    dim = r.dim
    axes = []
    for k in n:
        h = onp.ones(k) if not m.get('grade') else rng.uniform(0.4, 1.6, size=k)
        axes.append(onp.concatenate([[0.], onp.cumsum(h)]) / h.sum())
    P = onp.stack(onp.meshgrid(*axes, indexing='ij'), -1).reshape(-1, dim)
    cells = _grid_cells(r.shape, n, m.get('flip', False))
    # higher-order nodes: keyed by the vertices whose P1/Q1 function is nonzero there
    lin = ref({'quad': 'QUAD4', 'tri': 'TRI3', 'hex': 'HEX8', 'tet': 'TET4'}[r.shape])
    W = lin.vals(r.nodes)
    keys, pts, full = {}, [p for p in P], []
    for c in cells:
        row = list(c)
        for i in range(r.nv, len(r.nodes)):
            sup = [int(c[v]) for v in range(r.nv) if abs(W[i, v]) > 1e-9]
            k = frozenset(sup)
            if k not in keys:
                keys[k] = len(pts)
                pts.append(None)
            row.append(keys[k])
        full.append(row)
    full = onp.array(full)
    ncorner = len(P)
    hmin = min(float(onp.diff(a).min()) for a in axes)
    J1 = rng.uniform(-1, 1, size=(ncorner, dim)) * hmin
    J2 = rng.uniform(-1, 1, size=(len(pts), dim)) * hmin
    A = onp.eye(dim)
    if m.get('affine'):
        A = onp.eye(dim) + 0.5 * rng.uniform(-1, 1, size=(dim, dim))
        A = A * rng.uniform(0.5, 2.) if onp.linalg.det(A) > 0.1 else onp.eye(dim)
        if m['affine'] == 'scale':
            A = A * 10. ** rng.uniform(-2, 2)
    b = rng.uniform(-1, 1, size=dim) if m.get('affine') else onp.zeros(dim)
    jit, cur = m.get('jitter', 0.), m.get('curve', 0.)
    for _ in range(12):
        Q = P + jit * J1
        X = onp.zeros((len(pts), dim))
        X[:ncorner] = Q
        for c in full:
            for i in range(r.nv, len(r.nodes)):
                X[c[i]] = W[i] @ Q[c[:r.nv]]
        X[ncorner:] += cur * J2[ncorner:]
        if m.get('keep_boundary'):
            pass
        rm = RefMesh(ele, X @ A.T + b, full)
        md, J = rm.min_det()
        if md > 0.15 * onp.median(onp.abs(onp.linalg.det(J))):
            break
        jit, cur = jit * 0.6, cur * 0.6
    else:
        raise AssertionError('mesh generation failed')
    X, C = rm.points, rm.cells
    G = onp.zeros_like(X)                     # undistorted grid coordinates of every node, in the unit box
    G[:ncorner] = P
    for c in full:
        for i in range(r.nv, len(r.nodes)):
            G[c[i]] = W[i] @ P[c[:r.nv]]
    if m.get('shuffle'):
        p = rng.permutation(len(X))
        Y = onp.empty_like(X)
        Y[p] = X
        Y2 = onp.empty_like(G)
        Y2[p] = G
        G = Y2
        C = p[C]
        C = C[rng.permutation(len(C))]
        rots = rotations(ele)
        C = onp.stack([c[list(rots[rng.integers(len(rots))])] for c in C])
        X = Y
    rm = RefMesh(ele, X, C)
    rm.grid = G
    return rm


# Palettes keep array shapes few so that compiled kernels are shared between cases; num_cells straddles the
# library's batch boundaries (20 batches): 1, <20, 20, 21, 39..41, >41.
SIZES = {
    'quad': [(1, 1), (2, 1), (2, 2), (3, 2), (4, 5), (7, 3), (13, 3), (8, 5), (41, 1)],
    'tri': [(1, 1), (2, 1), (3, 3), (2, 5), (5, 4), (3, 7)],
    'hex': [(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (5, 2, 2), (7, 3, 1), (13, 3, 1)],
    'tet': [(1, 1, 1), (2, 1, 1), (2, 2, 1)],
}
SMALL = {
    'quad': [(2, 2), (3, 2), (4, 3)],
    'tri': [(2, 2), (3, 2)],
    'hex': [(2, 1, 1), (2, 2, 1), (2, 2, 2)],
    'tet': [(1, 1, 1), (2, 1, 1)],
}
SMALL_HO = {'quad': [(2, 2), (3, 2)], 'tri': [(2, 1), (2, 2)], 'hex': [(1, 1, 1), (2, 1, 1)], 'tet': [(1, 1, 1), (2, 1, 1)]}


def seeds():
    return st.integers(0, 2**20)


@st.composite
def mesh_st(draw, eles=ALL_ELES, sizes=None, jitter=True, curve=True, shuffle=True, affine=True):
    ele = draw(st.sampled_from(list(eles)))
    shp = ELE[ele][1]
    pal = (sizes or SIZES)[shp]
    m = {'ele': ele, 'n': list(draw(st.sampled_from(pal))), 'seed': draw(seeds())}
    m['grade'] = draw(st.booleans())
    m['jitter'] = draw(st.sampled_from([0., 0.1, 0.25])) if jitter else 0.
    m['curve'] = draw(st.sampled_from([0., 0.1])) if (curve and ELE[ele][5] > 1) else 0.
    m['affine'] = draw(st.sampled_from([False, True, 'scale'] if affine == 'scale' else [False, True])) if affine else False
    m['shuffle'] = draw(st.booleans()) if shuffle else False
    if shp == 'tri':
        m['flip'] = draw(st.booleans())
    return m


def jmesh(rm):
    from jax_fem.generate_mesh import Mesh
    return Mesh(rm.points, rm.cells, ele_type=rm.ele)


def is_affine(m):
    return (m['jitter'] == 0. or ELE[m['ele']][1] in ('tri', 'tet')) and m['curve'] == 0.

"""Helpers that drive the code under test through its public interface."""
import itertools
import numpy as onp
import jax
import jax.numpy as np
from pbt import fem
from pbt.core import Violation, require, close


def make_fe(rm, vec=1, order=None, rule=None, bc=None):
    from jax_fem.fe import FiniteElement
    fe = FiniteElement(mesh=fem.jmesh(rm), vec=vec, dim=rm.dim, ele_type=rm.ele, quadrature_rule=rule,
                       quadrature_order=order, dirichlet_bc_info=bc)
    fe.shape_grads, fe.JxW = fe.get_shape_grads()
    return fe


def in_set_fn(nodes):
    """A two-argument location predicate selecting exactly these node indices."""
    nodes = np.array(sorted(int(n) for n in nodes) or [-1])
    return lambda point, ind: np.isin(ind, nodes)


def match(a, b, what, tol):
    """permutation p with b[p[i]] ~ a[i], rows are points; every row must pair up uniquely"""
    a, b = onp.asarray(a), onp.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: {a.shape} points, expected {b.shape}")
    D = onp.abs(a[:, None] - b[None]).max(-1)
    p = D.argmin(1)
    if len(set(p.tolist())) != len(p) or not D[onp.arange(len(a)), p].max() <= tol:
        raise Violation(f"{what}: points differ from the expected set (max gap {D.min(1).max():.3g}, tolerance {tol:.3g}):\n"
                        f"got {a.tolist()}\nexpected {b.tolist()}")
    return p


def identify_faces(rm, fe, inds, order=None, rule=None):
    """For each selected (cell, face label): the local face of the reference whose quadrature points it reports."""
    inds = onp.asarray(inds)
    if len(inds) == 0:
        return []
    pts = onp.asarray(fe.get_physical_surface_quad_points(inds))
    out = []
    size = onp.ptp(rm.points, axis=0).max()
    for k, (c, _) in enumerate(inds):
        best = []
        for f in range(len(rm.ref.faces)):
            x = rm.tab_face(int(c), f, order, rule)[0]
            if x.shape == pts[k].shape:
                d = onp.abs(onp.sort(x.sum(1)) - onp.sort(pts[k].sum(1))).max()
                D = onp.abs(x[:, None] - pts[k][None]).max(-1)
                best.append((max(D.min(0).max(), D.min(1).max()), f))
        if not best:
            raise Violation(f"face quadrature has {pts.shape[1]} points, expected {rm.tab_face(0, 0, order, rule)[0].shape[0]}")
        d, f = min(best)
        if d > 1e-8 * size:
            raise Violation(f"surface quadrature points of selected face {inds[k].tolist()} lie on no face of that cell "
                            f"as the quadrature rule places them (gap {d:.3g})")
        out.append(f)
    return out

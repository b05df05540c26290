"""Random polynomials in normalised coordinates with exact gradients (NumPy)."""
import itertools
import numpy as onp


class Poly:
    """vec-valued polynomial of total degree <= deg in y = (x - c)/L."""

    def __init__(self, dim, deg, vec, rng, c=None, L=1., exps=None):
        self.exps = onp.array([e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= deg] if exps is None else exps)
        self.coef = rng.uniform(-1, 1, size=(len(self.exps), vec))
        self.c = onp.zeros(dim) if c is None else onp.asarray(c, dtype=float)
        self.L = float(L)
        self.dim = dim

    def __call__(self, x):
        y = (onp.asarray(x) - self.c) / self.L
        return onp.prod(y[..., None, :] ** self.exps, axis=-1) @ self.coef        # (..., vec)

    def grad(self, x):
        y = (onp.asarray(x) - self.c) / self.L
        out = []
        for d in range(self.dim):
            e = self.exps.copy()
            f = e[:, d].astype(float)
            e[:, d] = onp.maximum(e[:, d] - 1, 0)
            out.append((f * onp.prod(y[..., None, :] ** e, axis=-1)) @ self.coef / self.L)
        return onp.stack(out, -1)                                                  # (..., vec, dim)

    def hess(self, x):
        y = (onp.asarray(x) - self.c) / self.L
        out = onp.zeros(y.shape[:-1] + (self.coef.shape[1], self.dim, self.dim))
        for a in range(self.dim):
            for b in range(self.dim):
                e = self.exps.copy()
                f = e[:, a].astype(float)
                e[:, a] = onp.maximum(e[:, a] - 1, 0)
                f = f * e[:, b]
                e[:, b] = onp.maximum(e[:, b] - 1, 0)
                out[..., a, b] = (f * onp.prod(y[..., None, :] ** e, axis=-1)) @ self.coef / self.L**2
        return out


def frame(points):
    """centre and half-size of a point cloud"""
    c = (points.max(0) + points.min(0)) / 2
    return c, max(float((points.max(0) - points.min(0)).max() / 2), 1e-12)

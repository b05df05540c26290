"""Shared vocabulary of the checks: violations, cases, tolerances, silence."""
import contextlib
import io
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted, not judged)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def err(a, b):
    """max |a-b| and max |b| as floats (nan-safe: any nan gives inf)."""
    import numpy as onp
    a = onp.asarray(a, dtype=float)
    b = onp.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"shape mismatch: got {a.shape}, expected {b.shape}")
    if a.size == 0:
        return 0., 0.
    d = onp.abs(a - b)
    d = float(onp.max(d)) if onp.all(onp.isfinite(d)) else float('inf')
    return d, float(onp.max(onp.abs(b)))


def close(a, b, what, rtol=1e-8, atol=1e-10, scale=None):
    """require |a-b| <= atol + rtol*scale (max norm); scale defaults to max|b|."""
    d, s = err(a, b)
    s = s if scale is None else max(float(scale), s)
    if not d <= atol + rtol * s:
        import numpy as onp
        aa, bb = onp.asarray(a, dtype=float), onp.asarray(b, dtype=float)
        dd = onp.abs(aa - bb)
        k = onp.unravel_index(int(onp.nanargmax(onp.where(onp.isfinite(dd), dd, onp.inf))), dd.shape) if dd.ndim else ()
        raise Violation(f"{what}: max difference {d:.6g} (scale {s:.6g}, tolerance {atol + rtol * s:.3g}) "
                        f"at {tuple(int(i) for i in k)}: got {aa[k]!r}, expected {bb[k]!r}")
    return d


@contextlib.contextmanager
def quiet():
    """Swallow the solver's progress output (Python level)."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def touches_repo(tb):
    """Does this traceback pass through a file of the code under test?"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False

"""Replaceable environment of the code under test: scipy.optimize.minimize goes through a dispatcher
installed before smt is imported, so a check can script the optimizer's answers."""
import scipy.optimize as _so

_real = _so.minimize
HOOK = [None]


def _dispatch(*a, **k):
    h = HOOK[0]
    if h is None:
        return _real(*a, **k)
    return h(_real, *a, **k)


_so.minimize = _dispatch


class minimize_hook:
    """with minimize_hook(f): every scipy.optimize.minimize call becomes f(real, fun, x0, ...)"""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old = HOOK[0]
        HOOK[0] = self.f
        return self

    def __exit__(self, *a):
        HOOK[0] = self.old
        return False


def frozen(real, fun, x0, *a, **k):
    """an optimizer that stops at its starting point"""
    import numpy as np

    x0 = np.array(x0, dtype=float).ravel()
    return _so.OptimizeResult(x=x0, fun=fun(x0), success=True, nfev=1, nit=0, status=0, message="frozen")

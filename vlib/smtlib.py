"""Shared universe of model configurations, data sets and comparison helpers."""
import itertools
import numpy as np
from vlib import seams  # noqa: F401  (installs the optimizer seam before smt is imported)
from smt.surrogate_models import LS, QP, IDW, RBF, RMTB, RMTC, KRG, KPLS, KPLSK, GEKPLS, MGP, GENN
from smt.applications import MFK, MFKPLS, MFKPLSK

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]


def halton(n, d, skip=1):
    out = np.zeros((n, d))
    for j in range(d):
        b = PRIMES[j]
        for i in range(n):
            f, r, k = 1.0, 0.0, i + skip
            while k > 0:
                f /= b
                r += f * (k % b)
                k //= b
            out[i, j] = r
    return out


def fun(x, ny=1, s=0.0):
    """smooth test function on [0,1]^d, several outputs"""
    x = np.asarray(x, float)
    cols = []
    for m in range(ny):
        y = (0.3 + s) * m
        for j in range(x.shape[1]):
            y = y + np.sin((1.7 + 0.6 * j + 0.9 * m + s) * x[:, j] + 0.4 * m) * (1.0 + 0.5 * j)
        y = y + 0.6 * np.prod(x + 0.3 + 0.1 * m, axis=1)
        cols.append(y)
    return np.ascontiguousarray(np.array(cols).T)


def dfun(x, kx, ny=1, s=0.0):
    h = 1e-6
    e = np.zeros(x.shape[1])
    e[kx] = h
    return (fun(x + e, ny, s) - fun(x - e, ny, s)) / (2 * h)


QUIET = dict(print_global=False)


def unit(nx):
    return np.array([[0.0, 1.0]] * nx)


# name -> (class, base options(nx), needs training derivatives, multi-output allowed)
def _o(**k):
    return lambda nx: dict(k)


def _rm(**k):
    return lambda nx: dict(xlimits=unit(nx), **k)


CONFIGS = {
    "LS": (LS, _o(), False, True),
    "QP": (QP, _o(), False, True),
    "IDW": (IDW, _o(), False, True),
    "IDW-p2": (IDW, _o(p=2), False, True),
    "RBF": (RBF, _o(d0=0.8), False, True),
    "RBF-p0": (RBF, _o(d0=0.8, poly_degree=0), False, True),
    "RBF-p1": (RBF, _o(d0=0.8, poly_degree=1), False, True),
    "RMTB": (RMTB, _rm(num_ctrl_pts=6, order=4, energy_weight=1e-4), False, True),
    "RMTB-lin": (RMTB, _rm(num_ctrl_pts=5, order=3, approx_order=2, extrapolate=True, min_energy=False, regularization_weight=1e-6, solver="dense-lu", derivative_solver="dense-lu"), False, True),
    "RMTC": (RMTC, _rm(num_elements=2), False, True),
    "RMTC-ex": (RMTC, _rm(num_elements=2, extrapolate=True, approx_order=2), False, True),
    "KRG": (KRG, _o(), False, True),
    "KRG-abs": (KRG, _o(corr="abs_exp", poly="linear"), False, True),
    "KRG-m52": (KRG, _o(corr="matern52"), False, True),
    "KRG-m32": (KRG, _o(corr="matern32", poly="quadratic"), False, True),
    "KRG-lin": (KRG, _o(corr="squar_exp", poly="linear"), False, True),
    "KRG-noise": (KRG, _o(eval_noise=True, noise0=[1e-4]), False, False),
    "KRG-tnc": (KRG, _o(hyper_opt="TNC"), False, False),
    "KPLS": (KPLS, _o(n_comp=1), False, False),
    "KPLS-abs": (KPLS, _o(n_comp=1, corr="abs_exp"), False, False),
    "KPLSK": (KPLSK, _o(n_comp=1), False, False),
    "GEKPLS": (GEKPLS, lambda nx: dict(xlimits=unit(nx), n_comp=1, extra_points=1, delta_x=0.01), True, False),
    "GEKPLS0": (GEKPLS, lambda nx: dict(xlimits=unit(nx), n_comp=1, extra_points=0), True, False),
    "MGP": (MGP, _o(n_comp=1), False, False),
    "GENN": (GENN, _o(num_iterations=5, num_epochs=2, mini_batch_size=4, seed=3, is_print=False, deep=2, wide=3), True, False),
    "MFK": (MFK, _o(), False, False),
    "MFKPLS": (MFKPLS, _o(n_comp=1), False, False),
    "MFKPLSK": (MFKPLSK, _o(n_comp=1), False, False),
}


# further configurations, used where histories matter (the name says how the data is given: two levels for MFK2-)
MORE = {
    "KRG-het": (KRG, _o(use_het_noise=True, eval_noise=True, noise0=[1e-3]), False, False),
    "KRG-hetgiven": (KRG, _o(use_het_noise=True, noise0=[1e-2]), False, False),
    "KPLS-eval": (KPLS, _o(n_comp=1, eval_noise=True, noise0=[1e-2]), False, False),
    "KPLSK-eval": (KPLSK, _o(n_comp=1, eval_noise=True, noise0=[1e-2]), False, False),
    "MFK2": (MFK, _o(), False, False),
    "MFK2-opt": (MFK, _o(optim_var=True, eval_noise=True, noise0=[1e-2]), False, False),
    "MFK2-lin": (MFK, _o(rho_regr="linear", corr="abs_exp"), False, False),
    "MFK2-het": (MFK, _o(use_het_noise=True, eval_noise=True), False, False),
    "MFK2-PLS": (MFKPLS, _o(n_comp=1), False, False),
    "MFK2-PLSK": (MFKPLSK, _o(n_comp=1, eval_noise=True), False, False),
}
ALL = dict(CONFIGS, **MORE)


def make(name, nx, **extra):
    cls, opts, needs, multi = ALL[name]
    o = opts(nx)
    o.update(extra)
    o.update(QUIET)
    return cls(**o)


def dataset(nt, nx, ny=1, skip=1, s=0.0):
    x = halton(nt, nx, skip)
    return x, fun(x, ny, s)


def feed(name, sm, x, y, s=0.0, derivs=True):
    """set the training data (and derivatives where the model needs them)"""
    if name.startswith("MFK2"):
        xl = np.vstack([x, halton(3 + len(x) // 2, x.shape[1], 57)])
        sm.set_training_values(xl, 0.7 * fun(xl, y.shape[1], s) + xl[:, :1] - 0.5, name=0)
    sm.set_training_values(x.copy(), y.copy())
    if ALL[name][2] and derivs:
        for k in range(x.shape[1]):
            sm.set_training_derivatives(x.copy(), dfun(x, k, y.shape[1], s), k)


def attempt(f, *a, **k):
    """('ok', value) or ('exc', type name)"""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__)


def answers(sm, xq, kinds=("v", "d", "s", "sd", "o")):
    """every prediction the model offers at xq"""
    out = {}
    if "v" in kinds:
        out["values"] = attempt(sm.predict_values, xq.copy())
    if "d" in kinds:
        for k in range(xq.shape[1]):
            out["d%d" % k] = attempt(sm.predict_derivatives, xq.copy(), k)
    if "s" in kinds:
        out["var"] = attempt(sm.predict_variances, xq.copy())
    if "sd" in kinds and sm.supports.get("variance_derivatives"):
        for i in range(min(2, len(xq))):
            out["dvar%d" % i] = attempt(sm.predict_variance_derivatives, xq[i : i + 1].copy())
    if "o" in kinds:
        r = attempt(sm.predict_output_derivatives, xq.copy())
        if r[0] == "ok":
            r = ("ok", np.concatenate([np.asarray(r[1][k], float).ravel() for k in sorted(r[1], key=repr)]))
        out["dydt"] = r
    return out


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    try:
        na, nb = np.isnan(a), np.isnan(b)
    except TypeError:
        return bool(np.all(a == b))
    if not np.array_equal(na, nb):
        return False
    a, b = a[~na], b[~nb]
    if a.size == 0:
        return True
    ia, ib = np.isinf(a), np.isinf(b)
    if not np.array_equal(ia, ib) or not np.array_equal(a[ia], b[ib]):
        return False
    a, b = a[~ia], b[~ib]
    if a.size == 0:
        return True
    scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    return bool(np.max(np.abs(a - b)) <= atol + rtol * scale)


def same(r1, r2, rtol=1e-7, atol=1e-9):
    if r1[0] != r2[0]:
        return False
    if r1[0] == "exc":
        return r1[1] == r2[1]
    return close(r1[1], r2[1], rtol, atol)


def diff(A, B, rtol=1e-7, atol=1e-9):
    """names of answers that differ"""
    return [k for k in A if not same(A[k], B[k], rtol, atol)]


def maxdiff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shapes %s %s" % (a.shape, b.shape)
    return float(np.max(np.abs(a - b))) if a.size else 0.0

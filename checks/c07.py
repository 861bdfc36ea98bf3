"""C07: every trained Kriging state of the lattice (correlation parameters chosen by a scripted optimizer) is compared with an
independent implementation of the universal-Kriging equations."""
import contextlib, io, itertools
import numpy as np
import scipy.optimize as so
from vlib.smtlib import *
from vlib import gpref

ID = "C07"
LEVEL = "model_checking"
RULE = ("every combination of model {KRG, KPLS, KPLSK} x correlation x trend x number of inputs x outputs x noise mode x nugget x correlation parameters of the lattice (reached through an optimizer whose answer is scripted) "
        "and the parameters found by the real Cobyla and TNC searches; every trained state is compared with the textbook mean and mean squared error at training points, interior, face and far points. "
        "Non-trivial: trends other than constant, noise, several outputs, anisotropic parameters")
BOUNDS = {"quick": "nx<=3, 3^nx parameter lattice; large batches crossing the 10^4 chunk limit", "thorough": "nx<=4, more data sets, 4^nx lattice"}
ASSUMPTIONS = ["correlations whose condition number exceeds 1e11 are only checked for sign and finiteness"]
TIMEOUT = 600
NOISE = {"none": dict(), "nugget": dict(nugget=1e-3), "noise0": dict(noise0=[2e-2]), "eval": dict(eval_noise=True, noise0=[1e-2]), "het": dict(use_het_noise=True, noise0=None), "hetfix": dict(use_het_noise=True, noise0=[1e-2]),
         "heteval": dict(use_het_noise=True, eval_noise=True, noise0=[1e-3])}


def cases(tier):
    out = []
    th = tier == "thorough"
    for model in ("KRG", "KPLS", "KPLSK"):
        for corr in (("squar_exp", "abs_exp", "matern52", "matern32") if model == "KRG" else ("squar_exp", "abs_exp") if model == "KPLS" else ("squar_exp",)):
            for poly in ("constant", "linear", "quadratic"):
                for nx in ((1, 2, 3) if not th else (1, 2, 3, 4)):
                    for ny in (1, 2):
                        for noise in NOISE:
                            if ny == 2 and noise not in ("none", "nugget", "noise0"):
                                continue
                            out.append(dict(part="lattice", model=model, corr=corr, poly=poly, nx=nx, ny=ny, noise=noise, tier=tier,
                                            key="C07/%s/%s/%s/nx%d/ny%d/%s" % (model, corr, poly, nx, ny, noise)))
                    for opt in ("Cobyla", "TNC"):
                        for noise in ("none", "eval"):
                            if opt == "TNC" and noise == "eval":
                                continue
                            out.append(dict(part="search", model=model, corr=corr, poly=poly, nx=nx, ny=1, noise=noise, opt=opt, tier=tier,
                                            key="C07/search/%s/%s/%s/nx%d/%s/%s" % (model, corr, poly, nx, noise, opt)))
            out.append(dict(part="big", model=model, corr=corr, tier=tier, key="C07/big/%s/%s" % (model, corr)))
    out.append(dict(part="degenerate", tier=tier, key="C07/degenerate"))
    out.sort(key=lambda c: c["part"] != "big")
    return out


class Script:
    """optimizer that answers with the given parameters (log10), calling the objective there"""

    def __init__(self, theta):
        self.t = np.log10(np.asarray(theta, float))

    def __call__(self, real, fun, x0, *a, **k):
        x0 = np.asarray(x0, float).ravel()
        x = x0.copy()
        m = min(len(self.t), len(x))
        x[:m] = self.t[:m]
        if len(x) < len(self.t):
            x = self.t[: len(x)].copy()
        return so.OptimizeResult(x=x, fun=fun(x), success=True, nfev=1, status=0, message="scripted")


def build(case, x, y, **extra):
    o = dict(NOISE[case["noise"]])
    if "noise0" in o and o["noise0"] is None:
        o["noise0"] = list(0.01 + 0.03 * (np.arange(len(x)) % 3))
    o.update(extra)
    o.update(corr=case["corr"], poly=case["poly"], print_global=False, theta_bounds=[1e-4, 100.0])
    cls = {"KRG": KRG, "KPLS": KPLS, "KPLSK": KPLSK}[case["model"]]
    if case["model"] != "KRG":
        o["n_comp"] = case.get("n_comp", 1)
    sm = cls(**o)
    sm.set_training_values(x, y)
    return sm, o


def reference(case, sm, o, x, y, theta):
    W = gpref.pls_weights(x, y, o["n_comp"]) if case["model"] == "KPLS" else None
    scale = None
    nug = o.get("nugget", 100 * np.finfo(float).eps)
    if case["noise"] == "heteval":
        # replicated points are merged: mean output, variance of the mean (noise0 where there is no replicate)
        X, Y, xo, yo, xs, ys = gpref.standard(x, y)
        u, inv, cnt = np.unique(x, axis=0, return_inverse=True, return_counts=True)
        inv = np.ravel(inv)
        ym = np.array([y[inv == i].mean(0) for i in range(len(u))])
        var = np.array([o["noise0"][0] if cnt[i] == 1 or np.ptp(Y[inv == i]) == 0 else np.var(Y[inv == i], ddof=1) for i in range(len(u))]) / cnt
        return gpref.UK(u, ym, case["corr"], theta, case["poly"], var, W, scale=(xo, xs, yo, ys)), np.sort(var)
    if case["noise"] == "eval":
        diag = float(np.ravel(sm.optimal_noise)[0])
    else:
        n0 = o.get("noise0", [0.0])
        diag = nug + np.array(n0 if len(n0) > 1 else [n0[0]] * len(x))
    return gpref.UK(x, y, case["corr"], theta, case["poly"], diag, W), None


def judge(case, sm, o, x, y, xq, R, key, theta=None):
    """compare one trained state with the reference"""
    th = np.asarray(sm.optimal_theta, float).ravel()
    if theta is not None:
        R.check(close(th, theta, 1e-9), key + "/theta", "reports theta %s, the optimizer returned %s" % (th, theta))
    ref, noise = reference(case, sm, o, x, y, th)
    v, s = sm.predict_values(xq.copy()), sm.predict_variances(xq.copy())
    R.ev(2), R.trace()
    ny = y.shape[1]
    R.check(v.shape == (len(xq), ny) and s.shape == (len(xq), ny), key + "/shape", "shapes %s %s" % (v.shape, s.shape))
    R.check(np.all(s >= 0), key + "/negative", "negative variance %s" % s.min())
    R.check(np.all(sm.predict_variances(x.copy()) >= 0), key + "/negative-training", "negative variance at a training point %s" % sm.predict_variances(x.copy()).min())
    if not (ref.cond < 1e11 and ref.condM < 1e11):
        R.skip("ill-conditioned")
        R.check(np.all(np.isfinite(v)), key + "/finite", "non-finite prediction")
        return
    tol = 1e-8 + 1e-14 * max(ref.cond, ref.condM)
    if noise is not None:
        R.check(close(np.sort(np.ravel(sm.optimal_noise)), noise, 1e-7), key + "/hetnoise", "estimated noise %s, sample variances of the means are %s" % (np.sort(np.ravel(sm.optimal_noise)), noise))
    m, e = ref.mean(xq), np.maximum(ref.mse(xq), 0)
    R.check(close(v, m, max(tol, 1e-7), 1e-9), key + "/mean", "mean differs from the universal Kriging mean by %s" % maxdiff(v, m))
    R.check(close(s, e, max(tol, 1e-6), 1e-9 + tol * float(np.max(ref.s2))), key + "/mse", "variance differs from the universal Kriging MSE: got %s want %s" % (s.ravel()[:4], e.ravel()[:4]))
    R.check(close(np.ravel(sm.optimal_par["sigma2"]), ref.s2, max(tol, 1e-7)), key + "/sigma2", "sigma2 %s, reference %s" % (sm.optimal_par["sigma2"], ref.s2))
    if case["noise"] == "none" and ref.cond < 1e8:
        R.check(close(sm.predict_values(x.copy()), y, 1e-5), key + "/interpolate", "does not interpolate: off by %s" % maxdiff(sm.predict_values(x.copy()), y))
        R.check(np.all(sm.predict_variances(x.copy()) <= 1e-5 * ref.s2), key + "/zero-variance", "variance at training points %s" % sm.predict_variances(x.copy()).max())


def data(case):
    nx, ny = case["nx"], case["ny"]
    nt = {1: 7, 2: 9, 3: 13, 4: 18}[nx] if case["poly"] == "quadratic" else {1: 5, 2: 7, 3: 9, 4: 11}[nx]
    x = halton(nt, nx, 1) * np.array([2.0, 0.7, 5.0, 1.0])[:nx] - 0.3
    y = fun(halton(nt, nx, 1) * 2, ny) * 3 + 1
    if case["noise"] == "heteval":
        x = np.vstack([x, x[:2], x[1:2]])
        y = np.vstack([y, y[:2] + 0.07, y[1:2] - 0.11])
    lo, hi = x.min(0), x.max(0)
    xq = np.vstack([lo + (hi - lo) * halton(4, nx, 40), x[:2], (lo + hi)[None] / 2, lo[None] - 1.5, hi[None] + 30])
    return x, y, xq


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["run_" + case["part"]](case, R)


def run_lattice(case, R):
    x, y, xq = data(case)
    nx = case["nx"]
    vals = (0.05, 0.9, 7.0) if case["tier"] == "quick" else (0.01, 0.2, 1.5, 9.0)
    for nc in (range(1, nx + 1) if case["model"] == "KPLS" else [nx]):
        case["n_comp"] = nc if case["model"] == "KPLS" else 1
        for th in itertools.product(vals, repeat=nc if case["model"] == "KPLS" else nx):
            key = "%s/nc%d/%s" % (case["key"], nc, ",".join(map(str, th)))
            sm, o = build(case, x, y)
            with seams.minimize_hook(Script(th)):
                r = attempt(sm.train)
            R.tr()
            if r[0] == "exc":
                # raising is an answer only where the correlation matrix is numerically singular
                W = gpref.pls_weights(x, y, nc) if case["model"] == "KPLS" else None
                c = np.linalg.cond(gpref.UK(np.unique(x, axis=0), np.zeros((len(np.unique(x, axis=0)), 1)), case["corr"], th, case["poly"], 1e-14, W).R)
                R.check(c > 1e12, key + "/raises", "training raises %s" % r[1])
                continue
            R.state(key)
            if case["poly"] != "constant" or case["noise"] != "none" or case["ny"] > 1 or len(set(th)) > 1:
                R.nt(key)
            judge(case, sm, o, x, y, xq, R, key, th)


def run_search(case, R):
    x, y, xq = data(case)
    np.random.seed(5)
    for nc in (range(1, case["nx"] + 1) if case["model"] != "KRG" else [1]):
        case["n_comp"] = nc
        sm, o = build(case, x, y, hyper_opt=case["opt"])
        r = attempt(sm.train)
        R.tr()
        if not R.check(r[0] == "ok", "%s/nc%d/raises" % (case["key"], nc), "training raises %s" % (r[1],)):
            continue
        R.state(case["key"], nc), R.nt(case["key"], nc)
        th = np.asarray(sm.optimal_theta, float).ravel()
        R.check(np.all(np.isfinite(th)) and np.all(th > 0), case["key"] + "/theta", "theta %s" % th)
        if case["model"] == "KPLSK":
            R.check(len(th) == case["nx"], case["key"] + "/ntheta", "KPLSK reports %d parameters" % len(th))
        judge(case, sm, o, x, y, xq, R, "%s/nc%d" % (case["key"], nc))


def run_big(case, R):
    """batches and training sets whose distance arrays exceed the 10^4 rows the code processes at once"""
    nx = 2
    case = dict(case, poly="linear", nx=nx, ny=1, noise="nugget", n_comp=1)
    for nt, nq in ((144, 3), (20, 501), (100, 100), (101, 100), (10, 1000), (10, 2001)):
        x = halton(nt, nx, 1)
        y = fun(x * 2)
        xq = halton(nq, nx, 7) * 1.2 - 0.1
        th = (3.0,) if case["model"] == "KPLS" else (3.0, 5.0)
        sm, o = build(case, x, y)
        with seams.minimize_hook(Script(th)):
            sm.train()
        R.tr(), R.state(nt, nq, case["key"]), R.nt(nt, nq, case["key"])
        judge(case, sm, o, x, y, xq, R, "%s/%dx%d" % (case["key"], nt, nq), th)


def run_degenerate(case, R):
    """constant inputs, constant outputs, two points, duplicated points with noise, scales of the data"""
    for corr in ("squar_exp", "abs_exp", "matern52", "matern32"):
        x = halton(6, 2, 1)
        y = fun(x)
        for name, (X, Y) in {"const-x": (np.column_stack([x[:, 0], np.full(6, 0.4)]), y), "const-y": (x, np.full((6, 1), 2.5)), "two": (x[:2], y[:2]), "tiny": (x * 1e-6, y * 1e-6), "huge": (x * 1e6, y * 1e6),
                             "offset": (x + 100, y + 1000), "one-const-out": (x, np.hstack([y, np.full((6, 1), 3.0)])), "y10": (x, np.hstack([y, y * 10]))}.items():
            c = dict(model="KRG", corr=corr, poly="constant", nx=2, ny=Y.shape[1], noise="none")
            key = "C07/degenerate/%s/%s" % (corr, name)
            sm, o = build(c, X, Y)
            with seams.minimize_hook(Script((1.0, 2.0))):
                r = attempt(sm.train)
            R.tr()
            if name == "const-y" and r[0] == "exc":
                R.skip("no likelihood maximum for constant outputs: training raises")
                continue
            if not R.check(r[0] == "ok", key + "/raises", "training raises %s" % (r[1],)):
                continue
            R.state(key), R.nt(key)
            lo, hi = X.min(0), X.max(0)
            xq = lo + (hi - lo) * halton(4, 2, 40)
            judge(c, sm, o, X, Y, xq, R, key, (1.0, 2.0))
        for noise in ("noise0", "eval", "nugget"):
            c = dict(model="KRG", corr=corr, poly="constant", nx=2, ny=1, noise=noise)
            X, Y = np.vstack([x, x[:3]]), np.vstack([y, y[:3] + 0.1])
            sm, o = build(c, X, Y)
            with seams.minimize_hook(Script((1.0, 2.0))):
                r = attempt(sm.train)
            if R.check(r[0] == "ok", "C07/degenerate/%s/dup/%s/raises" % (corr, noise), "training raises %s" % (r[1],)):
                judge(c, sm, o, X, Y, halton(4, 2, 40), R, "C07/degenerate/%s/dup/%s" % (corr, noise), (1.0, 2.0))
        # nearly singular correlation matrices and large outputs: rounding must not show as a negative variance
        for model, nx, nt, t, s, ng in itertools.product(("KRG", "KPLS", "KPLSK"), (1, 2), (6, 11), (1e-3, 1e-2, 0.1, 1.0, 5.0), (1.0, 1e4, 1e8), (0.0, None)):
            if model != "KRG" and nx == 1 or corr not in {"KRG": ("squar_exp", "abs_exp", "matern52", "matern32"), "KPLS": ("squar_exp", "abs_exp"), "KPLSK": ("squar_exp",)}[model]:
                continue
            X = halton(nt, nx, 1)
            Y = s * fun(X)
            c = dict(model=model, corr=corr, poly="constant", nx=nx, ny=1, noise="none")
            sm, o = build(c, X, Y, **({} if ng is None else dict(nugget=ng)))
            key = "C07/degenerate/%s/small/%s/nx%d/nt%d/%g/%g/%s" % (corr, model, nx, nt, t, s, ng)
            with seams.minimize_hook(Script((t,) * nx)):
                r = attempt(sm.train)
            R.tr()
            if r[0] == "exc":
                R.skip("singular correlation matrix: training raises")
                continue
            R.state(key), R.nt(key), R.ev(), R.trace()
            Q = np.vstack([X, X + 1e-6, halton(9, nx, 30)])
            v, p = sm.predict_variances(Q), sm.predict_values(Q)
            R.check(np.all(v >= 0) and np.all(np.isfinite(v)) and np.all(np.isfinite(p)), key + "/sign", "negative or non-finite answers: variance %s, value %s" % (v.min(), p.min()))

"""C08: the objective and gradient that training hands to scipy.optimize.minimize are captured and evaluated on a whole lattice
of correlation parameters, against an independent likelihood and finite differences."""
import contextlib, io, itertools
import numpy as np
import scipy.optimize as so
from vlib.smtlib import *
from vlib import gpref

ID = "C08"
LEVEL = "model_checking"
RULE = ("every combination of model x correlation x trend x noise option x inputs x outputs x optimizer; the objective (and gradient) captured from every optimizer call of the training is evaluated on every point of the "
        "parameter lattice, compared pairwise (order of all pairs) with the independent concentrated likelihood, and its gradient with central differences of the objective; evaluation order is explored too. "
        "Non-trivial: lattice points with gradients, noise parameters, non-constant trends")
BOUNDS = {"quick": "nx<=2, 4 values per parameter; 145 points with 2 values per parameter", "thorough": "nx<=3, 5 values per parameter, two data sets"}
ASSUMPTIONS = ["lattice points whose correlation matrix has condition number above 1e9 are left out (finite differences are not meaningful there)"]
TIMEOUT = 600
NOISE = {"none": dict(), "nugget": dict(nugget=1e-3), "noise0": dict(noise0=[2e-2]), "eval": dict(eval_noise=True, noise0=[1e-2]), "het": dict(use_het_noise=True, noise0=[0.02]), "heteval": dict(use_het_noise=True, eval_noise=True, noise0=[1e-3])}
MODELS = {"KRG": KRG, "KPLS": KPLS, "KPLSK": KPLSK, "GEKPLS": GEKPLS, "MGP": MGP, "MFK": MFK, "MFKPLS": MFKPLS, "MFKPLSK": MFKPLSK}


def cases(tier):
    out = []
    th = tier == "thorough"
    for model in MODELS:
        for corr in {"KRG": ("squar_exp", "abs_exp", "matern52", "matern32"), "MFK": ("squar_exp", "abs_exp", "matern52", "matern32"), "KPLSK": ("squar_exp",), "MFKPLSK": ("squar_exp",), "MGP": (None,)}.get(model, ("squar_exp", "abs_exp")):
            for poly in ("constant", "linear", "quadratic"):
                for noise in NOISE:
                    if model in ("GEKPLS", "MGP") and noise not in ("none", "nugget", "noise0"):
                        continue
                    for nx in ((1, 2) if not th else (1, 2, 3)):
                        for ny in ((1, 2) if model in ("KRG", "KPLS") and noise in ("none", "noise0") else (1,)):
                            out.append(dict(model=model, corr=corr, poly=poly, noise=noise, nx=nx, ny=ny, tier=tier, key="C08/%s/%s/%s/%s/nx%d/ny%d" % (model, corr, poly, noise, nx, ny)))
    # more pairs of points than the kernels process at once
    for model in ("KRG", "KPLS", "MFK") if not th else ("KRG", "KPLS", "MFK", "KPLSK", "MFKPLS"):
        for corr in ("squar_exp", "abs_exp", "matern52", "matern32") if model in ("KRG", "MFK") else ("squar_exp", "abs_exp") if model != "KPLSK" else ("squar_exp",):
            out.append(dict(model=model, corr=corr, poly="constant", noise="noise0", nx=2, ny=1, nt=145, tier=tier, key="C08/%s/%s/large" % (model, corr)))
    return out


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        for s in (0.0, 0.5) if case["tier"] == "thorough" else (0.0,):
            for opt in ("Cobyla", "TNC") if "nt" not in case else ("TNC",):
                if case["model"] == "MGP" and opt == "Cobyla":
                    continue
                one(case, opt, s, R)


class Capture:
    """an optimizer that explores the lattice instead of optimizing, then answers with its starting point"""

    def __init__(self, visit):
        self.visit, self.calls = visit, 0

    def __call__(self, real, fun, x0, *a, **k):
        x0 = np.array(x0, float).ravel()
        self.calls += 1
        self.visit(self.calls - 1, fun, k.get("jac"), x0)
        return so.OptimizeResult(x=x0, fun=fun(x0), success=True, nfev=1, status=0, message="captured")


def one(case, opt, s, R):
    model, nx, ny, noise = case["model"], case["nx"], case["ny"], case["noise"]
    key = "%s/%s/s%g" % (case["key"], opt, s)
    nt = {"constant": 6, "linear": 7, "quadratic": 8}[case["poly"]] + 4 * (nx - 1)
    nt = case.get("nt", nt)
    x = halton(nt, nx, 1) * np.array([2.0, 0.7, 3.0])[:nx] - 0.3
    y = fun(halton(nt, nx, 1) * 2, ny, s) * 3 + 1
    if noise == "heteval":
        x, y = np.vstack([x, x[:2]]), np.vstack([y, y[:2] + 0.07])
    o = dict(NOISE[noise], poly=case["poly"], print_global=False, theta_bounds=[1e-4, 100.0])
    if model != "MGP":
        o.update(corr=case["corr"], hyper_opt=opt)
    ncs = [1]
    if model in ("KPLS", "KPLSK", "GEKPLS", "MFKPLS", "MFKPLSK", "MGP"):
        ncs = range(1, nx + 1) if model not in ("MFKPLSK", "MGP") else [1, 2] if (model, nx) == ("MGP", 2) else [1]
    for nc in ncs:
        if ncs != [1] or model not in ("KRG", "MFK"):
            o["n_comp"] = nc
        if model == "GEKPLS":
            o.update(xlimits=np.column_stack([x.min(0), x.max(0)]), extra_points=1, delta_x=0.05)
        sm = MODELS[model](**o)
        if model.startswith("MFK"):
            xl = np.vstack([halton(nt + 3, nx, 3) * np.array([2.0, 0.7, 3.0])[:nx] - 0.3, x])
            sm.set_training_values(xl, fun(xl * 0.7, 1, 0.3), name=0)
        sm.set_training_values(x, y)
        if model == "GEKPLS":
            for k in range(nx):
                sm.set_training_derivatives(x, dfun(x, k, 1, s), k)
        state = {}

        def visit(call, fun, jac, x0):
            explore(case, "%s/nc%d/call%d" % (key, nc, call), sm, fun, jac, x0, x, y, nc, call, state, R)

        cap = Capture(visit)
        with seams.minimize_hook(cap):
            r = attempt(sm.train)
        if r[0] == "exc":
            # the estimated noise has no gradient: only these refuse to train with TNC
            if noise == "eval" and opt == "TNC" and model.startswith(("KPLSK", "MFK")):
                R.skip("option combination not accepted: %s" % r[1])
            else:
                R.fail(key + "/trains", "the training raises %s" % r[1])
            continue
        R.trace()
        R.check(cap.calls > 0, key + "/calls", "the training never calls its optimizer")


def explore(case, key, sm, fun, jac, x0, x, y, nc, call, state, R):
    model, noise = case["model"], case["noise"]
    d = len(x0)
    vals = {"quick": (-1.2, -0.4, 0.3, 0.9), "thorough": (-1.3, -0.7, 0.0, 0.4, 1.0)}[case["tier"]]
    if "nt" in case:
        vals = (-0.4, 0.9)
    elif model == "MGP":
        vals = (-0.8, 0.1, 0.7, 1.3) if d < 4 else (-0.8, 0.1, 0.7)
    elif d > 3:
        vals = (-0.7, 0.1, 0.8)
    pts = [np.array(p) for p in itertools.product(vals, repeat=d)]
    got, want = [], []
    for p in pts:
        ref = reference(case, sm, p, x, y, nc, call, d)
        cond = max(ref.cond, ref.condM) if ref is not None else condition(sm, fun, p)
        if not cond < 1e9:
            R.skip("ill-conditioned")
            continue
        f = fun(p.copy())
        f = float(np.ravel(f)[0])
        R.ev(), R.tr(), R.state(key, tuple(p))
        if not R.check(np.isfinite(f), key + "/finite", "objective %s at %s" % (f, p)):
            continue
        R.check(fun(p.copy()) == f, key + "/pure", "two evaluations of the objective at %s differ" % p)
        if ref is not None:
            got.append(f), want.append(ref.neg_log_lik())
        if jac is not None:
            try:
                g = np.asarray(jac(p.copy()), float).ravel()
            except Exception as e:
                if noise in ("eval",):
                    R.skip("gradient with the estimated noise is not offered")
                    raise ValueError("not offered")
                R.fail(key + "/jac", "the gradient raises %s: %s" % (type(e).__name__, e))
                return
            R.nt(key, tuple(p)), R.ev()
            if not R.check(g.shape == p.shape, key + "/jac-shape", "gradient shape %s" % (g.shape,)):
                return
            # the second, shorter step is for the parameters where the objective changes too fast for the first
            for h in (5e-4, 1e-5):
                fd = np.array([(8 * (F(fun, p, i, h) - F(fun, p, i, -h)) - (F(fun, p, i, 2 * h) - F(fun, p, i, -2 * h))) / (12 * h) for i in range(d)])
                tol = 1e-5 * max(1, np.abs(fd).max()) + 1e-15 * cond * max(1, abs(f)) / h
                if np.all(np.abs(g - fd) <= tol):
                    break
            R.check(np.all(np.abs(g - fd) <= tol), key + "/gradient", "gradient %s, differences of the objective give %s at %s" % (g, fd, p))
        elif case["poly"] != "constant" or noise != "none":
            R.nt(key, tuple(p))
    if len(got) > 1:
        got, want = np.array(got), np.array(want)
        tol = 1e-6 * max(1.0, np.abs(want).max())
        bad = [(i, j) for i in range(len(got)) for j in range(i) if abs(want[i] - want[j]) > tol and (got[i] - got[j]) * (want[i] - want[j]) <= 0]
        R.count("pairs_ordered", len(got) * (len(got) - 1) // 2)
        R.check(not bad, key + "/order", "the objective orders %d of %d pairs of parameters differently from the likelihood" % (len(bad), len(got) * (len(got) - 1) // 2))


def F(fun, p, i, h):
    q = p.copy()
    q[i] += h
    return float(np.ravel(fun(q))[0])


def condition(sm, fun, p):
    """condition number of the correlation matrix of the evaluation just made (no independent reference for this model)"""
    th = p if sm.name == "MGP" else 10.0 ** p
    par = sm._reduced_likelihood_function(th)[1]
    return max(np.linalg.cond(par["C"]) ** 2, np.linalg.cond(par["G"]) ** 2) if par else np.inf


def reference(case, sm, p, x, y, nc, call, d):
    model, noise = case["model"], case["noise"]
    if model in ("MGP", "GEKPLS") or model.startswith("MFK"):
        return None
    th = 10.0 ** p
    nug = NOISE[noise].get("nugget", 100 * np.finfo(float).eps)
    diag = nug + NOISE[noise].get("noise0", [0.0])[0]
    if noise == "eval":
        th, diag = th[:-1], th[-1]
    W = None
    if model == "KPLS" or (model == "KPLSK" and call < (1 if sm.options["hyper_opt"] == "Cobyla" else 2)):
        W = gpref.pls_weights(x, y, nc)
    if noise == "heteval":
        X, Y, xo, yo, xs, ys = gpref.standard(x, y)
        u, inv, cnt = np.unique(x, axis=0, return_inverse=True, return_counts=True)
        inv = np.ravel(inv)
        ym = np.array([y[inv == i].mean(0) for i in range(len(u))])
        var = np.array([1e-3 if cnt[i] == 1 else np.var(Y[inv == i], ddof=1) for i in range(len(u))]) / cnt
        return gpref.UK(u, ym, case["corr"], th, case["poly"], var, W, scale=(xo, xs, yo, ys))
    return gpref.UK(x, y, case["corr"], th, case["poly"], diag, W)

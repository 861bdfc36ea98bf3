"""C06: the claimed sensitivities to the training outputs are compared with retraining on every perturbed output."""
import contextlib, io, itertools
import numpy as np
from vlib.smtlib import *

ID = "C06"
LEVEL = "model_checking"
RULE = ("every model that claims output derivatives x option combination x nx x ny x training derivatives on/off; for every training datum (value or derivative, every point, every output) the model is retrained with that one datum changed "
        "and the change of every prediction is compared with the claimed sensitivity; cross-output effects must be zero; a combined perturbation of all data is compared as well. Non-trivial: data with a non-zero claimed or observed sensitivity")
BOUNDS = {"quick": "nx<=2 (IDW, RBF nx<=3), ny<=2, 4-9 training points, 6-8 query points", "thorough": "nx<=3, all option products, more points"}
ASSUMPTIONS = ["RMTS with approx_order 4 is compared by central differences at trained states that no longer move when the Newton iteration limit is doubled"]
TIMEOUT = 600


def cases(tier):
    out = []
    th = tier == "thorough"

    def add(name, nx, ny, nt, dv=False, lin=True, **o):
        out.append(dict(name=name, nx=nx, ny=ny, nt=nt, dv=dv, lin=lin, o=o, key="C06/%s/nx%d/ny%d/nt%d/%s%s" % (name, nx, ny, nt, "dv/" if dv else "", ",".join("%s=%s" % i for i in o.items()))))

    for nx in (1, 2, 3, 4) if th else (1, 2, 3):
        for ny in (1, 2, 3):
            for nt in (1, 5, 9):
                for p in (1.0, 2, 2.5, 3.0):
                    add("IDW", nx, ny, nt, p=p)
                for d0, pd, reg in itertools.product((0.5, 1.3), (-1, 0, 1), (1e-10, 1e-2)):
                    if pd == 1 and nt < nx + 1:
                        continue
                    add("RBF", nx, ny, nt, d0=d0, poly_degree=pd, reg=reg)
    SOL = [("dense-lu", "dense-lu"), ("dense-chol", "dense-chol"), ("dense-lu", "lu"), ("lu", "dense-chol"), ("krylov", "krylov"), ("lu", "krylov-lu")]
    for nx in (1, 2, 3) if th else (1, 2):
        for ny in (1, 2) if not th else (1, 2, 3):
            nt = {1: 5, 2: 6, 3: 8}[nx]
            for dv in (False, True):
                for ex, me, (s, ds), ew, ls in itertools.product((False, True), (True, False), SOL if th else SOL[:4], (1e-4, 1e-1), ("backtracking", "bracketed", "null") if th else ("backtracking",)):
                    if nx == 3 and (ny > 1 or ls != "backtracking" or s != "dense-lu" or not me):
                        continue
                    if not me and ew != 1e-4:
                        continue
                    if not th and (s, ds) != SOL[0] and ew == 1e-1:
                        continue
                    rw = 1e-6 if me else 1e-4
                    for name, oo in (("RMTB", dict(order=3, num_ctrl_pts=5)), ("RMTC", dict(num_elements=2))):
                        add(name, nx, ny, nt, dv, True, approx_order=2, extrapolate=ex, min_energy=me, regularization_weight=rw, energy_weight=ew, solver=s, derivative_solver=ds, line_search=ls, **oo)
                for gw in (0.1, 2.0):
                    if dv and nx < 3:
                        add("RMTB", nx, ny, nt, dv, True, approx_order=2, regularization_weight=1e-6, grad_weight=gw, solver="dense-lu", derivative_solver="dense-lu", order=4, num_ctrl_pts=6, smoothness=[2.0, 0.5][:nx])
                        add("RMTC", nx, ny, nt, dv, True, approx_order=2, regularization_weight=1e-6, grad_weight=gw, solver="dense-lu", derivative_solver="dense-lu", num_elements=[1, 2][:nx], smoothness=0.3)
                for p in (4, 6) if th or nx == 1 else (4,):
                    for name, oo in (("RMTB", dict(order=3, num_ctrl_pts=4)), ("RMTC", dict(num_elements=1))):
                        if nx < 3 and (th or not dv or ny == 1 or nx == 1):
                            add(name, nx, ny, nt + 2, dv, False, approx_order=p, energy_weight=0.3, regularization_weight=1e-6, solver="dense-lu", derivative_solver="dense-lu", nonlinear_maxiter=25, solver_tolerance=1e-14, **oo)
    return sorted(out, key=lambda c: c["lin"])


CLS = {"IDW": IDW, "RBF": RBF, "RMTB": RMTB, "RMTC": RMTC}


def train(case, x, data, more=1):
    o = dict(case["o"])
    if "nonlinear_maxiter" in o:
        o["nonlinear_maxiter"] *= more
    if case["name"].startswith("RMT"):
        o["xlimits"] = unit(case["nx"])
    sm = CLS[case["name"]](print_global=False, **o)
    sm.set_training_values(x, data[None])
    for k in data:
        if k is not None:
            sm.set_training_derivatives(x, data[k], k)
    sm.train()
    return sm


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        nx, ny, nt, key = case["nx"], case["ny"], case["nt"], case["key"]
        x = halton(nt, nx, 3)
        data = {None: fun(x, ny)}
        if case["dv"]:
            for k in range(nx):
                data[k] = dfun(x, k, ny)
        q = np.vstack([halton(4, nx, 40), x[:1], np.full((1, nx), 0.5), np.full((1, nx), -0.2), np.where(np.arange(nx) == 0, 1.3, 0.4)[None]])
        sm = train(case, x, data)
        R.ev()
        y0 = sm.predict_values(q)
        D = sm.predict_output_derivatives(q)
        R.trace()
        R.check(set(D) == set(data), key + "/keys", "keys %s for training data %s" % (sorted(D, key=repr), sorted(data, key=repr)))
        if not case["lin"]:
            y1 = train(case, x, data, 2).predict_values(q)
            if maxdiff(y0, y1) > 1e-9:
                R.skip("Newton iteration not converged")
                return
        scale = max(1e-3, np.abs(y0).max())
        e = 0.37 if case["lin"] else 1e-3
        tol = 2e-6 if case["o"].get("solver") in ("krylov",) or "krylov" in str(case["o"].get("derivative_solver")) else 2e-7
        if case["name"] == "RBF" and case["o"]["reg"] < 1e-5:
            tol = 1e-4
        if not case["lin"]:
            tol = 3e-4
        tot = {k: np.zeros_like(v) for k, v in data.items()}
        allpred = np.zeros_like(y0)
        for kk in data:
            if kk not in D:
                continue
            d = np.asarray(D[kk], float)
            if not R.check(d.shape == (len(q), nt, ny), "%s/%s/shape" % (key, kk), "shape %s, expected %s" % (d.shape, (len(q), nt, ny))):
                continue
            for it, iy in itertools.product(range(nt), range(ny)):
                ch = []
                for sgn in (1, -1):
                    p2 = {k: v.copy() for k, v in data.items()}
                    p2[kk][it, iy] += sgn * e
                    ch.append(train(case, x, p2).predict_values(q))
                    R.ev(), R.tr()
                obs = (ch[0] - ch[1]) / (2 * e)
                exp = np.zeros((len(q), ny))
                exp[:, iy] = d[:, it, iy]
                R.state(key, str(kk), it, iy)
                if np.abs(obs).max() > 1e-6:
                    R.nt(key, str(kk), it, iy)
                amp = max(1.0, np.abs(obs).max())
                if not R.check(np.abs(obs - exp).max() <= tol * amp * 10, "%s/%s" % (key, kk), "training datum %s[%d,%d]: claimed sensitivity differs from the effect of retraining by %.3g (max effect %.3g)" % (kk, it, iy, np.abs(obs - exp).max(), np.abs(obs).max())):
                    break
            if case["lin"]:
                w = fun(halton(nt, nx, 20), ny, 0.5)
                tot[kk] = w
                allpred += np.einsum("itk,tk->ik", d, w)
        if case["lin"]:
            ch = train(case, x, {k: v + tot[k] for k, v in data.items()}).predict_values(q) - y0
            R.ev()
            R.check(np.abs(ch - allpred).max() <= 30 * tol * max(1, np.abs(ch).max()), key + "/all", "combined perturbation: predicted change off by %.3g" % np.abs(ch - allpred).max())

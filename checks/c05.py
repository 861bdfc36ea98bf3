"""C05: every derivative answer of every trained model of the lattice is compared with central differences of the predictor."""
import contextlib, io, itertools
import numpy as np
import scipy.optimize as so
from vlib.smtlib import *
from vlib import apps
from checks.c07 import Script

ID = "C05"
LEVEL = "model_checking"
RULE = ("every model x option combination x number of inputs x number of outputs x parameter set of the lattice; at every query point of a set covering training points, cell boundaries, interior and extrapolated points, "
        "predict_derivatives for every kx and predict_variance_derivatives are compared with differences of predict_values / predict_variances (4th order, two step sizes). Non-trivial: points where a derivative is claimed and the model is differentiable")
BOUNDS = {"quick": "nx<=3, ny<=2, 12-18 query points per model", "thorough": "nx<=4, denser options"}
ASSUMPTIONS = ["points at which two step sizes disagree (kinks of the predictor: knots of linear splines, training points of IDW with p<=1) are left out and counted"]
TIMEOUT = 600


def cases(tier):
    out = []
    th = tier == "thorough"
    NX = (1, 2, 3, 4) if th else (1, 2, 3)

    def add(name, nx, ny, **o):
        out.append(dict(name=name, nx=nx, ny=ny, o=o, tier=tier, key="C05/%s/nx%d/ny%d/%s" % (name, nx, ny, ",".join("%s=%s" % i for i in o.items()))))

    for nx in NX:
        for ny in (1, 2):
            add("LS", nx, ny), add("QP", nx, ny)
            for p in (1.0, 1.5, 2, 2.5, 3.0, 4.0):
                add("IDW", nx, ny, p=p)
            for d0, pd, reg in itertools.product((0.4, 1.0, 3.0), (-1, 0, 1), (1e-10, 1e-3)):
                add("RBF", nx, ny, d0=d0, poly_degree=pd, reg=reg)
            if nx > 1:
                add("RBF", nx, ny, d0=[0.5, 0.9, 1.4, 0.7][:nx])
            if nx <= 3:
                for order, ncp, ex in itertools.product((2, 3, 4), (5, 6), (False, True)):
                    if nx == 3 and (ncp == 6 or ny == 2):
                        continue
                    add("RMTB", nx, ny, order=order, num_ctrl_pts=ncp, extrapolate=ex)
                if nx < 3 or ny == 1:
                    for ne, ex in itertools.product((1, 2, 4) if nx < 3 else (2,), (False, True)):
                        add("RMTC", nx, ny, num_elements=ne, extrapolate=ex)
                if nx == 2 and ny == 1:
                    for ao in (2, 4):
                        add("RMTB", nx, ny, order=[4, 3], num_ctrl_pts=[5, 7], approx_order=ao, nonlinear_maxiter=3, extrapolate=True)
                        add("RMTC", nx, ny, num_elements=[2, 3], approx_order=ao, nonlinear_maxiter=3, extrapolate=True)
            for corr, poly, noise in itertools.product(("squar_exp", "abs_exp", "matern52", "matern32"), ("constant", "linear", "quadratic"), (False, True)):
                add("KRG", nx, ny, corr=corr, poly=poly, noise=noise)
                if noise:
                    add("KRG", nx, ny, corr=corr, poly=poly, nugget=2e-3)
        for nc in range(1, nx + 1):
            for corr, poly in itertools.product(("squar_exp", "abs_exp"), ("constant", "linear")):
                add("KPLS", nx, 1, corr=corr, poly=poly, n_comp=nc)
                add("KPLS", nx, 1, corr=corr, poly=poly, n_comp=nc, nugget=2e-3)
                add("KPLS", nx, 1, corr=corr, poly=poly, n_comp=nc, noise=True)
                for ep in (0, 1, 2):
                    if ep <= nx:
                        add("GEKPLS", nx, 1, corr=corr, poly=poly, n_comp=min(nc, 2), extra_points=ep)
            for poly in ("constant", "linear"):
                add("KPLSK", nx, 1, poly=poly, n_comp=nc)
            add("MGP", nx, 1, n_comp=nc)
        for lv in (1, 2, 3):
            for poly in ("constant", "linear", "quadratic"):
                for rho in ("constant", "linear"):
                    add("MFK", nx, 1, poly=poly, rho_regr=rho, levels=lv)
                for cls in ("MFKPLS", "MFKPLSK"):
                    for nc in range(1, nx + 1):
                        if cls == "MFKPLSK" and nc > 1 and nx > 2:
                            continue
                        add(cls, nx, 1, poly=poly, levels=lv, n_comp=nc)
        for dp, w in ((1, 2), (1, 3), (2, 3), (3, 2)):
            for ny in (1, 2):
                add("GENN", nx, ny, deep=dp, wide=w)
    for typ in ("Additive", "Multiplicative"):
        for lf in ("LS", "QP", "KRG", "KPLS", "RBF", "IDW", "GEKPLS"):
            for br in ("LS", "QP", "KRG", "KPLS", "RBF", "IDW", "GEKPLS"):
                if th or (lf in ("LS", "KRG") or br in ("QP", "GEKPLS")):
                    add("VFM", 2, 1, type=typ, lf=lf, br=br)
    return out


def build(case):
    name, nx, ny, o = case["name"], case["nx"], case["ny"], dict(case["o"])
    nt = {1: 8, 2: 12, 3: 16, 4: 20}[nx]
    x, y = dataset(nt, nx, ny)
    if name == "VFM":
        x2 = halton(14, 2, 3)
        kw = {}
        opt = {"KRG": dict(theta0=[0.9, 1.3]), "KPLS": dict(theta0=[0.9]), "RBF": dict(d0=0.8), "IDW": dict(p=2.0), "GEKPLS": dict(theta0=[0.9], deriv=True, xlimits=unit(2))}
        from smt.applications.vfm import VFM

        if "GEKPLS" in (o["lf"], o["br"]):
            kw = dict(dy_LF=np.hstack([0.7 * dfun(x2, k) + (0.4 if k == 0 else 0) for k in (0, 1)]), dy_HF=np.hstack([dfun(x, k) for k in (0, 1)]))
        sm = VFM(type_bridge=o["type"], name_model_LF=o["lf"], name_model_bridge=o["br"], X_LF=x2, y_LF=apps.lo(x2) + 2, X_HF=x, y_HF=y + 2,
                 options_LF=dict(opt.get(o["lf"], {}), print_global=False), options_bridge=dict(opt.get(o["br"], {}), print_global=False), **kw)
        return sm, x, y
    base = {"RMTB": dict(xlimits=unit(nx), energy_weight=1e-4), "RMTC": dict(xlimits=unit(nx), energy_weight=1e-4), "GEKPLS": dict(xlimits=unit(nx), delta_x=0.02),
            "GENN": dict(num_iterations=8, num_epochs=2, mini_batch_size=5, seed=3, is_print=False)}.get(name, {})
    base["print_global"] = False
    if o.pop("noise", False):
        base["noise0"] = [0.03]
    lv = o.pop("levels", 1)
    cls = {"LS": LS, "QP": QP, "IDW": IDW, "RBF": RBF, "RMTB": RMTB, "RMTC": RMTC, "KRG": KRG, "KPLS": KPLS, "KPLSK": KPLSK, "GEKPLS": GEKPLS, "MGP": MGP, "GENN": GENN, "MFK": MFK, "MFKPLS": MFKPLS, "MFKPLSK": MFKPLSK}[name]
    sm = cls(**base, **o)
    for l in range(lv - 1):
        xl = np.vstack([halton(6 + 3 * nx, nx, 30 * (l + 1)), x])
        sm.set_training_values(xl, fun(xl, 1, 0.2 * (l + 1)), name=lv - 2 - l)
    sm.set_training_values(x, y)
    if name in ("GEKPLS", "GENN"):
        for k in range(nx):
            sm.set_training_derivatives(x, dfun(x, k, ny), k)
    return sm, x, y


def fd(f, x, k, h):
    def g(t):
        z = x.copy()
        z[:, k] += t
        return np.asarray(f(z), float)

    return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        nx = case["nx"]
        krig = case["name"] in ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK")
        ths = [(0.6, 2.3, 1.1, 0.9), (5.0, 0.4, 3.0, 1.7)] if krig else [None]
        for th in ths:
            one(case, th, R)


def one(case, th, R):
    name, nx, ny = case["name"], case["nx"], case["ny"]
    key = case["key"] + ("/th%g" % th[0] if th else "")
    np.random.seed(4)
    sm, x, y = build(case)
    hook = Script(np.array(th)) if th else (seams.frozen if name in ("VFM", "MGP") else None)
    if name == "VFM":
        ny = 1
    if hook:
        with seams.minimize_hook(hook):
            r = attempt(lambda: sm.train() if name != "VFM" else sm.predict_values(x))
    else:
        r = attempt(sm.train)
    if r[0] == "exc":
        R.fail(key + "/trains", "the training raises %s" % r[1])
        return
    R.trace()
    pts = [halton(8, nx, 60) * 0.98 + 0.01, x[:2], np.full((1, nx), 0.5), np.full((1, nx), 0.25), np.zeros((1, nx)), np.ones((1, nx))]
    pts += [np.full((1, nx), -0.3), np.full((1, nx), 1.4), np.where(np.arange(nx) == 0, 1.7, 0.4)[None]]
    q = np.vstack(pts)
    span = max(np.ptp(sm.predict_values(q)), 1e-3)
    for k in range(nx):
        r = attempt(sm.predict_derivatives, q.copy(), k)
        R.ev(), R.tr()
        if r[0] == "exc":
            R.skip("predict_derivatives raises %s" % r[1])
            kr = name in ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK") and case["o"].get("corr", "squar_exp") == "squar_exp" and case["o"]["poly"] != "quadratic" and case["o"].get("rho_regr", "constant") == "constant"
            if kr or name in ("LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "GENN"):
                R.fail("%s/k%d/raises" % (key, k), "predict_derivatives raises %s" % r[1])
            continue
        g = np.asarray(r[1], float)
        if not R.check(g.shape == (len(q), ny), "%s/k%d/shape" % (key, k), "shape %s" % (g.shape,)):
            continue
        judge("%s/k%d" % (key, k), g, sm.predict_values, q, k, span, R)
    if name == "VFM" or not sm.supports.get("variance_derivatives"):
        return
    s = attempt(sm.predict_variances, q.copy())
    if s[0] == "exc":
        return
    vspan = max(np.ptp(s[1]), 1e-9)
    for i in range(len(q)):
        r = attempt(sm.predict_variance_derivatives, q[i : i + 1].copy())
        R.ev(), R.tr()
        if r[0] == "exc":
            R.skip("predict_variance_derivatives raises %s" % r[1])
            if name in ("KRG", "KPLS", "KPLSK", "GEKPLS") and case["o"]["poly"] != "quadratic":
                R.fail("%s/var/raises" % key, "predict_variance_derivatives raises %s" % r[1])
                break
            continue
        g = np.asarray(r[1], float)
        if not R.check(g.shape in ((1, nx), (ny, nx)), "%s/var/shape" % key, "shape %s" % (g.shape,)):
            return
        for k in range(nx):
            judge("%s/var/p%d/k%d" % (key, i, k), g[:, k : k + 1].T if ny > 1 else g[:, k : k + 1], sm.predict_variances, q[i : i + 1], k, vspan, R, 3e-5)


def judge(key, g, f, q, k, span, R, rtol=2e-5):
    a, b, c = fd(f, q, k, 1e-3), fd(f, q, k, 4e-4), fd(f, q, k, 1e-4)
    a, b, c = (v.reshape(g.shape) if v.size == g.size else v for v in (a, b, c))
    if a.shape != g.shape:
        R.fail(key + "/shape", "derivative shape %s, value shape %s" % (g.shape, a.shape))
        return
    tol = rtol * np.maximum(np.abs(b), span) + 1e-9
    smooth = (np.abs(a - b) <= 4 * tol) & (np.abs(b - c) <= 4 * tol)
    # one-sided kinks symmetric enough to fool central differences: compare the one-sided slopes as well
    h = 1e-5
    up, dn = q.copy(), q.copy()
    up[:, k] += h
    dn[:, k] -= h
    v0 = np.asarray(f(q.copy()), float).reshape(g.shape)
    r, l = (np.asarray(f(up), float).reshape(g.shape) - v0) / h, (v0 - np.asarray(f(dn), float).reshape(g.shape)) / h
    H = 1e-3

    def at(t):
        z = q.copy()
        z[:, k] += t
        return np.asarray(f(z), float).reshape(g.shape)

    curv = np.maximum(np.abs(at(2 * H) - 2 * at(H) + v0), np.abs(at(-2 * H) - 2 * at(-H) + v0)) / H ** 2
    smooth &= np.abs(r - l) <= tol + 2 * h * curv + 1e-9 * span
    best = np.where(np.abs(a - b) <= np.abs(b - c), a, b)
    bad = smooth & ~(np.abs(g - best) <= 6 * tol)
    R.count("smooth_points", int(smooth.sum()))
    R.count("kinks_skipped", int((~smooth).sum()))
    for i in range(len(q)):
        if smooth[i].all():
            R.nt(key, i)
    R.state(key)
    if bad.any():
        i = np.argwhere(bad)[0]
        R.check(False, key, "at %s the derivative is %.8g, differences of the predictor give %.8g" % (q[i[0]], g[tuple(i)], best[tuple(i)]))
    else:
        R.check(True, key)
    R.check(not np.isnan(g).any() or np.isnan(v0).any(), key + "/nan", "derivative is NaN where the prediction is finite")

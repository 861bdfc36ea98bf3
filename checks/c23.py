"""C23: multi-fidelity Kriging against an independent recursive co-Kriging."""
import itertools
import numpy as np
from vlib.smtlib import *
from vlib import seams, gpref
from vlib.apps import lo

ID = "C23"
LEVEL = "model_checking"
RULE = ("every combination of class, number of levels, inputs, correlation, trend, trend of rho, kind of design (nested, overlapping, disjoint) and correlation parameters, with an optimizer that stops at its start and with the real ones: means, variances of every level and derivatives at lattice and training points equal an independent recursive co-Kriging with the parameters found; "
        "high-fidelity data reproduced; every order of supplying the levels (and supplying one twice) and of the rows of a level, every equivalent form of theta0 and noise0 give the same model; one level gives plain Kriging; forcing the variance to zero leaves the training data alone, has no variance at nested high-fidelity points and can be trained again with the same result. States: (configuration, point); non-trivial: two or more levels")
BOUNDS = {"quick": "3 classes, 1..3 levels, 1..3 inputs, 6 trends x rho trends, 4 correlations, 3 designs, 2 parameter sets; 5..9 high-fidelity points; all 6 orders of 3 levels", "thorough": "more parameter sets, 4 levels, all 24 orders"}
ASSUMPTIONS = ["compared only when the correlation matrices have a condition number below 1e9 (tolerance grows with it)", "the scale of the discrepancy variance of the PLS variants may be the documented Bayesian estimate (half) or the plain one"]
TIMEOUT = 700

CLS = {"MFK": MFK, "MFKPLS": MFKPLS, "MFKPLSK": MFKPLSK}
CORR = {"MFK": ("squar_exp", "abs_exp", "matern52", "matern32"), "MFKPLS": ("squar_exp", "abs_exp"), "MFKPLSK": ("squar_exp",)}
PLAIN = {"MFK": KRG, "MFKPLS": KPLS, "MFKPLSK": KPLSK}


def cases(tier):
    th = tier == "thorough"
    out = []
    for cls in CLS:
        for L, nx, corr, poly, rho, des, t in itertools.product((1, 2, 3, 4) if th else (1, 2, 3), (1, 2, 3), CORR[cls], ("constant", "linear", "quadratic"), ("constant", "linear", "quadratic"), ("nested", "overlap", "disjoint"), (0, 1, 2, 3) if th else (0, 1)):
            if cls != "MFK" and nx == 1 or L == 1 and (rho != "constant" or des != "nested"):
                continue
            out.append(dict(kind="ref", cls=cls, L=L, nx=nx, corr=corr, poly=poly, rho=rho, des=des, t=t, opt="frozen", key="C23/ref/%s/%d/%d/%s/%s/%s/%s/%d" % (cls, L, nx, corr, poly, rho, des, t)))
        for L, nx, noise, opt in itertools.product((2, 3), (1, 2), (0.0, 1e-3, "eval"), ("Cobyla", "TNC")):
            if cls != "MFK" and nx == 1 or noise == "eval" and opt == "TNC":
                continue  # the likelihood has no gradient with respect to the noise
            out.append(dict(kind="ref", cls=cls, L=L, nx=nx, corr="squar_exp", poly="constant", rho="constant", des="nested", t=0, opt=opt, noise=noise, key="C23/opt/%s/%d/%d/%s/%s" % (cls, L, nx, noise, opt)))
        for L, nx, noise in itertools.product((1, 2, 3), (1, 2), ("lv", "het", "het1", "heteval")):
            for des, poly in (("nested", "constant"), ("disjoint", "constant"), ("overlap", "linear")):
                if cls != "MFK" and nx == 1:
                    continue
                for t in (0, 1):
                    out.append(dict(kind="ref", cls=cls, L=L, nx=nx, corr="squar_exp", poly=poly, rho="constant", des=des, t=t, opt="frozen", noise=noise, key="C23/noise/%s/%d/%d/%s/%s/%s/%d" % (cls, L, nx, noise, des, poly, t)))
        for L, nx in itertools.product((1, 2, 3), (1, 2, 3)):
            if cls != "MFK" and nx == 1:
                continue
            out.append(dict(kind="starts", cls=cls, L=L, nx=nx, key="C23/starts/%s/%d/%d" % (cls, L, nx)))
        for L, nx, des in itertools.product((2, 3) + ((4,) if th else ()), (1, 2), ("nested", "disjoint")):
            if cls != "MFK" and nx == 1:
                continue
            out.append(dict(kind="order", cls=cls, L=L, nx=nx, des=des, key="C23/order/%s/%d/%d/%s" % (cls, L, nx, des)))
            out.append(dict(kind="forms", cls=cls, L=L, nx=nx, des=des, key="C23/forms/%s/%d/%d/%s" % (cls, L, nx, des)))
            out.append(dict(kind="optvar", cls=cls, L=L, nx=nx, des=des, key="C23/optvar/%s/%d/%d/%s" % (cls, L, nx, des)))
    return out


def levels(L, nx, des, poly="constant", rho="constant"):
    """designs from lowest to highest fidelity"""
    p = {"constant": 1, "linear": 1 + nx, "quadratic": 1 + nx + nx * (nx + 1) // 2}
    nh = max(5, p[poly] + p[rho] + 2)
    D = []
    for l in range(L):
        n = nh + 3 * (L - 1 - l)
        if des == "nested":
            x = halton(n, nx, 1)
        elif des == "overlap":
            x = halton(n, nx, 1 + 2 * l)
        else:
            x = halton(n, nx, 1 + 40 * l)
        f = lo(x) if l == 0 and L > 1 else fun(x)
        if 0 < l < L - 1:
            f = 0.5 * lo(x) + 0.5 * fun(x) + 0.1 * l * x[:, :1]
        D.append((x, f))
    return D


def give(sm, D, order=None):
    L = len(D)
    for l in order if order is not None else range(L):
        x, y = D[l]
        sm.set_training_values(x.copy(), y.copy(), name=None if l == L - 1 else l)


def build(case, D, theta, train=True, **extra):
    o = dict(corr=case.get("corr", "squar_exp"), poly=case.get("poly", "constant"), rho_regr=case.get("rho", "constant"), theta0=theta, print_global=False)
    if case["cls"] != "MFK":
        o["n_comp"] = ncomp(case)
    o.update(extra)
    sm = CLS[case["cls"]](**o)
    if train:
        give(sm, D)
        fit(sm, case.get("opt", "frozen"))
    return sm


def ncomp(case):
    return 2 if case["nx"] == 3 else 1


def fit(sm, opt="frozen"):
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        if opt == "frozen":
            with seams.minimize_hook(seams.frozen):
                sm.train()
        else:
            sm.train()


def dim(case):
    return case["nx"] if case["cls"] == "MFK" else ncomp(case)


class Ref:
    def __init__(self, case, D, thetas, noises, nugget, merge=None):
        X = np.concatenate([d[0] for d in D])
        Y = np.concatenate([d[1] for d in D])
        _, _, self.xo, self.yo, self.xs, self.ys = gpref.standard(X, Y)
        self.c, self.L, self.th = case, len(D), thetas
        self.W = None
        if case["cls"] == "MFKPLS":
            self.W = gpref.pls_weights(D[-1][0], D[-1][1], ncomp(case))
        self.lv, self.cond = [], 1.0
        for l, (x, y) in enumerate(D):
            xn, yn = (x - self.xo) / self.xs, (y - self.yo) / self.ys
            if merge:
                # replicated points: mean output, variance of the mean (the given noise where there is no replicate)
                u, inv, cnt = np.unique(x, axis=0, return_inverse=True, return_counts=True)
                inv = np.ravel(inv)
                noises[l] = np.array([merge if np.ptp(yn[inv == i]) == 0 else np.var(yn[inv == i], ddof=1) for i in range(len(u))]) / cnt
                yn = np.array([yn[inv == i].mean(0) for i in range(len(u))])
                x, xn = u, (u - self.xo) / self.xs
            R = gpref.corr_matrix(case["corr"], thetas[l], xn, xn, self.W)
            R[np.arange(len(x)), np.arange(len(x))] = 1 + nugget + noises[l]
            F = self.F(l, xn)
            RiF = np.linalg.solve(R, F)
            M = F.T @ RiF
            beta = np.linalg.solve(M, RiF.T @ yn)
            res = yn - F @ beta
            g = np.linalg.solve(R, res)
            q = 0 if l == 0 else gpref.trend(case["rho"], xn).shape[1]
            s2 = (res * g).sum() / (len(x) - F.shape[1])
            self.cond = max(self.cond, np.linalg.cond(R), np.linalg.cond(M))
            self.lv.append(dict(X=xn, R=R, F=F, M=M, beta=beta, g=g, q=q, s2=s2, n=len(x)))

    def F(self, l, xn):
        f = gpref.trend(self.c["poly"], xn)
        if l == 0:
            return f
        return np.hstack((gpref.trend(self.c["rho"], xn) * self.mu(l - 1, xn), f))

    def mu(self, l, xn):
        v = self.lv[l]
        return self.F(l, xn) @ v["beta"] + gpref.corr_matrix(self.c["corr"], self.th[l], xn, v["X"], self.W) @ v["g"]

    def mean(self, x, l=None):
        return self.yo + self.ys * self.mu(self.L - 1 if l is None else l, (x - self.xo) / self.xs)

    def mse(self, x, half):
        xn = (x - self.xo) / self.xs
        out = []
        for l, v in enumerate(self.lv):
            r = gpref.corr_matrix(self.c["corr"], self.th[l], xn, v["X"], self.W)
            Rir = np.linalg.solve(v["R"], r.T)
            u = self.F(l, xn).T - v["F"].T @ Rir
            b = 1 - (r.T * Rir).sum(0)
            w = (u * np.linalg.solve(v["M"], u)).sum(0)
            if l == 0:
                out.append(v["s2"] * (b + w))
                continue
            q = v["q"]
            g = gpref.trend(self.c["rho"], xn)
            S = v["s2"] * np.linalg.inv(v["M"])[:q, :q] + v["beta"][:q] @ v["beta"][:q].T
            out.append(((g @ S) * g).sum(1) * out[-1] + v["s2"] * ((0.5 if half else 1.0) * b + w))
        return np.array(out).T * self.ys ** 2


def lattice(nx):
    g = {1: 9, 2: 4, 3: 3}[nx]
    return np.array(list(itertools.product(np.linspace(-0.1, 1.1, g), repeat=nx)))


def run(case, R):
    globals()["run_" + case["kind"]](case, R)


def run_ref(case, R):
    L, nx = case["L"], case["nx"]
    D = levels(L, nx, case["des"], case["poly"], case["rho"])
    d = dim(case)
    t0 = [0.8, 0.25, 3.0, 0.08][case["t"]]
    theta = t0 * (1 + 0.5 * np.arange(L).reshape(-1, 1) + 0.3 * np.arange(d).reshape(1, -1))
    if case["corr"] == "abs_exp" or case["corr"].startswith("matern"):
        theta = 0.3 * theta
    noise = case.get("noise", 0.0)
    extra = {}
    if noise == "eval":
        extra = dict(eval_noise=True, noise0=[1e-3])
    elif noise == "lv":
        extra = dict(noise0=[[1e-2], [1e-4], [3e-3]][:L])
    elif noise == "het":
        extra = dict(noise0=[list(0.004 * (l + 1) + 0.03 * (np.arange(len(x)) % (l + 2))) for l, (x, y) in enumerate(D)], use_het_noise=True)
    elif noise == "het1":
        extra = dict(noise0=[2e-2], use_het_noise=True)
    elif noise == "heteval":
        extra = dict(noise0=[1e-3], use_het_noise=True, eval_noise=True)
        D = [(np.vstack([x, x[l : l + 3], x[l : l + 1]]), np.vstack([y, y[l : l + 3] + 0.07 * (l + 1), y[l : l + 1] - 0.2])) for l, (x, y) in enumerate(D)]
    elif noise:
        extra = dict(noise0=[noise])
    if case["opt"] != "frozen":
        extra["hyper_opt"] = case["opt"]
    keep = [(x.copy(), y.copy()) for x, y in D]
    sm = build(case, D, theta, **extra)
    R.ev()
    R.trace()
    th = [np.ravel(t) for t in sm.optimal_theta]
    if case["cls"] == "MFK" or case["cls"] == "MFKPLS":
        R.check(all(len(t) == d for t in th), case["key"] + " ntheta", "number of correlation parameters per level", got=th)
    else:
        R.check(all(len(t) == nx for t in th), case["key"] + " ntheta", "number of correlation parameters per level", got=th)
    noises = [float(np.ravel(n)[0]) if len(np.ravel(n)) == 1 else np.ravel(n).astype(float) for n in sm.optimal_noise_all]
    if noise != "eval" and noise != "heteval":
        given = [n[0] for n in extra["noise0"]] if noise == "lv" else [np.array(n) for n in extra["noise0"]] if noise == "het" else [2e-2] * L if noise == "het1" else [noise] * L
        R.check(len(noises) == L and all(np.all(n == g) for n, g in zip(noises, given)), case["key"] + " noise", "noise variances used", got=noises)
    nug = 0 if noise in ("eval", "heteval") else sm.options["nugget"]
    want = [0] * L
    ref = Ref(case, D, th, want if noise == "heteval" else noises, nug, 1e-3 if noise == "heteval" else None)
    if noise == "heteval":
        R.check(all(close(np.sort(np.ravel(a)), np.sort(b), 1e-7) for a, b in zip(noises, want)), case["key"] + " estimated", "estimated noise variances", got=noises, want=want)
    if ref.cond > 1e9:
        R.skip("ill-conditioned")
        return
    pts = np.concatenate([lattice(nx)] + [x for x, _ in D])
    scale = max(1.0, np.abs(ref.mean(pts)).max())
    tol = (1e-9 + 1e-14 * ref.cond) * scale
    v = sm.predict_values(pts.copy())
    R.tr(len(pts))
    for i in range(len(pts)):
        R.state(case["key"], i)
    if L > 1:
        R.nt(case["key"])
    dv = np.abs(v - ref.mean(pts)).max() if v.shape == (len(pts), 1) else np.inf
    R.check(dv <= tol, case["key"] + " values", "means differ from recursive co-Kriging", diff=dv, tol=tol, cond=ref.cond)
    s = np.ravel(sm.predict_variances(pts.copy()))
    A = sm.predict_variances_all_levels(pts.copy())[0]
    refs = [ref.mse(pts, False)] + ([ref.mse(pts, True)] if case["cls"] != "MFK" else [])
    vs = max(np.abs(refs[0]).max(), float(np.var(D[-1][1])), 1e-12)
    vt = (1e-9 + 1e-14 * ref.cond) * vs * 10
    R.check(any(np.abs(np.asarray(A) - r).max() <= vt for r in refs), case["key"] + " levels", "variances of the levels differ from recursive co-Kriging", diff=[np.abs(np.asarray(A) - r).max() for r in refs], tol=vt)
    R.check(any(np.abs(s - np.maximum(r[:, -1], 0)).max() <= vt or np.abs(s - r[:, -1]).max() <= vt for r in refs), case["key"] + " variances", "variances differ from recursive co-Kriging", got=s[:5], tol=vt)
    if not noise:
        e = np.abs(sm.predict_values(D[-1][0]) - D[-1][1]).max()
        R.check(e <= (1e-6 + 1e-13 * ref.cond) * scale, case["key"] + " interpolation", "high-fidelity data are not reproduced", err=e, cond=ref.cond)
    if case["corr"] == "squar_exp" and case["poly"] != "quadratic" and case["rho"] == "constant":
        h = 1e-5
        for kx in range(nx):
            e = np.zeros(nx)
            e[kx] = h
            fd = (ref.mean(pts + e) - ref.mean(pts - e)) / (2 * h)
            g = sm.predict_derivatives(pts.copy(), kx).reshape(-1, 1)
            R.check(np.abs(fd - g).max() <= (1e-6 + 1e-14 * ref.cond / h) * max(scale, np.abs(fd).max()), case["key"] + " derivative %d" % kx, "derivative of the mean", diff=np.abs(fd - g).max())
    if L == 1 and case["opt"] == "frozen" and not noise:
        o = dict(corr=case["corr"], poly=case["poly"], theta0=list(theta[0]), print_global=False)
        if case["cls"] != "MFK":
            o["n_comp"] = ncomp(case)
        pl = PLAIN[case["cls"]](**o)
        pl.set_training_values(*D[0])
        fit(pl)
        if np.allclose(np.ravel(pl.optimal_theta), th[0], rtol=1e-12):
            R.check(np.abs(pl.predict_values(pts) - v).max() <= tol, case["key"] + " plain", "one level differs from plain Kriging")
        else:
            R.check(False, case["key"] + " plain theta", "one level stops at other parameters than plain Kriging", a=pl.optimal_theta, b=th[0])
    R.check(all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(D, keep)), case["key"] + " args", "training arrays modified")


def obs(sm, nx, D):
    pts = np.concatenate([lattice(nx), D[-1][0]])
    return np.concatenate([sm.predict_values(pts).ravel(), np.ravel(sm.predict_variances(pts))])


def run_order(case, R):
    L, nx = case["L"], case["nx"]
    D = levels(L, nx, case["des"])
    theta = (20.0 if nx == 1 else 2.0) * np.ones((L, dim(case)))  # well conditioned
    ref = obs(build(case, D, theta), nx, D)
    other = levels(L, nx, "disjoint" if case["des"] == "nested" else "nested")
    sc = 1e-12 * max(1, np.abs(ref).max())
    for perm in itertools.permutations(range(L)):
        for twice in (None,) + tuple(range(L)):
            sm = build(case, D, theta, train=False)
            if twice is not None:
                x, y = other[twice]
                sm.set_training_values(x[:-1], y[:-1], name=None if twice == L - 1 else twice)
            give(sm, D, perm)
            fit(sm)
            g = obs(sm, nx, D)
            R.ev(2), R.trace(), R.tr(L + 1)
            R.state(case["key"], perm, twice), R.nt(case["key"], perm, twice)
            R.check(np.abs(g - ref).max() <= sc, "%s %s/%s" % (case["key"], perm, twice), "order in which the levels are given changes the model", diff=np.abs(g - ref).max())
    # order of the rows of each level
    for l in range(L):
        n = len(D[l][0])
        for p in (np.arange(n)[::-1], np.roll(np.arange(n), 1), np.roll(np.arange(n), n // 2), np.argsort(np.arange(n) % 2, kind="stable")):
            D2 = list(D)
            D2[l] = (D[l][0][p], D[l][1][p])
            g = obs(build(case, D2, theta), nx, D)
            R.ev(2), R.trace()
            R.state(case["key"], "rows", l, tuple(p))
            R.check(np.abs(g - ref).max() <= 1e-7 * max(1, np.abs(ref).max()), "%s rows %d" % (case["key"], l), "order of the rows of a level changes the model", diff=np.abs(g - ref).max())
    # retraining after one level changes equals training from scratch
    for l in range(L):
        D2 = list(D)
        D2[l] = (other[l][0], other[l][1] + 0.3)
        a = build(case, D, theta)
        a.set_training_values(D2[l][0], D2[l][1], name=None if l == L - 1 else l)
        fit(a)
        b = build(case, D2, theta)
        ga, gb = obs(a, nx, D2), obs(b, nx, D2)
        R.ev(3), R.trace(), R.tr(2)
        R.state(case["key"], "retrain", l)
        R.check(np.abs(ga - gb).max() <= sc, "%s retrain %d" % (case["key"], l), "training again with another level %d differs from a new model" % l)


def run_forms(case, R):
    L, nx = case["L"], case["nx"]
    D = levels(L, nx, case["des"])
    d = dim(case)
    for t in (0.5, 0.05):
        ref = obs(build(case, D, t * np.ones((L, d))), nx, D)
        forms = {"one": [t], "dim": [t] * d, "levels": [t] * L, "array": t * np.ones((L, d))}
        for n, f in forms.items():
            for nm, ns in (("default", None), ("one", [0.0]), ("levels", [0.0] * L), ("nested", [[0.0]] * L), ("ints", [0] * L)):
                extra = {} if ns is None else dict(noise0=ns)
                k = "%s %s/%s/%s" % (case["key"], t, n, nm)
                f0 = np.array(f, float)
                sm = build(case, D, f, **extra)
                g = obs(sm, nx, D)
                R.ev(2), R.trace()
                R.state(k), R.nt(k)
                R.check(np.abs(g - ref).max() <= 1e-12 * max(1, np.abs(ref).max()), k, "an equivalent form of theta0 and noise0 gives another model", diff=np.abs(g - ref).max())
                R.check(np.array_equal(np.array(f, float), f0) and np.array_equal(np.array(sm.options["theta0"], float), f0), k + " kept", "theta0 changed by the training", got=sm.options["theta0"])
    # values distinct per level, given as one value per level
    if L != d:
        t = [0.2 * (l + 1) for l in range(L)]
        a = obs(build(case, D, t), nx, D)
        b = obs(build(case, D, np.array(t).reshape(-1, 1) * np.ones((1, d))), nx, D)
        R.ev(4)
        R.state(case["key"], "per level")
        R.check(np.abs(a - b).max() <= 1e-12 * max(1, np.abs(a).max()), case["key"] + " per level", "one theta0 per level")
    if d != L and d > 1:
        t = [0.2 * (k + 1) for k in range(d)]
        a = obs(build(case, D, t), nx, D)
        b = obs(build(case, D, np.array(t).reshape(1, -1) * np.ones((L, 1))), nx, D)
        R.ev(4)
        R.check(np.abs(a - b).max() <= 1e-12 * max(1, np.abs(a).max()), case["key"] + " per input", "one theta0 per input")
    for nm, t in (("too many", [0.1] * (L + d + 1)), ("wrong array", 0.1 * np.ones((L + 1, d))), ("noise", None)):
        sm = build(case, D, [0.1] if t is None else t, train=False, **(dict(noise0=[0.1] * (L + 1)) if t is None else {}))
        give(sm, D)
        e = attempt(lambda: fit(sm))
        R.check(isinstance(e, tuple) and e[0] == "exc" and "ValueError" in str(e[1]) or isinstance(e, ValueError), "%s rejected %s" % (case["key"], nm), "options of the wrong size are accepted", got=e)


def run_optvar(case, R):
    L, nx = case["L"], case["nx"]
    D = levels(L, nx, case["des"])
    D = [(x, y + 0.05 * np.sin(37 * np.arange(len(y)))[:, None]) for x, y in D]
    for n0, reps in itertools.product((1e-2, 1e-4), (1, 2)):
        key = "%s %s/%d" % (case["key"], n0, reps)
        sm = build(case, D, [0.5], train=False, eval_noise=True, optim_var=True, noise0=[n0])
        give(sm, D)
        obs_list = []
        for rep in range(reps + 1):
            fit(sm)
            R.ev(), R.tr()
            for l in range(L):
                x, y = sm.training_points[None if l == L - 1 else l][0]
                R.check(np.array_equal(x, D[l][0]) and np.array_equal(y, D[l][1]), "%s data %d" % (key, l), "training replaced the training data of level %d" % l)
            obs_list.append(obs(sm, nx, D))
            R.check(sm.options["eval_noise"] is True, key + " option", "training changed eval_noise")
            R.trace()
            R.state(key, rep), R.nt(key, rep)
        R.check(all(np.abs(g - obs_list[0]).max() <= 1e-10 * max(1, np.abs(g).max()) for g in obs_list[1:]), key + " again", "training again on the same data gives another model", diff=[np.abs(g - obs_list[0]).max() for g in obs_list])
        if case["des"] == "nested":
            v = np.ravel(sm.predict_variances(D[-1][0]))
            mid = np.ravel(sm.predict_variances(lattice(nx)))
            R.check(np.all(v <= 1e-6 * max(mid.max(), 1e-9) + 1e-9), key + " variance", "variance at the high-fidelity points is not zero", got=v, elsewhere=mid.max())
            # every level is interpolated: the predictions of the model trained without it
            plain = build(case, D, [0.5], train=False, eval_noise=True, noise0=[n0])
            give(plain, D)
            fit(plain)
            for l in range(L):
                for x in (D[l][0],) if l else [D[0][0]]:
                    a, b = sm._predict_intermediate_values(x, l + 1), plain._predict_intermediate_values(x, l + 1)
                    R.check(np.abs(a - b).max() <= 1e-5 * max(1, np.abs(b).max()), "%s level %d" % (key, l), "predictions of level %d at its own points change" % l, diff=np.abs(a - b).max())
                    w = np.asarray(sm.predict_variances_all_levels(x)[0])[:, l]
                    R.check(np.all(w <= 1e-6 * max(mid.max(), 1e-9) + 1e-9), "%s level variance %d" % (key, l), "variance of level %d at its own points is not zero" % l, got=w.max())


def run_starts(case, R):
    """the search of every level starts at the theta0 of that level"""
    L, nx = case["L"], case["nx"]
    D = levels(L, nx, "disjoint")
    d = dim(case)
    import scipy.optimize as so

    for opt, noise in itertools.product(("Cobyla", "TNC"), (0.0, 1e-3, "eval")):
        if noise == "eval" and opt == "TNC":
            continue
        for theta in (0.2 * (1 + np.arange(L)[:, None] + 0.3 * np.arange(d)[None, :]), 2.0 / (1 + np.arange(L)[:, None] + 0.4 * np.arange(d)[None, :])):
            seen = []

            def hook(real, fun, x0, *a, **k):
                x0 = np.array(x0, float).ravel()
                seen.append(x0)
                return so.OptimizeResult(x=x0.copy(), fun=fun(x0), success=True, nfev=1, status=0, message="frozen")

            key = "%s/%s/%s/%g" % (case["key"], opt, noise, theta[0, 0])
            n0 = [[1e-3 * 3 ** l] for l in range(L)] if noise == "eval" else [noise]
            sm = build(case, D, theta.copy(), train=False, hyper_opt=opt, noise0=n0, eval_noise=noise == "eval", theta_bounds=[1e-4, 30.0])
            give(sm, D)
            with seams.minimize_hook(hook):
                st, e = attempt(sm.train)
            R.ev(), R.tr(len(seen)), R.trace(), R.state(key), R.nt(key)
            if not R.check(st == "ok", key + " train", "training fails", got=e):
                continue
            # searches per level: one (Cobyla) or two (TNC, the second one at random), twice for MFKPLSK
            per = (2 if case["cls"] == "MFKPLSK" else 1) * (2 if opt == "TNC" else 1)
            if not R.check(len(seen) == per * L, key + " searches", "%d searches" % len(seen)):
                continue
            for l in range(L):
                want = np.log10(theta[l])
                if noise == "eval":
                    want = np.concatenate([want, np.log10(n0[l])])
                R.check(close(seen[per * l], want, 1e-9), "%s level %d" % (key, l), "the search of level %d starts at %s, not at %s" % (l, seen[per * l], want))

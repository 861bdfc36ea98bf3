"""C29: GEKPLS against an independent Kriging on the Taylor-augmented data; MGP against the published marginal variance."""
import contextlib, io, itertools, warnings
import numpy as np
import scipy.optimize as so
from vlib.smtlib import *
from vlib import gpref
from smt.surrogate_models import GEKPLS, MGP

ID = "C29"
LEVEL = "model_checking"
RULE = ("GEKPLS: every number of inputs x design size x pattern of gradients (generic, sparse, tied, all zero at one point, zero everywhere but one) x level of the output x extra points x step x scale of the inputs x kernel x trend x correlation parameter: predictions and variances are those of an independent Kriging on the given data plus the Taylor points, "
        "with directions in closed form; what the model reports as its training data is intact; every way to give derivatives elsewhere (permuted, missing, fewer, moved) is refused or means the same. "
        "MGP: every number of inputs x components x trend x noise x scale of inputs and outputs x lattice point of the hyperparameters: mean and variance of an independent GP, the marginal variance of the published formula with derivatives and Hessian of independent functions, equality through the embedding. States: (model, configuration); non-trivial: extra points, or several components, or the variance with uncertainty")
BOUNDS = {"quick": "nx<=4 / 3 components <=2", "thorough": "nx<=5, more designs, finer lattice"}
ASSUMPTIONS = ["systems with condition number above 1e9 are left out", "only the first component of GEKPLS is judged: Taylor data are exactly linear, the directions beyond are rounding"]
TIMEOUT = 700

PAT = ("generic", "sparse", "tied", "zero-one", "one")


def cases(tier):
    th = tier == "thorough"
    out = []
    for nx in range(1, 6 if th else 5):
        for nt in (3, 5) + ((7,) if th else ()):
            for pat in PAT:
                out.append(dict(kind="gek", nx=nx, nt=nt, pat=pat, tier=tier, key="C29/gek/%d/%d/%s" % (nx, nt, pat)))
    for nx in (1, 2, 3):
        out.append(dict(kind="where", nx=nx, key="C29/where/%d" % nx))
    for nx in (1, 2, 3):
        for nc in range(1, nx + 1):
            if nc * nx > (9 if th else 4):
                continue
            for poly in ("constant", "linear", "quadratic"):
                out.append(dict(kind="mgp", nx=nx, nc=nc, poly=poly, tier=tier, key="C29/mgp/%d/%d/%s" % (nx, nc, poly)))
    for nx, nc in ((1, 1), (2, 1), (2, 2), (3, 1)):
        out.append(dict(kind="fit", nx=nx, nc=nc, key="C29/fit/%d/%d" % (nx, nc)))
    return out


def fixed(theta):
    """an optimizer that answers theta (given in the units of the parameter)"""

    def hook(real, fun, x0, *a, **k):
        p = np.array(theta, float)
        return so.OptimizeResult(x=p, fun=fun(p), success=True, nfev=1, status=0, message="fixed")

    return hook


# ---------------------------------------------------------------- GEKPLS
def gradients(pat, nt, nx):
    g = np.array([[np.sin(1.3 * i + 0.7 * j + 0.2) * (1 + j) + 0.15 for j in range(nx)] for i in range(nt)])
    if pat == "sparse":
        for i in range(nt):
            g[i, np.arange(nx) != i % nx] = 0.0
    elif pat == "tied":
        g = np.sign(g) * 0.7
    elif pat == "zero-one":
        g[1] = 0.0
    elif pat == "one":
        g[1:] = 0.0
    return g


def run_gek(case, R):
    nx, nt, pat = case["nx"], case["nt"], case["pat"]
    th = case["tier"] == "thorough"
    unit_x = halton(nt, nx, 2)
    g = gradients(pat, nt, nx)
    scales = [np.ones(nx), np.array([2.0, 0.3, 5.0, 0.8, 1.5])[:nx]]
    for (si, sc), lev, dx, ep, corr, poly, theta in itertools.product(
        enumerate(scales), (0.0, 1000.1), (0.02, 0.15), range(nx + 2), ("squar_exp", "abs_exp"), ("constant", "linear"), (0.6, 3.0) if th else (1.5,)
    ):
        key = "%s/s%d/l%g/dx%g/ep%d/%s/%s/%g" % (case["key"], si, lev, dx, ep, corr, poly, theta)
        if poly == "linear" and nt < nx + 2:
            continue
        ux = unit_x.copy()
        if si:
            ux[0], ux[1, 0] = 1.0, 0.0  # points on the limits
        X = ux * sc - 0.2 * sc
        lim = np.column_stack([-0.2 * sc, 0.8 * sc])
        y = lev + np.array([[np.cos(1.1 * i) + 0.3 * i] for i in range(nt)])
        r = lim[:, 1] - lim[:, 0]
        # the directions: Taylor data on a box of equal relative sides
        w = g * r
        n = np.linalg.norm(w, axis=1, keepdims=True)
        w = np.abs(np.divide(w, n, out=np.zeros_like(w), where=n > 0))
        W = w.mean(axis=0)[:, None]
        # sets of extra points that are equally dominant
        m = min(ep, nx)
        choices = []
        for i in range(nt):
            best = sorted(w[i], reverse=True)[:m]
            choices.append([c for c in itertools.combinations(range(nx), m) if np.allclose(sorted(w[i, list(c)], reverse=True), best, rtol=0, atol=1e-9)])
        amb = sum(len(c) > 1 for c in choices)
        if ep and pat == "one" and nx > 2 and m < nx:
            amb = 99
        sm = GEKPLS(corr=corr, poly=poly, theta0=[theta], n_comp=1, xlimits=lim.copy(), delta_x=dx, extra_points=ep, nugget=1e-8, theta_bounds=[1e-3, 50.0], print_global=False)
        sm.set_training_values(X.copy(), y.copy())
        for k in range(nx):
            sm.set_training_derivatives(X.copy(), g[:, k : k + 1].copy(), k)
        with warnings.catch_warnings(), seams.minimize_hook(fixed([np.log10(theta)])):
            warnings.simplefilter("ignore")
            st, e = attempt(sm.train)
        R.ev()
        R.tr(3)
        R.trace()
        R.state(key)
        if ep:
            R.nt(key)
        if not R.check(st == "ok", key + " train", "training fails", got=e):
            continue
        tp = sm.training_points[None]
        R.check(np.array_equal(tp[0][0], X) and np.array_equal(tp[0][1], y) and all(np.array_equal(tp[k + 1][1], g[:, k : k + 1]) for k in range(nx)), key + " data", "the training data reported are not those given")
        Q = np.vstack([X, X + 0.5 * dx * r, halton(4, nx, 30) * sc - 0.2 * sc])
        got = attempt(sm.predict_values, Q)
        var = attempt(sm.predict_variances, Q)
        ok = False
        best = None
        if amb > 3:
            combos = [tuple(c[0] for c in choices)]
            R.skip("equally dominant directions: only the number of points is judged")
            R.check(sm.nt == nt * (1 + m), key + " number", "number of training points", got=sm.nt)
            continue
        for combo in itertools.product(*choices):
            XX, yy = [X], [y]
            for i, c in enumerate(combo):
                for k in c:
                    p = X[i].copy()
                    p[k] += dx * r[k]
                    XX.append(p[None])
                    yy.append(y[i][None] + g[i, k] * dx * r[k])
            ref = gpref.UK(np.vstack(XX), np.vstack(yy), corr, [theta], poly, 1e-8, W)
            if not max(ref.cond, ref.condM) < 1e9:
                R.skip("ill-conditioned")
                ok = None
                break
            mean, mse = ref.mean(Q), ref.mse(Q)
            tol = 1e-7 * max(1.0, ref.cond * 1e-6)
            if got[0] == "ok" and np.allclose(got[1], mean, rtol=1e-9, atol=tol * ref.ys[0]) and var[0] == "ok" and np.allclose(var[1], mse, rtol=1e-6, atol=tol * ref.s2[0]):
                ok = True
                break
            best = (mean[:3].ravel(), mse[:3].ravel())
        if ok is not None:
            R.check(ok, key + " model", "predictions are not those of Kriging on the data and their Taylor points", got=(got[0], got[1][:3].ravel() if got[0] == "ok" else got[1], var[1][:3].ravel() if var[0] == "ok" else var[1]), want=best)


def run_where(case, R):
    nx, nt = case["nx"], 4
    X = halton(nt, nx)
    y = fun(X)

    def model(dX, dY, drop=()):
        sm = GEKPLS(theta0=[1.0], xlimits=unit(nx), delta_x=0.05, extra_points=1, nugget=1e-8, print_global=False)
        sm.set_training_values(X.copy(), y.copy())
        for k in range(nx):
            if k not in drop:
                sm.set_training_derivatives(dX[k], dY[k], k)
        with seams.minimize_hook(fixed([0.0])), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st = attempt(sm.train)
        return st, attempt(sm.predict_values, halton(5, nx, 20)) if st[0] == "ok" else None

    G = [dfun(X, k) for k in range(nx)]
    base = model([X] * nx, G)
    R.check(base[0][0] == "ok", case["key"] + " base", "training fails", got=base[0])
    # every permutation of the rows of every subset of the gradients
    for perm in itertools.permutations(range(nt)):
        p = list(perm)
        for mask in itertools.product((0, 1), repeat=nx):
            st, r = model([X[p] if m else X for m in mask], [G[k][p] if m else G[k] for k, m in enumerate(mask)])
            key = "%s/perm/%s/%s" % (case["key"], "".join(map(str, p)), "".join(map(str, mask)))
            R.ev()
            R.tr(3)
            R.trace()
            R.state(key)
            R.nt(key)
            R.check(st == ("exc", "ValueError") or st[0] == "ok" and r[0] == "ok" and close(r[1], base[1][1], 1e-7, 1e-9), key, "derivatives given in another order are used at other points", got=(st, r))
    for k in range(nx):
        for what, f in (("missing", None), ("fewer", lambda a: a[:-1]), ("moved", 0.1), ("more", lambda a: np.vstack([a, a[:1]]))):
            key = "%s/%s/%d" % (case["key"], what, k)
            dX, dY = [X.copy() for _ in range(nx)], [a.copy() for a in G]
            drop = ()
            if what == "missing":
                drop = (k,)
            elif what == "moved":
                dX[k] = dX[k] + f
            else:
                dX[k], dY[k] = f(dX[k]), f(dY[k])
            st, r = model(dX, dY, drop)
            R.ev()
            R.tr(3)
            R.trace()
            R.state(key)
            R.check(st == ("exc", "ValueError"), key, "derivatives that are not those at the training points are not refused", got=(st, r))


# ---------------------------------------------------------------- MGP
def central(f, t, i, h):
    e = np.zeros(len(t))
    e[i] = h
    return (8 * (f(t + e) - f(t - e)) - (f(t + 2 * e) - f(t - 2 * e))) / (12 * h)


def hess(f, t, h):
    d = len(t)
    H = np.zeros((d, d))
    for i in range(d):
        H[i] = central(lambda s: np.array([central(f, s, j, h) for j in range(d)]), t, i, h)
    return (H + H.T) / 2


def run_mgp(case, R):
    nx, nc, poly = case["nx"], case["nc"], case["poly"]
    th = case["tier"] == "thorough"
    d = nx * nc
    nt = {"constant": 6, "linear": 7, "quadratic": 8}[poly] + 3 * (nx - 1)
    vals = (-0.9, 0.4, 1.3) if d <= 2 else (0.4, -1.1)
    if th:
        vals = (-0.9, -0.2, 0.4, 1.3) if d <= 2 else (-0.9, 0.4, 1.3) if d <= 4 else (0.4, -1.1)
    for noise, ysc, xsc, prior in itertools.product((dict(nugget=1e-6), dict(noise0=[1e-2])), (1.0, 250.0), (1.0, 40.0), (None, dict(mean=[0.3], var=0.5))):
        x = (halton(nt, nx, 1) * np.array([2.0, 0.7, 3.0])[:nx] - 0.3) * xsc
        y = (fun(halton(nt, nx, 1) * 2) * 3 + 1) * ysc
        o = dict(n_comp=nc, poly=poly, theta_bounds=[1e-4, 100.0], print_global=False, **noise)
        if prior:
            o["prior"] = dict(prior)
        pm, pv = (prior["mean"][0], prior["var"]) if prior else (0.0, 1.25)
        diag = noise.get("nugget", 100 * np.finfo(float).eps) + noise.get("noise0", [0.0])[0]
        for t in itertools.product(vals, repeat=d):
            t = np.array(t) + 0.07 * np.arange(d)
            key = "%s/%s/y%g/x%g/%s/%s" % (case["key"], sorted(noise)[0], ysc, xsc, "p" if prior else "d", ",".join("%g" % v for v in t))
            ref = lambda s: gpref.UK(x, y, "act_exp", s, poly, diag)
            r0 = ref(t)
            if not max(r0.cond, r0.condM) < 1e8:
                R.skip("ill-conditioned")
                continue
            sm = MGP(**o)
            sm.set_training_values(x.copy(), y.copy())
            with seams.minimize_hook(fixed(t)):
                st, e = attempt(sm.train)
            R.ev()
            R.tr(3)
            R.trace()
            R.state(key)
            R.nt(key)
            if not R.check(st == "ok", key + " train", "training fails", got=e):
                continue
            if not R.check(np.allclose(sm.optimal_theta, t), key + " theta", "another answer than the optimizer's is used", got=sm.optimal_theta):
                continue
            Q = (halton(5, nx, 40) * np.array([2.0, 0.7, 3.0])[:nx] - 0.3) * xsc
            m0, v0 = r0.mean(Q).ravel(), r0.mse(Q).ravel()
            c = max(r0.cond, r0.condM)
            tol = 1e-14 * c + 1e-9
            got = attempt(sm.predict_values, Q.copy())
            R.check(got[0] == "ok" and np.allclose(np.ravel(got[1]), m0, rtol=1e-9, atol=10 * tol * r0.ys[0]), key + " mean", "mean", got=got, want=m0)
            both = attempt(sm.predict_variances, Q.copy(), True)
            one = attempt(sm.predict_variances, Q.copy())
            if not R.check(both[0] == "ok" and one[0] == "ok", key + " var", "variances fail", got=(both, one)):
                continue
            V, S = (np.ravel(v) for v in both[1])
            R.check(np.array_equal(np.ravel(one[1]), V), key + " both", "two ways to ask for the variance differ", got=one[1], want=V)
            R.check(np.allclose(S, v0, rtol=1e-6, atol=100 * tol * r0.s2[0]), key + " mse", "variance without uncertainty", got=S, want=v0)
            # the published marginal variance
            lp = lambda s: -(lambda u: (u.n * np.log(u.s2n.sum()) + u.logdet()) / np.log(10))(ref(s)) - ((s - pm) ** 2).sum() / pv
            if c < 1e6:
                W = [marginal(ref, lp, Q, t, v0, h) for h in (4e-3, 1e-3)]
                if W[0] is None or W[1] is None:
                    R.skip("singular Hessian")
                else:
                    (w4, s4, _), (want, scale, H) = W
                    err = np.abs(w4 - want)
                    if np.any(err > 1e-2 * scale):
                        R.skip("finite differences do not settle")
                    else:
                        R.check(np.all(np.abs(V - want) <= 1e-3 * scale + 3 * err + 1e-6 * r0.s2[0]), key + " marginal", "the variance with uncertainty is not that of the formula", got=V, want=want)
                        R.count("marginal")
                        if np.linalg.eigvalsh(H).max() < 0:
                            R.check(np.all(V >= S - 1e-9 * r0.s2[0]), key + " above", "the variance with uncertainty is below that without", got=V, want=S)
            # through the embedding
            if nc < nx:
                embed(sm, Q, t, nx, nc, poly, r0, tol, key, R)


def marginal(ref, lp, Q, t, v0, h):
    d = len(t)
    H = hess(lp, t, h)
    dm = np.array([central(lambda s: ref(s).mean(Q).ravel(), t, i, h) for i in range(d)])
    dv = np.array([central(lambda s: ref(s).mse(Q).ravel(), t, i, h) for i in range(d)])
    if not np.linalg.cond(H) < 1e6:
        return None
    Si = np.linalg.inv(-H)
    a1 = np.einsum("ij,ik,kj->j", dm, Si, dm)
    a2 = np.einsum("ij,ik,kj->j", dv, Si, dv) / (3 * v0)
    return np.maximum(4.0 / 3 * v0 + a1 + a2, 0.0), 4.0 / 3 * v0 + np.abs(a1) + np.abs(a2), H


def embed(sm, Q, t, nx, nc, poly, r0, tol, key, R):
    C = np.array(sm.embedding["C"])
    A = t.reshape(nc, nx).T / r0.xs[:, None]
    R.check(C.shape == (nx, nc) and np.allclose(C * np.linalg.norm(A), A), key + " C", "the embedding reported is not the one of the kernel", got=C, want=A / np.linalg.norm(A))
    if np.linalg.cond(C) > 1e4:
        R.skip("degenerate embedding")
        return
    U = sm.get_u_from_x(Q.copy())
    R.check(np.allclose(U, Q @ C), key + " u", "coordinates in the embedding", got=U)
    X = sm.get_x_from_u(U.copy())
    R.check(np.allclose(X @ C, U, rtol=1e-9, atol=1e-9 * np.abs(U).max()), key + " x", "the points returned for the embedding are not over it", got=X @ C, want=U)
    pu, px = attempt(sm.predict_values, U.copy()), attempt(sm.predict_values, X.copy())
    ok = pu[0] == px[0] == "ok" and np.allclose(np.ravel(pu[1]), np.ravel(px[1]), rtol=1e-8, atol=100 * tol * r0.ys[0])
    R.check(ok, key + " values u", "a point of the embedding and a point over it have different values", got=pu, want=px)
    vu, vx = attempt(sm.predict_variances, U.copy(), True), attempt(sm.predict_variances, X.copy(), True)
    ok = vu[0] == vx[0] == "ok" and all(np.allclose(np.ravel(a), np.ravel(b), rtol=1e-5, atol=1e4 * tol * r0.s2[0]) for a, b in zip(vu[1], vx[1]))
    R.check(ok, key + " var u", "a point of the embedding and a point over it have different variances", got=vu, want=vx)
    if poly == "constant":
        # only the embedding matters
        pq = attempt(sm.predict_values, Q.copy())
        R.check(pq[0] == "ok" and np.allclose(np.ravel(pq[1]), np.ravel(px[1]), rtol=1e-8, atol=100 * tol * r0.ys[0]), key + " over", "points over the same point of the embedding have different values", got=pq, want=px)


def run_fit(case, R):
    """the parameters that training itself chooses"""
    nx, nc = case["nx"], case["nc"]
    for nt, s, ysc in itertools.product((6, 9), (0.0, 0.4), (1.0, 1e3)):
        x, y = dataset(nt, nx, 1, s=s)
        y = y * ysc
        sm = MGP(n_comp=nc, nugget=1e-6, print_global=False, theta0=[0.3])
        sm.set_training_values(x, y)
        key = "%s/%d/%g/%g" % (case["key"], nt, s, ysc)
        with contextlib.redirect_stdout(io.StringIO()):
            st, e = attempt(sm.train)
        R.ev()
        R.tr(3)
        R.trace()
        R.state(key)
        R.nt(key)
        if not R.check(st == "ok", key + " train", "training fails", got=e):
            continue
        t = np.ravel(sm.optimal_theta)
        lp = lambda u: -(lambda u: (u.n * np.log(u.s2n.sum()) + u.logdet()) / np.log(10))(gpref.UK(x, y, "act_exp", u, "constant", 1e-6)) - (u ** 2).sum() / 1.25
        H = hess(lp, t, 4e-3)
        st, r = attempt(sm.predict_variances, halton(9, nx, 30), True)
        if R.check(st == "ok" and np.all(np.isfinite(r[0])) and np.all(np.isfinite(r[1])), key + " var", "variances", got=r):
            if np.linalg.eigvalsh(H).max() < -1e-3:
                R.check(np.all(np.ravel(r[0]) >= np.ravel(r[1]) * (1 - 1e-9)), key + " above", "the variance with uncertainty is below that without", got=r[0], want=r[1])
            else:
                R.skip("not at an interior maximum")


def run(case, R):
    globals()["run_" + case["kind"]](case, R)

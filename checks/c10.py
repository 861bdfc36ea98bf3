"""C10: LS, QP, IDW and RBF against independent references of their defining formulas."""
import contextlib, io, itertools
import numpy as np
from vlib.smtlib import *

ID = "C10"
LEVEL = "model_checking"
RULE = ("every design (size, dimension, point pattern, scale, offset) x number of outputs x option combination of the lattice; the trained model is compared at training points, near-training, interior and far points with an independently evaluated definition "
        "(residual orthogonality and polynomial form for LS/QP, log-domain weights for IDW, direct linear system for RBF, interpolation and polynomial reproduction). Non-trivial: designs whose data are not constant")
BOUNDS = {"quick": "nx<=4, ny<=3, nt<=30, scales 1e-9..1e9, p in [0.5,40]", "thorough": "nx<=6, all designs with all scales, more options"}
ASSUMPTIONS = ["RBF predictions are compared within the error bound implied by the condition number of the system; systems beyond 1e13 are only checked for solving the system they state"]
TIMEOUT = 300
SC = [(1.0, 0.0), (1e-3, 5.0), (1e3, -2e3), (1e-9, 0.0), (1e9, 0.0)]


def design(kind, nt, nx):
    if kind == "halton":
        return halton(nt, nx, 2)
    if kind == "grid":
        m = int(np.ceil(nt ** (1.0 / nx)))
        return np.array(list(itertools.product(*[np.linspace(0, 1, max(m, 2))] * nx)))[:nt]
    if kind == "dup":
        x = halton(nt, nx, 2)
        x[-1] = x[0]
        return x
    if kind == "tiny":  # two points very close to each other and to the origin
        x = halton(nt, nx, 2)
        x[0] = 0.0
        x[1] = 1e-7
        return x


def cases(tier):
    out = []
    th = tier == "thorough"

    def add(**c):
        c["key"] = "C10/" + "/".join("%s=%s" % i for i in c.items())
        out.append(c)

    for nx in range(1, 7 if th else 5):
        nq = (nx + 1) * (nx + 2) // 2
        for ny in (1, 2, 3):
            for s in range(len(SC)):
                if s and ny == 3 and not th:
                    continue
                for kind in ("halton", "grid", "dup"):
                    for nt in (nx, nx + 1, nx + 2, 2 * nx + 5):
                        if nt >= 2 and not (kind == "dup" and nt < 3):
                            add(model="LS", nx=nx, ny=ny, nt=nt, kind=kind, s=s)
                for kind in ("halton", "dup"):
                    for nt in (nq, nq + 1, 2 * nq + 3):
                        if not (kind == "dup" and nt < nq + 2) and s < 3:
                            add(model="QP", nx=nx, ny=ny, nt=nt, kind=kind, s=s)
                for kind in ("halton", "grid", "tiny"):
                    for nt in (2, 5, 12, 30):
                        if ny < 3:
                            add(model="IDW", nx=nx, ny=ny, nt=nt, kind=kind, s=s)
                for kind in ("halton", "grid"):
                    for nt in (1, nx + 1, 9, 20):
                        if nt >= nx + 1 or nt == 1:
                            add(model="RBF", nx=nx, ny=ny, nt=nt, kind=kind, s=s)
    return out


def P(x, deg):
    cols = [np.ones(len(x))]
    if deg >= 1:
        cols += [x[:, i] for i in range(x.shape[1])]
    if deg >= 2:
        cols += [x[:, i] * x[:, j] for i in range(x.shape[1]) for j in range(i, x.shape[1])]
    return np.array(cols).T


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["do_" + case["model"]](case, R)


def data(case):
    a, b = SC[case["s"]]
    u = design(case["kind"], case["nt"], case["nx"])
    uq = np.vstack([halton(6, case["nx"], 50), u[:3], u[:2] + 1e-9, np.full((1, case["nx"]), -1.5), np.full((1, case["nx"]), 4.0), np.eye(case["nx"])[:1] * 2.5])
    return u, uq, a * u + b, a * uq + b, a, b


def fit(sm, x, y, R):
    sm.set_training_values(x, y)
    r = attempt(sm.train)
    R.ev(), R.tr()
    return r


def poly_check(case, R, cls, deg):
    u, uq, x, xq, a, b = data(case)
    nx, ny, key = case["nx"], case["ny"], case["key"]
    for yname, y in (("smooth", fun(u, ny)), ("poly", P(u, deg) @ np.cos(np.arange(P(u, deg).shape[1] * ny).reshape(-1, ny))), ("offset", 1e4 + fun(u, ny, 0.7))):
        k = "%s/%s" % (key, yname)
        sm = cls(print_global=False)
        r = fit(sm, x, y, R)
        if r[0] == "exc" and deg == 2 and np.linalg.cond(P(x, 2)) > 1e7:
            R.skip("ill-conditioned polynomial system raises")
            continue
        if not R.check(r[0] == "ok", k + "/train", "training raises %s" % r[1]):
            continue
        R.trace(), R.state(k), R.nt(k)
        v = sm.predict_values(xq)
        t = sm.predict_values(x)
        A, Aq = P(u, deg), P(uq, deg)
        sc = np.abs(y).max()
        cond = np.linalg.cond(P(x, deg) if deg == 2 else P(x, 1) / np.r_[1, np.ones(nx) * max(abs(a), abs(b))])
        tol = 1e-9 * sc if deg == 1 else max(1e-9, 1e-14 * cond ** 2) * sc
        if tol > 1e-3 * sc:
            R.skip("ill-conditioned polynomial system")
            continue
        # residual orthogonal to the basis = least squares
        g = A.T @ (y - t)
        R.check(np.abs(g).max() <= tol * 10 * len(x), k + "/ls", "residuals are not orthogonal to the polynomial basis: %.3g" % np.abs(g).max())
        # the predictor is a polynomial of that degree: it is reproduced by its own values on a unisolvent set
        w = np.vstack([halton(3 * Aq.shape[1] + 3, nx, 7)])
        c = np.linalg.lstsq(P(w, deg), sm.predict_values(a * w + b), rcond=None)[0]
        big = max(sc, np.abs(v).max())
        R.check(np.abs(Aq @ c - v).max() <= 1e-7 * big + 100 * tol, k + "/form", "prediction is not a polynomial of degree %d: %.3g" % (deg, np.abs(Aq @ c - v).max()))
        if np.linalg.matrix_rank(A) == A.shape[1]:
            ref = Aq @ np.linalg.lstsq(A, y, rcond=None)[0]
            R.check(np.abs(ref - v).max() <= 1e-7 * big + 300 * tol, k + "/value", "differs from the least-squares polynomial by %.3g (scale %.3g)" % (np.abs(ref - v).max(), big))
            for kx in range(nx):
                dref = (P(uq + np.eye(nx)[kx] * 1e-3, deg) - P(uq - np.eye(nx)[kx] * 1e-3, deg)) / 2e-3 @ np.linalg.lstsq(A, y, rcond=None)[0] / a
                d = sm.predict_derivatives(xq, kx)
                R.check(np.abs(d - dref).max() * abs(a) <= 1e-6 * big + 1000 * tol, k + "/deriv", "derivative %d differs by %.3g" % (kx, np.abs(d - dref).max()))


def do_LS(case, R):
    poly_check(case, R, LS, 1)


def do_QP(case, R):
    poly_check(case, R, QP, 2)
    nx = case["nx"]
    sm = QP(print_global=False)
    n = (nx + 1) * (nx + 2) // 2 - 1
    if n >= 2:
        x = halton(n, nx)
        sm.set_training_values(x, fun(x))
        R.check(attempt(sm.train)[0] == "exc", case["key"] + "/few", "training with too few points does not raise")


def do_IDW(case, R):
    u, uq, x, xq, a, b = data(case)
    ny, key = case["ny"], case["key"]
    xq = np.vstack([xq, x[:1] + 1e-13 * a, x[-1:] * (1 + 1e-12), x[:1] + 1e3 * a, x])
    for p in (0.5, 1, 2, 2.5, 3.0, 6.0, 15, 40.0):
        k = "%s/p%s" % (key, p)
        sm = IDW(p=p, print_global=False)
        y = fun(u, ny)
        r = fit(sm, x, y, R)
        if not R.check(r[0] == "ok", k + "/train", "raises %s" % r[1]):
            continue
        v = sm.predict_values(xq)
        R.trace(), R.state(k), R.nt(k)
        d = np.sqrt(((xq[:, None, :] - x[None]) ** 2).sum(2))
        with np.errstate(divide="ignore", invalid="ignore"):
            L = -p * np.log(d)
            W = np.exp(L - L.max(1, keepdims=True))
        ref = (W / W.sum(1, keepdims=True)) @ y
        z = d.min(1) == 0
        ref[z] = y[np.argmin(d[z], axis=1)]
        R.check(bool(np.all(np.isfinite(v))), k + "/finite", "non-finite prediction for finite data")
        # relative distances near a training point carry rounding errors
        ok = np.abs(v - ref) <= 1e-9 * np.abs(y).max() * (1 + p)
        R.check(bool(np.all(ok)), k + "/value", "differs from the inverse-distance average by %s at distance %s" % (np.nanmax(np.abs(v - ref)), d[~ok.all(1)].min(1)[:1]))
        R.check(np.array_equal(v[-len(x):], y), k + "/exact", "value at a training point is not the training value")
        R.check(bool(np.all(v >= y.min(0) - 1e-12) and np.all(v <= y.max(0) + 1e-12)), k + "/range", "prediction outside of the range of the data")
        for kx in range(case["nx"]):
            R.check(bool(np.all(np.isfinite(sm.predict_derivatives(xq, kx)))), k + "/dfinite", "non-finite derivative for finite data")


def do_RBF(case, R):
    u, uq, x, xq, a, b = data(case)
    nx, ny, nt, key = case["nx"], case["ny"], case["nt"], case["key"]
    for d0, deg, reg in itertools.product((0.3, 1.0, "list"), (-1, 0, 1), (0, 1e-10, 1e-2)):
        if deg == 1 and np.linalg.matrix_rank(P(u, 1)) < nx + 1:
            continue
        dd = np.array([0.4, 0.9, 0.6, 1.2, 0.5, 0.8][:nx]) if d0 == "list" else np.full(nx, d0)
        k = "%s/d0=%s/deg%d/reg%g" % (key, d0, deg, reg)
        sm = RBF(d0=list(dd * a) if d0 == "list" else d0 * a, poly_degree=deg, reg=reg, print_global=False)
        Pt = P(x, deg) if deg >= 0 else np.zeros((nt, 0))
        K = np.exp(-(((x[:, None] - x[None]) / (dd * a)) ** 2).sum(2))
        m = Pt.shape[1]
        A = np.block([[K + reg * np.eye(nt), Pt], [Pt.T, np.zeros((m, m))]])
        y = fun(u, ny)
        cond = np.linalg.cond(A)
        r = fit(sm, x, y, R)
        if r[0] == "exc":
            R.check(cond > 1e14, k + "/train", "training raises %s although the system is regular (cond %.1g)" % (r[1], cond))
            continue
        R.trace(), R.state(k), R.nt(k)
        v = sm.predict_values(xq)
        if cond > 1e12:
            R.skip("ill-conditioned system")
        else:
            sol = np.linalg.solve(A, np.vstack([y, np.zeros((m, ny))]))
            Kq = np.hstack([np.exp(-(((xq[:, None] - x[None]) / (dd * a)) ** 2).sum(2)), P(xq, deg) if deg >= 0 else np.zeros((len(xq), 0))])
            ref = Kq @ sol
            tol = (1e-12 + 2e-15 * cond) * np.abs(Kq).max() * np.abs(sol).max() * 50
            R.check(np.abs(v - ref).max() <= tol + 1e-10, k + "/value", "differs from the reference by %.3g (cond %.2g)" % (np.abs(v - ref).max(), cond))
            if reg == 0:
                t = sm.predict_values(x)
                R.check(np.abs(t - y).max() <= tol + 1e-9, k + "/interp", "does not interpolate: %.3g" % np.abs(t - y).max())
        if deg >= 0 and cond < 1e12:
            yp = P(u, deg) @ np.cos(np.arange(P(u, deg).shape[1] * ny).reshape(-1, ny) + 0.3)
            sm.set_training_values(x, yp)
            sm.train()
            w = sm.predict_values(xq)
            refp = P(uq, deg) @ np.cos(np.arange(P(u, deg).shape[1] * ny).reshape(-1, ny) + 0.3)
            R.ev()
            R.check(np.abs(w - refp).max() <= (1e-9 + 1e-13 * cond) * max(1, np.abs(refp).max()), k + "/poly", "polynomial of degree %d not reproduced: %.3g" % (deg, np.abs(w - refp).max()))

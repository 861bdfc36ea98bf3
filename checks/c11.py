"""C11: RMTB/RMTC against an independent tensor-product spline built from 1-D bases and a direct solution of the training problem."""
import contextlib, io, itertools
import numpy as np
from scipy.interpolate import BSpline
from vlib.smtlib import *

ID = "C11"
LEVEL = "model_checking"
RULE = ("every model x knots/elements x limits x option combination x nx x ny x training derivatives x solver/line-search/derivative-solver of the lattice; predictions are compared on a query lattice (cell corners, edges, interior, every side outside, far outside) with an independently assembled spline whose "
        "coefficients solve the stated problem directly; membership in the spline space, C1 joints, extrapolation formula, reproduction of linear data and solver independence are judged separately. Non-trivial: states with non-linear data")
BOUNDS = {"quick": "nx<=3, ny<=2, order<=5, <=8 control points, <=4 elements, approx_order 2 and 4", "thorough": "all products, nx<=3, approx_order 2,4,6, all solvers and line searches"}
ASSUMPTIONS = ["the reference problem uses regularization >= 1e-8 so that its solution is unique", "solvers documented as inexact smoothers (gs, jacobi, mg, null) are not expected to give the solution"]
TIMEOUT = 600
LIM = [[[0.0, 1.0]] * 3, [[-2.0, 3.0], [10.0, 10.5], [-1e3, 1e3]], [[1e-4, 2e-4], [0.0, 5.0], [-1.0, 0.0]]]


def cases(tier):
    out = []
    th = tier == "thorough"

    def add(name, nx, ny, lim=0, dv=False, **o):
        c = dict(name=name, nx=nx, ny=ny, lim=lim, dv=dv, o=o)
        c["key"] = "C11/%s/nx%d/ny%d/lim%d/%s%s" % (name, nx, ny, lim, "" if not dv else "dv/" if dv is True else "dv%s/" % "".join(map(str, dv)), ",".join("%s=%s" % i for i in o.items()))
        if c["key"] not in seen:
            seen.add(c["key"])
            out.append(c)

    seen = set()
    for nx in (1, 2, 3):
        B = [dict(order=o, num_ctrl_pts=n) for o in (1, 2, 3, 4, 5) for n in (o, o + 1, 8) if nx < 3 or (n <= 5 and o in (2, 3))]
        if nx > 1:
            B += [dict(order=[2, 4, 3][:nx], num_ctrl_pts=[6, 4, 5][:nx])]
        C = [dict(num_elements=n) for n in ((1, 2, 3, 4) if nx < 3 else (1,))]
        if nx > 1:
            C += [dict(num_elements=[2, 1, 1][:nx]), dict(num_elements=[1, 3 if nx == 2 else 1, 2][:nx])]
        G = [("RMTB", b) for b in B] + [("RMTC", c) for c in C]
        for (name, g), lim, dv, ex, me in itertools.product(G, (0, 1, 2), (False, True), (False, True), (True, False)):
            if nx == 3 and (lim == 2 or (dv and not me)) and not th:
                continue
            add(name, nx, 1 + (lim + nx) % 2, lim, dv, approx_order=2, extrapolate=ex, min_energy=me, energy_weight=1e-2, regularization_weight=1e-7, solver="dense-lu", smoothness=1.0 if lim == 0 else [0.5, 2.0, 1.0][:nx], **g)
        for name, g in (("RMTB", dict(order=3, num_ctrl_pts=5)), ("RMTC", dict(num_elements=2 if nx < 3 else 1))):
            for gw, ew, rw in itertools.product((0.1, 1.0, 3), (1e-4, 1.0), (1e-8, 1e-3)):
                if nx < 3 or th:
                    add(name, nx, 1, 0, True, approx_order=2, grad_weight=gw, energy_weight=ew, regularization_weight=rw, solver="dense-lu", **g)
            # derivatives with respect to some of the inputs only
            for dv, p in itertools.product([c for n in range(1, nx) for c in itertools.combinations(range(nx), n)], (2, 4)):
                add(name, nx, 2, 1, dv, approx_order=p, grad_weight=0.7, energy_weight=0.3, regularization_weight=1e-5, solver="dense-lu", nonlinear_maxiter=40 if p > 2 else 6, solver_tolerance=1e-12, **g)
            for so, ls, dv, p in itertools.product(("dense-lu", "dense-chol", "lu", "krylov", "krylov-lu", "krylov-dense", "ilu"), ("backtracking", "bracketed", "cubic", "quadratic", "null"), (False, True), (2, 4, 6)):
                if p > 4 and not th and (so not in ("dense-lu", "dense-chol", "lu") or nx > 1 or ls in ("null", "quadratic", "cubic")):
                    continue
                if nx == 3 and (not th or ls != "backtracking"):
                    continue
                if p > 2 and (ls == "null" or nx == 2) and not th:
                    continue
                if p > 2 and so in ("ilu", "krylov-lu", "krylov-dense"):
                    continue
                if so == "ilu" and nx > 1:
                    continue
                add(name, nx, 2, 1, dv, approx_order=p, solver=so, line_search=ls, derivative_solver=so, energy_weight=0.3, regularization_weight=1e-5, nonlinear_maxiter=40 if p > 2 else 6, solver_tolerance=1e-12, **g)
    return out


def per_dim(v, nx):
    return [v] * nx if np.isscalar(v) else list(v)


class Basis:
    """1-D basis in a physical variable on [a,b]"""

    def __init__(self, a, b, kind, n, order=None):
        self.a, self.b, self.kind = a, b, kind
        self.h = b - a
        if kind == "b":
            self.k = order - 1
            self.t = np.array([(i - order + 1) / (n - order + 1) for i in range(order + n)])
            self.m = n
            self.nel = n - order + 1
            self.spl = [BSpline(self.t, np.eye(n)[j], self.k) for j in range(n)]
        else:
            self.nel, self.m = n, 2 * (n + 1)

    def __call__(self, x, nu=0):
        u = (np.asarray(x) - self.a) / self.h
        if self.kind == "b":
            u = np.clip(u, 1e-15, 1 - 1e-15)
            return np.array([s(u, nu=nu) if nu <= self.k else 0 * u for s in self.spl]).T / self.h ** nu
        B = np.zeros((len(u), self.m))
        n = self.nel
        e = np.clip(np.ceil(u * n).astype(int), 1, n) - 1
        s = np.clip(2 * (u * n - e) - 1, -1, 1)
        H = [np.polynomial.Polynomial(c) for c in ([0.5, -0.75, 0, 0.25], [0.5, 0.75, 0, -0.25], [0.25, -0.25, -0.25, 0.25], [-0.25, -0.25, 0.25, 0.25])]
        sc = (2.0 * n / self.h) ** nu
        for j, P in enumerate(H):
            v = (P.deriv(nu) if nu else P)(s) * sc
            B[np.arange(len(u)), e + (j % 2) + (n + 1) * (j // 2)] += v
        return B


def rows(bs, x, nus):
    out = np.ones((len(x), 1))
    for k, b in enumerate(bs):
        out = (out[:, :, None] * b(x[:, k], nus[k])[:, None, :]).reshape(len(x), -1)
    return out


def unitv(nx, *ks):
    v = [0] * nx
    for k in ks:
        v[k] += 1
    return v


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        go(case, R)


def go(case, R):
    name, nx, ny, key, o = case["name"], case["nx"], case["ny"], case["key"], dict(case["o"])
    lim = np.array(LIM[case["lim"]][:nx])
    lo, rg = lim[:, 0], lim[:, 1] - lim[:, 0]
    nt = {1: 7, 2: 11, 3: 14}[nx]
    u = np.vstack([halton(nt - 3, nx, 3), np.zeros((1, nx)), np.ones((1, nx)), np.full((1, nx), 0.5)])
    x = lo + rg * u
    x = np.clip(x, lim[:, 0], lim[:, 1])
    y = fun(u, ny)
    bs = [Basis(lim[k, 0], lim[k, 1], "b", per_dim(o["num_ctrl_pts"], nx)[k], per_dim(o["order"], nx)[k]) if name == "RMTB" else Basis(lim[k, 0], lim[k, 1], "c", per_dim(o["num_elements"], nx)[k]) for k in range(nx)]
    sm = (RMTB if name == "RMTB" else RMTC)(xlimits=lim, print_global=False, **o)
    data = {0: y}
    given = range(nx) if case["dv"] is True else case["dv"] or ()
    sm.set_training_values(x, y)
    if case["dv"]:
        for k in given:
            data[k + 1] = dfun(u, k, ny) / rg[k]
            sm.set_training_derivatives(x, data[k + 1], k)
    r = attempt(sm.train)
    R.ev(), R.tr()
    if not R.check(r[0] == "ok", key + "/train", "training raises %s" % r[1]):
        return
    R.state(key), R.nt(key)
    n1 = max(b.nel for b in bs)
    g1 = [0.0, 0.5, 1.0] + [float(b) for b in np.linspace(0, 1, n1 + 1)[1:-1]] + [0.13, 0.77]
    if nx == 3:
        g1 = [0.0, 0.5, 0.77, 1.0]
    uin = np.vstack([np.array(list(itertools.product(g1, repeat=nx))), halton(8, nx, 30)])
    out1 = [-0.4, 0.3, 1.25] if nx > 1 else [-3.0, -0.4, 1.25, 2.0]
    uout = np.array([p for p in itertools.product(out1, repeat=nx) if min(p) < 0 or max(p) > 1] + [[1e3] * nx, [-1e3] * nx, [1e12] * nx, [-1e12] * nx, [0.4] * (nx - 1) + [1e12]])
    P = lambda q: sm.predict_values(q)
    xin = np.clip(lo + rg * uin, lim[:, 0], lim[:, 1])
    vin = P(xin)
    # a) reference solution
    p = o["approx_order"]
    J = {k: rows(bs, x, unitv(nx) if k == 0 else unitv(nx, k - 1)) for k in data}
    m = J[0].shape[1]
    H = np.eye(m) * o["regularization_weight"]
    if o.get("min_energy", True):
        qp = np.array(list(itertools.product(*[(np.arange(2 * b.nel) + 0.5) / (2 * b.nel) for b in bs]))) * rg + lo
        sm_ = per_dim(o.get("smoothness", 1.0), nx)
        for k in range(nx):
            A = rows(bs, qp, unitv(nx, k, k))
            H += o["energy_weight"] * sm_[k] / len(qp) * A.T @ A
    cw = {k: 1.0 if k == 0 else o.get("grad_weight", 0.5) / nx for k in data}
    Bq = rows(bs, xin, unitv(nx))
    W = np.zeros((m, ny))
    gap = 0.0
    for iy in range(ny):
        if p == 2:
            A = H + sum(cw[k] * J[k].T @ J[k] for k in data)
            W[:, iy] = np.linalg.solve(A, sum(cw[k] * J[k].T @ data[k][:, iy] for k in data))
    if p == 2:
        ref = Bq @ W
        cond = np.linalg.cond(A)
        if cond > 1e13:
            R.skip("numerically singular training problem")
            return
        # lu and krylov solvers reach a relative residual rather than machine precision
        tol = (1e-10 + cond * 1e-15 + (0 if o["solver"].startswith("dense") or o["solver"] == "lu" else cond * 1e-9 if cond < 1e5 else 1.0)) * max(1.0, np.abs(y).max())
        if tol < 0.1:
            R.check(np.abs(vin - ref).max() <= tol, key + "/solution", "prediction differs from the direct solution of the training problem by %.3g (cond %.2g)" % (np.abs(vin - ref).max(), cond))
            R.trace()
        else:
            R.skip("ill-conditioned for an iterative solver")
    else:
        # p>2: recover the coefficients from predictions and check that they are stationary compared with the starting problem
        full = np.vstack([Bq, rows(bs, lo + rg * halton(8 * m, nx, 60), unitv(nx))])
        vals = np.vstack([vin, P(lo + rg * halton(8 * m, nx, 60))])
        w = np.linalg.lstsq(full, vals, rcond=None)[0]
        for iy in range(ny):
            def f(z):
                return 0.5 * z @ H @ z + sum(0.5 * cw[k] * np.sum((J[k] @ z - data[k][:, iy]) ** p) for k in data)

            def gr(z):
                return H @ z + sum(0.5 * p * cw[k] * J[k].T @ (J[k] @ z - data[k][:, iy]) ** (p - 1) for k in data)

            def he(z):
                return H + sum(0.5 * p * (p - 1) * cw[k] * (J[k].T * (J[k] @ z - data[k][:, iy]) ** (p - 2)) @ J[k] for k in data)

            z = w[:, iy].copy()
            for _ in range(200):
                s = np.linalg.solve(he(z), -gr(z))
                t = 1.0
                while f(z + t * s) > f(z) and t > 1e-10:
                    t /= 2
                z = z + t * s
            d = np.abs(Bq @ (z - w[:, iy])).max()
            if o["solver"] not in ("dense-lu", "dense-chol", "lu"):
                R.skip("Newton iteration with an iterative solver")
                continue
            R.check(f(w[:, iy]) <= f(z) * (1 + 1e-6) + 1e-9, key + "/minimum", "objective %.9g at the trained coefficients, %.9g at the minimum" % (f(w[:, iy]), f(z)))
            R.trace()
    # b) membership in the spline space
    xs = lo + rg * np.vstack([halton(6 * m + 20, nx, 100)])
    w = np.linalg.lstsq(rows(bs, xs, unitv(nx)), P(xs), rcond=None)[0]
    res = np.abs(Bq @ w - vin)[np.all((uin > 0) | True, axis=1)]
    if name == "RMTB" and min(per_dim(o["order"], nx)) == 1:
        res = res[-8:]  # piecewise constant dimensions: the value at a knot itself is a matter of convention
    R.check(res.max() <= 1e-7 * max(1, np.abs(vin).max()), key + "/space", "prediction is not in the spline space: %.3g" % res.max())
    # c) C1 joints
    if name == "RMTC" or min(per_dim(o["order"], nx)) >= 3:
        for k in range(nx):
            b = bs[k]
            for j in range(1, b.nel):
                for z in halton(3, nx, 200):
                    z = lo + rg * z
                    z[k] = lim[k, 0] + rg[k] * j / b.nel
                    h = 1e-9 * rg[k]
                    za, zb = z.copy(), z.copy()
                    za[k] -= h
                    zb[k] += h
                    R.check(np.abs(P(za[None]) - P(zb[None])).max() < 1e-6 * max(1, np.abs(vin).max()), key + "/c0", "jump at joint %d of input %d" % (j, k))
                    R.check(np.abs(sm.predict_derivatives(za[None], k) - sm.predict_derivatives(zb[None], k)).max() * rg[k] < 1e-5 * max(1, np.abs(vin).max()) * b.nel ** 2, key + "/c1", "jump of the slope at joint %d of input %d" % (j, k))
    # d) outside
    xo = lo + rg * uout
    xb = np.clip(xo, lim[:, 0], lim[:, 1])
    exp = P(xb)
    if o.get("extrapolate"):
        for k in range(nx):
            dk = rows(bs, xb, unitv(nx, k)) @ w
            exp = exp + dk * (xo - xb)[:, [k]]
    got = P(xo)
    R.ev(len(uout))
    bad = np.abs(got - exp) > 1e-6 * (np.abs(exp) + np.abs(vin).max() + (np.abs(uout).max(1, keepdims=True) * np.abs(vin).max() if o.get("extrapolate") else 0))
    R.check(not bad.any(), key + "/outside", "outside of the limits: %s" % [(uout[i].tolist(), got[i].tolist(), exp[i].tolist()) for i in np.argwhere(bad)[:1, 0]])
    # e) linear data
    cf = np.cos(np.arange((nx + 1) * ny).reshape(nx + 1, ny))
    lin = lambda u: cf[0] + u @ cf[1:]
    if p == 2 and (name == "RMTC" or min(per_dim(o["order"], nx)) >= 2) and o["solver"].startswith("dense"):
        o2 = dict(o, regularization_weight=1e-13 if nx == 1 else 1e-11)
        s2 = (RMTB if name == "RMTB" else RMTC)(xlimits=lim, print_global=False, **o2)
        s2.set_training_values(x, lin(u))
        if case["dv"]:
            for k in given:
                s2.set_training_derivatives(x, np.repeat(cf[[k + 1]], len(x), 0) / rg[k], k)
        A2 = (H - np.eye(m) * o["regularization_weight"]) + sum(cw[k] * J[k].T @ J[k] for k in data)
        ev = np.linalg.eigvalsh(A2)
        if ev[0] > 1e-7 * ev[-1]:
            s2.train()
            R.ev(), R.tr()
            e = np.abs(s2.predict_values(xin) - lin(uin)).max()
            R.check(e < 2e-4, key + "/linear", "linear data are not reproduced: %.3g" % e)
        else:
            R.skip("data do not determine the spline")

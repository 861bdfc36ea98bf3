"""C31: the correlation kernels, trends, distances, scalings and first-order expansions that every Gaussian-process model is
built from, on whole lattices of differences, parameters and numbers of rows, against independent closed forms."""
import itertools
import numpy as np
from vlib.smtlib import *
from smt.utils import kriging_utils as ku

ID = "C31"
LEVEL = "model_checking"
RULE = ("every kernel x dimension x parameter lattice x lattice of signed differences: value, symmetry, bounds, value 1 at distance 0, positive semi-definiteness on the lattice, first and second derivatives with respect to every (pair of) parameter(s), "
        "derivative with respect to the query, against per-dimension closed forms; every number of rows around the sizes of the internal blocks; every trend x dimension against all monomials; every data set of a lattice x scaling; all sizes of cross distances; "
        "GEKPLS' local first-order design x gradients x bounds x step x extra points: points, values and weights. States: (kernel, parameters, difference); non-trivial: more than one dimension or more than one block")
BOUNDS = {"quick": "dimension <= 3, 5 differences and 3 parameter values per dimension, up to 20001 rows", "thorough": "dimension <= 4, up to 30001 rows"}
ASSUMPTIONS = ["abs_exp is not differentiable where a difference is 0: that derivative is not compared", "weights of more than one component are not compared (the directions after the first are not determined by the expansion)"]
TIMEOUT = 600
S3, S5 = np.sqrt(3.0), np.sqrt(5.0)


# per-dimension factor of l = theta * |d| (or theta * d**2): value, first and second derivative in l
def g52(l):
    e = np.exp(-S5 * l)
    return (1 + S5 * l + 5 * l * l / 3) * e, -5 / 3 * l * (1 + S5 * l) * e, -5 / 3 * (1 + S5 * l - 5 * l * l) * e


def g32(l):
    e = np.exp(-S3 * l)
    return (1 + S3 * l) * e, -3 * l * e, -3 * (1 - S3 * l) * e


def gexp(l):
    e = np.exp(-l)
    return e, -e, e


KER = {"squar_exp": (gexp, 2), "abs_exp": (gexp, 1), "matern52": (g52, 1), "matern32": (g32, 1)}
DIFF = (-2.0, -0.3, 0.0, 0.7, 1.1)
THETA = (0.02, 0.6, 3.0)


def cases(tier):
    th = tier == "thorough"
    nd = 4 if th else 3
    out = []
    for c in KER:
        for d in range(1, nd + 1):
            out.append(dict(kind="kernel", c=c, d=d, key="C31/kernel/%s/%d" % (c, d)))
            if d < 4:
                out.append(dict(kind="rows", c=c, d=d, th=th, key="C31/rows/%s/%d" % (c, d)))
            for nc in range(1, d + 1):
                if c in ("squar_exp", "abs_exp"):
                    out.append(dict(kind="pls", c=c, d=d, nc=nc, key="C31/pls/%s/%d/%d" % (c, d, nc)))
    for d in range(1, 4):
        for m in (1, 2) if d < 3 or th else (1,):
            out.append(dict(kind="active", d=d, m=m, key="C31/active/%d/%d" % (d, m)))
    for d in range(1, 6):
        out.append(dict(kind="trend", d=d, key="C31/trend/%d" % d))
    for d in (1, 2):
        out.append(dict(kind="scale", d=d, key="C31/scale/%d" % d))
    out.append(dict(kind="cross", th=th, key="C31/cross"))
    for d in range(1, 6 if not th else 8):
        out.append(dict(kind="taylor", d=d, key="C31/taylor/%d" % d))
    return out


def run(case, R):
    globals()["run_" + case["kind"]](case, R)


def close(R, key, got, want, what, tol=1e-12, **kw):
    got, want = np.asarray(got, float), np.asarray(want, float)
    R.ev()
    if not R.check(got.shape == want.shape, key, "%s: shape %s instead of %s" % (what, got.shape, want.shape), **kw):
        return False
    ok = np.abs(got - want) <= tol * (1 + np.abs(want))
    i = tuple(np.argwhere(~ok)[0]) if not ok.all() else None
    return R.check(ok.all(), key, "%s: %s instead of %s at %s" % (what, got[i] if i else "", want[i] if i else "", i), **kw)


def parts(c, th, D):
    g, p = KER[c]
    l = th * np.abs(D) ** p
    return g(l) + (np.abs(D) ** p,)


def prod_except(F, *ks):
    k = [j for j in range(F.shape[1]) if j not in ks]
    return F[:, k].prod(axis=1) if k else np.ones(len(F))


def reference(c, th, D):
    """value, gradient in theta, Hessian in theta, gradient in the difference"""
    f, f1, f2, a = parts(c, th, D)
    p, n = KER[c][1], D.shape[1]
    r = f.prod(axis=1)
    G = np.column_stack([f1[:, k] * a[:, k] * prod_except(f, k) for k in range(n)])
    H = np.empty((len(D), n, n))
    for k in range(n):
        for j in range(n):
            H[:, k, j] = f2[:, k] * a[:, k] ** 2 * prod_except(f, k) if k == j else f1[:, k] * a[:, k] * f1[:, j] * a[:, j] * prod_except(f, k, j)
    da = np.sign(D) if p == 1 else 2 * D
    X = np.column_stack([f1[:, k] * th[k] * da[:, k] * prod_except(f, k) for k in range(n)])
    return r, G, H, X


def evaluate(R, key, c, th, D, full=True):
    n = D.shape[1]
    K = getattr(ku, c)
    r, G, H, X = reference(c, th, D)
    D0, th0 = D.copy(), th.copy()
    d = ku.componentwise_distance(D, c, n)
    close(R, key + "/distance", d, np.abs(D) ** KER[c][1], "componentwise distance")
    d0 = d.copy()
    ok = close(R, key + "/value", K(th, d), r[:, None], "correlation", theta=th)
    for k in range(n):
        ok &= close(R, key + "/grad", K(th, d, grad_ind=k), G[:, [k]], "derivative with respect to parameter %d" % k, theta=th)
        for j in range(n):
            ok &= close(R, key + "/hess", K(th, d, grad_ind=k, hess_ind=j), H[:, k, [j]], "second derivative with respect to parameters %d and %d" % (k, j), theta=th)
    if full:
        dd = ku.componentwise_distance(D, c, n, theta=th, return_derivative=True)
        r2, dr = K(th, d, derivative_params={"dx": D, "dd": dd})
        ok &= close(R, key + "/value2", r2, r[:, None], "correlation returned with its derivative", theta=th)
        if c == "abs_exp":
            m = (D != 0)
            dr, X = np.where(m, dr, 0), np.where(m, X, 0)
        ok &= close(R, key + "/space", dr, X, "derivative with respect to the query", theta=th)
    R.check(np.array_equal(D, D0) and np.array_equal(th, th0) and np.array_equal(d, d0), key + "/args", "an argument was modified")
    return ok


def run_kernel(case, R):
    c, n, key = case["c"], case["d"], case["key"]
    D = np.array(list(itertools.product(DIFF, repeat=n)))
    grid = np.array(list(itertools.product((-1.0, -0.1, 0.4, 1.3) if n < 3 else (-0.6, 0.0, 0.8), repeat=n)))
    K = getattr(ku, c)
    for th in itertools.product(THETA, repeat=n):
        th = np.array(th)
        evaluate(R, key, c, th, D)
        R.tr(len(D)), R.trace()
        for i in range(len(D)):
            R.state(c, tuple(th), tuple(D[i]))
            if n > 1:
                R.nt(c, tuple(th), tuple(D[i]))
        d = ku.componentwise_distance(ku.differences(grid, grid), c, n)
        M = K(th, d).reshape(len(grid), len(grid))
        R.check(np.array_equal(M, M.T), key + "/symmetric", "the correlation matrix of a grid is not symmetric", theta=th)
        R.check(np.allclose(np.diag(M), 1, atol=1e-15) and M.min() >= 0 and M.max() <= 1 + 1e-14, key + "/bounds", "correlations outside [0,1], or not 1 at distance 0", theta=th)
        w = np.linalg.eigvalsh(M).min()
        R.check(w > -1e-11 * len(grid), key + "/psd", "the correlation matrix of a grid has eigenvalue %g" % w, theta=th)


def run_rows(case, R):
    """every count of rows around the block sizes: the rows are computed as they are alone"""
    c, n, key = case["c"], case["d"], case["key"]
    base = np.array(list(itertools.product(DIFF, repeat=n)))
    th = np.array([0.6, 1.7, 0.05])[:n]
    sizes = [0, 1, 2, 9999, 10000, 10001, 19999, 20000, 20001] + ([29999, 30000, 30001] if case["th"] else [])
    for N in sizes:
        # rows are distinct, so that a block taken from the wrong place shows
        D = base[np.arange(N) % len(base)] * (1 + np.arange(N)[:, None] * 1e-5)
        evaluate(R, "%s/%d" % (key, N), c, th, D, full=N <= 2 or c in ("squar_exp", "abs_exp"))
        R.state(c, n, N), R.tr(N), R.trace()
        if N > 2:
            R.nt(c, n, N)
        for nc in (1, n):
            W = 0.3 + np.arange(n * nc).reshape(n, nc) * 0.7 * (-1) ** np.arange(nc)
            got = ku.componentwise_distance_PLS(D, c, nc, W) if c in ("squar_exp", "abs_exp") else None
            if got is not None:
                p = KER[c][1]
                close(R, "%s/%d/pls" % (key, N), got, (np.abs(D) ** p).dot(np.abs(W) ** p), "weighted distance")


def run_pls(case, R):
    c, n, nc, key = case["c"], case["d"], case["nc"], case["key"]
    p = KER[c][1]
    D = np.array(list(itertools.product(DIFF, repeat=n)))
    K = getattr(ku, c)
    for signs in itertools.product((0.9, -0.4, 0.0), repeat=n):
        W = np.column_stack([np.roll(np.array(signs), k) + 0.1 * k for k in range(nc)])
        for th in itertools.product(THETA, repeat=nc):
            th = np.array(th)
            d = ku.componentwise_distance_PLS(D, c, nc, W)
            a = (np.abs(D) ** p).dot(np.abs(W) ** p)
            close(R, key + "/distance", d, a, "weighted distance", W=W)
            eff = (np.abs(W) ** p).dot(th)
            r, _, _, X = reference(c, eff, D)
            close(R, key + "/value", K(th, d), r[:, None], "correlation", W=W, theta=th)
            for k in range(nc):
                close(R, key + "/grad", K(th, d, grad_ind=k), (-a[:, k] * r)[:, None], "derivative with respect to parameter %d" % k, W=W, theta=th)
            dd = ku.componentwise_distance_PLS(D, c, nc, W, theta=th, return_derivative=True)
            _, dr = K(th, d, derivative_params={"dx": D, "dd": dd})
            if p == 1:
                dr, X = np.where(D != 0, dr, 0), np.where(D != 0, X, 0)
            close(R, key + "/space", dr, X, "derivative with respect to the query", W=W, theta=th)
            R.state(c, n, nc, signs, tuple(th)), R.tr(len(D)), R.trace()
            if nc > 1:
                R.nt(c, n, nc, signs, tuple(th))


def run_active(case, R):
    n, m, key = case["d"], case["m"], case["key"]
    D = np.array(list(itertools.product(DIFF, repeat=n)))
    for th in itertools.product((-0.8, 0.0, 0.5, 1.6) if n * m < 5 else (-0.8, 0.5), repeat=n * m):
        th = np.array(th)
        A = np.array([[th[q * n + p] for q in range(m)] for p in range(n)])
        z = D.dot(A)
        r = np.exp(-0.5 * (z * z).sum(1))
        d = ku.componentwise_distance(D, "act_exp", n)
        close(R, key + "/distance", d, D, "componentwise distance")
        close(R, key + "/value", ku.act_exp(th, d), r[:, None], "correlation", theta=th)
        for a in range(n * m):
            p, q = a % n, a // n
            close(R, key + "/grad", ku.act_exp(th, d, grad_ind=a), (-D[:, p] * z[:, q] * r)[:, None], "derivative with respect to parameter %d" % a, theta=th)
            for b in range(n * m):
                s, t = b % n, b // n
                close(R, key + "/hess", ku.act_exp(th, d, grad_ind=a, hess_ind=b), (D[:, p] * D[:, s] * (z[:, q] * z[:, t] - (q == t)) * r)[:, None], "second derivative with respect to parameters %d and %d" % (a, b), theta=th)
        R.state(n, m, tuple(th)), R.tr(len(D)), R.trace()
        if m > 1 or n > 1:
            R.nt(n, m, tuple(th))
        dup = attempt(lambda: ku.act_exp(th, d, derivative_params={"dx": D}))
        R.check(dup[0] == "exc", key + "/refused", "a derivative that is not available is returned")


def run_trend(case, R):
    n, key = case["d"], case["key"]
    X = np.array(list(itertools.product((-2.0, 0.0, 0.5, 3.0) if n < 5 else (-2.0, 0.5, 3.0), repeat=n)))
    for rows in (X, X[:1], X[1:3], X[::2], np.asfortranarray(X), X.tolist()):
        A = np.asarray(rows)
        close(R, key + "/constant", ku.constant(rows), np.ones((len(A), 1)), "constant trend", 0)
        close(R, key + "/linear", ku.linear(rows), np.column_stack([np.ones(len(A)), A]), "linear trend", 0)
        got = np.asarray(ku.quadratic(rows))
        mono = [np.ones(len(A))] + [A[:, i] for i in range(n)] + [A[:, i] * A[:, j] for i in range(n) for j in range(i, n)]
        R.state(n, len(A)), R.tr(3), R.trace()
        if n > 1:
            R.nt(n, len(A))
        # the documented columns: one constant, every input, every product of two inputs once
        if R.check(got.shape == (len(A), len(mono)), key + "/quadratic", "shape %s" % (got.shape,)):
            close(R, key + "/quadratic", got, np.column_stack(mono), "quadratic trend", 1e-15)


def run_scale(case, R):
    n, key = case["d"], case["key"]
    vals = (-1.0, 0.0, 2.5)
    for nt in (2, 3) if n == 2 else (2, 3, 4):
        for flat in itertools.product(vals, repeat=n * nt):
            X = np.array(flat).reshape(nt, n)
            for ys in ((0.0, 1.0, -4.0, 2.0), (3.0, 3.0, 3.0, 3.0)):
                y = np.column_stack([ys[:nt], np.arange(nt) * 2.0])
                for unit in (False, True):
                    if unit and (X.max(0) == X.min(0)).any():
                        R.skip("a constant input has no unit scaling")
                        continue
                    X0, y0 = X.copy(), y.copy()
                    Z, w, xo, ym, xs, yd = ku.standardization(X, y, scale_X_to_unit=unit)
                    R.ev(), R.tr(), R.state(n, flat, unit, ys[0]), R.trace()
                    if n > 1:
                        R.nt(n, flat, unit, ys[0])
                    ok = np.array_equal(X, X0) and np.array_equal(y, y0)
                    R.check(ok, key + "/args", "an argument was modified")
                    R.check(np.allclose(Z * xs + xo, X, atol=1e-13) and np.allclose(w * yd + ym, y, atol=1e-13), key + "/inverse", "the scaling is not undone by its own offset and scale", X=X, unit=unit)
                    if unit:
                        R.check(np.allclose(Z.min(0), 0) and np.allclose(Z.max(0), 1), key + "/unit", "the inputs do not fill [0,1]", X=X)
                    for M, S in ((w, y),) if unit else ((Z, X), (w, y)):
                        const = S.max(0) == S.min(0)
                        R.check(np.allclose(M.mean(0), 0, atol=1e-13), key + "/mean", "scaled data has mean %s" % M.mean(0), data=S)
                        R.check(np.allclose(M.std(0, ddof=1)[~const], 1) and np.all(np.abs(M[:, const]) < 1e-12), key + "/std", "scaled data has standard deviation %s" % M.std(0, ddof=1), data=S)


def run_cross(case, R):
    key = case["key"]
    for n in (1, 2, 3):
        for N in list(range(1, 12)) + ([146, 300] if case["th"] else [146]):
            X = np.sin(np.arange(N * n) * 1.7).reshape(N, n) * 3
            D, ij = ku.cross_distances(X)
            R.ev(), R.tr(), R.state("cross", n, N), R.trace()
            if N > 2:
                R.nt("cross", n, N)
            pairs = [(i, j) for i in range(N) for j in range(i + 1, N)]
            if R.check(D.shape == (len(pairs), n) and np.asarray(ij).shape == (len(pairs), 2), key, "shapes %s, %s for %d points" % (D.shape, np.shape(ij), N)):
                R.check(sorted(map(tuple, np.sort(np.asarray(ij), axis=1).tolist())) == pairs, key, "the pairs of %d points are not all listed once" % N)
                R.check(np.array_equal(D, X[ij[:, 0]] - X[ij[:, 1]]), key, "a difference is not that of its pair (%d points)" % N)
            for M in (0, 1, 4):
                Y = np.cos(np.arange(M * n)).reshape(M, n)
                if M == 0 or N == 0:
                    continue
                E = ku.differences(X, Y)
                R.ev()
                want = np.array([x - z for x in X for z in Y])
                R.check(E.shape == want.shape and np.array_equal(E, want), key + "/differences", "differences of %d and %d points" % (N, M))


def run_taylor(case, R):
    """the local first-order design of GEKPLS"""
    n, key = case["d"], case["key"]
    nt = 3
    X = 0.2 + 0.6 * halton(nt, n, 1)
    y = fun(X, 1, 0.0)
    # large steps on large bounds: everything is linear, so that nothing is lost
    grads = [np.array(g) for g in itertools.islice(itertools.product((1.0, -3.0, 0.25), repeat=n), 0, None, 1 if n < 4 else 3 ** (n - 3))]
    for g in grads:
        for lims in (np.column_stack([np.zeros(n), 1 + np.arange(n)]), np.column_stack([-2.0 - np.arange(n)[::-1], np.ones(n)])):
            rng_ = lims[:, 1] - lims[:, 0]
            for step in (1e-1, 1e-3):
                for extra in range(0, n + 1):
                    pts = {None: {0: [X, y]}}
                    G = np.array([g * (1 + 0.5 * i) * (-1) ** i for i in range(nt)])
                    for k in range(n):
                        pts[None][k + 1] = [X, G[:, [k]]]
                    C, XX, yy = ku.ge_compute_pls(X.copy(), y.copy(), 1, pts, step, lims, extra)
                    R.ev(), R.tr(), R.state(n, tuple(g), float(rng_[0]), step, extra), R.trace()
                    if extra:
                        R.nt(n, tuple(g), float(rng_[0]), step, extra)
                    w = np.abs(G) * rng_
                    W = (w / np.linalg.norm(w, axis=1)[:, None]).mean(axis=0)
                    close(R, key + "/weights", C, W[:, None], "weights of the local expansion", 1e-6, gradient=g, limits=lims, step=step)
                    if not R.check(XX.shape == (nt * extra, n) and yy.shape == (nt * extra, 1), key + "/extra", "shapes %s, %s" % (XX.shape, yy.shape)):
                        continue
                    for i in range(nt):
                        used = []
                        for e in range(i * extra, (i + 1) * extra):
                            dx = XX[e] - X[i]
                            k = int(np.argmax(np.abs(dx)))
                            used.append(k)
                            want = np.zeros(n)
                            want[k] = step * rng_[k]
                            R.check(np.allclose(dx, want, atol=1e-12), key + "/extra", "extra point %s of %s" % (XX[e], X[i]), step=step)
                            R.check(abs(yy[e, 0] - y[i, 0] - G[i, k] * want[k]) < 1e-12, key + "/extra", "value %s of the extra point %s of %s (value %s, gradient %s)" % (yy[e, 0], XX[e], X[i], y[i, 0], G[i]), step=step)
                        if extra:
                            left = [w[i, k] for k in range(n) if k not in used]
                            R.check(len(set(used)) == extra and (not left or max(left) <= min(w[i, k] for k in used) * (1 + 1e-6)), key + "/extra", "extra points in directions %s for weights %s" % (used, w[i]))

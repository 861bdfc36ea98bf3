"""C12: (a) all setup/solve histories of every linear solver over a lattice of SPD systems, (b) every line search on a
lattice of one-dimensional profiles with an evaluation budget."""
import itertools
import numpy as np
import scipy.sparse as sp
from vlib import seams  # noqa: F401
from smt.utils.linear_solvers import get_solver, KrylovSolver, StationarySolver, MultigridSolver, DirectSolver, VALID_SOLVERS
from smt.utils.line_search import get_line_search_class, VALID_LINE_SEARCHES
from smt.utils.printer import Printer

ID = "C12"
LEVEL = "model_checking"
RULE = ("(a) every system A = L L^T with L over an integer lattice (n<=3), every solver and matrix form, every right-hand side of the lattice and solution-buffer form, plus all operation sequences over "
        "{setup A, setup B, solve b1, solve b2} up to the depth bound; (b) every polynomial/wiggly/partly undefined profile of the lattice x initial step x line search, with a bounded number of function evaluations. "
        "Non-trivial: systems of size > 1, histories with a second setup, profiles where the initial step is not accepted")
BOUNDS = {"quick": "n<=3 lattice of 12+216 systems (72 used for n=3), sequences of length 4, 625 quartic profiles x 3 initial steps + special profiles x 5 line searches", "thorough": "all systems, sequences of length 5, 2401 quartic profiles"}
ASSUMPTIONS = ["stationary and multigrid solvers are iterative: they are given diagonally dominant systems and enough iterations, and judged by the solution they reach",
               "'null' is documented as doing nothing and is judged by leaving the solution buffer alone"]
TIMEOUT = 300

SOLVERS = {
    "dense-lu": (lambda: get_solver("dense-lu"), 1e-9), "dense-chol": (lambda: get_solver("dense-chol"), 1e-9), "lu": (lambda: get_solver("lu"), 1e-9),
    "krylov": (lambda: get_solver("krylov"), 1e-6), "krylov-dense": (lambda: get_solver("krylov-dense"), 1e-6), "krylov-lu": (lambda: get_solver("krylov-lu"), 1e-6),
    "krylov-mg": (lambda: get_solver("krylov-mg"), 1e-6), "mg": (lambda: get_solver("mg"), 1e-9),
    "bicgstab": (lambda: KrylovSolver(solver="bicgstab"), 1e-6), "gmres": (lambda: KrylovSolver(solver="gmres"), 1e-6), "cg-jacobi": (lambda: KrylovSolver(pc="jacobi"), 1e-6),
    "gs": (lambda: StationarySolver(solver="gs", ilimit=400), 1e-6), "jacobi": (lambda: StationarySolver(solver="jacobi", ilimit=400, damping=0.5), 1e-6),
    "gs-damped": (lambda: StationarySolver(solver="gs", ilimit=600, damping=0.7), 1e-6),
    "mg-clone": (lambda: get_solver("mg")._clone(), 1e-9), "lu-clone": (lambda: get_solver("lu")._clone(), 1e-9), "gs-clone": (lambda: StationarySolver(solver="jacobi", ilimit=400, damping=0.5)._clone(), 1e-6),
}
STATIONARY = ("gs", "jacobi", "gs-damped", "cg-jacobi", "gs-clone")


def systems(n, thorough):
    out = []
    for k, d in enumerate(itertools.product((1, 2), repeat=n)):
        for j, o in enumerate(itertools.product((-1, 0, 1), repeat=n * (n - 1) // 2)):
            if n == 3 and not thorough and (k * 27 + j) % 5:
                continue
            L = np.diag(d).astype(float)
            L[np.tril_indices(n, -1)] = o
            out.append(L @ L.T)
    return out


def dominant(A):
    return A + np.diag(np.abs(A).sum(axis=1))


def cases(tier):
    th = tier == "thorough"
    out = [{"part": "solve", "solver": s, "n": n, "tier": tier, "key": "C12/solve/%s/n%d" % (s, n)} for s in SOLVERS for n in (1, 2, 3)]
    out += [{"part": "seq", "solver": s, "tier": tier, "key": "C12/seq/%s" % s} for s in SOLVERS]
    out += [{"part": "mg", "tier": tier, "key": "C12/mg2"}, {"part": "null", "tier": tier, "key": "C12/null"}]
    coefs = (-2, -1, 0, 1, 3) if not th else (-3, -2, -1, 0, 1, 2, 4)
    for ls in VALID_LINE_SEARCHES:
        for c1 in coefs:
            out.append({"part": "ls", "ls": ls, "c1": c1, "coefs": list(coefs), "tier": tier, "key": "C12/ls/%s/c1=%d" % (ls, c1)})
        out.append({"part": "ls-special", "ls": ls, "tier": tier, "key": "C12/ls-special/%s" % ls})
    return out


def pr():
    p = Printer()
    p.active = False
    return p


def bufs(n):
    yield "none", None
    yield "zeros", np.zeros(n)
    yield "full", np.linspace(-3, 2, n)
    w = np.full((n, 2), 7.0)
    yield "strided", w[:, 1]
    yield "fcol", np.asfortranarray(np.ones((n, 3)))[:, 2]


def rhss(n):
    for r in itertools.product((-1.0, 0.0, 2.0), repeat=n):
        yield np.array(r)


def run(case, R):
    globals()["run_" + case["part"].replace("-", "_")](case, R)


def run_solve(case, R):
    name, n = case["solver"], case["n"]
    mk, tol = SOLVERS[name]
    for si, A in enumerate(systems(n, case["tier"] == "thorough")):
        if name in STATIONARY:
            A = dominant(A)
        forms = {"csc": sp.csc_matrix(A)}
        if name.startswith("dense"):
            forms["nd"], forms["ndF"] = A.copy(), np.asfortranarray(A)
        for fn, M in forms.items():
            s = mk()
            s._setup(M, pr())
            R.tr()
            for ri, b in enumerate(rhss(n)):
                if n == 3 and (ri + si) % 5 and case["tier"] == "quick" and name != "gmres":
                    continue
                want = np.linalg.solve(A, b)
                for bn, buf in bufs(n):
                    if bn in ("full", "fcol") and (ri + si) % 2:
                        continue
                    b2 = b.copy()
                    got = s._solve(b2, buf)
                    R.ev(), R.tr()
                    R.state(name, si, fn)
                    if n > 1:
                        R.nt(name, n, si, fn, ri, bn)
                    k = "C12/solve/%s/%s/%s" % (name, fn, bn)
                    if name == "gmres":
                        k += "/A=%s/b=%s" % (A.astype(int).tolist(), b.astype(int).tolist())
                    R.check(np.allclose(got, want, rtol=tol, atol=tol), k, "A=%s b=%s got %s want %s" % (A.tolist(), b.tolist(), got, want))
                    if buf is not None:
                        R.check(np.allclose(buf, want, rtol=tol, atol=tol), k + "/inplace", "solution buffer not filled: A=%s b=%s got %s want %s" % (A.tolist(), b.tolist(), buf, want))
                    R.check(np.array_equal(b, b2), k + "/rhs", "right-hand side modified")
            R.check(np.array_equal(M.toarray() if sp.issparse(M) else M, A), "C12/solve/%s/%s/mtx" % (name, fn), "matrix modified")


def run_seq(case, R):
    name = case["solver"]
    mk, tol = SOLVERS[name]
    S = systems(3, True)
    A, B = S[20], systems(2, True)[5]
    if name in STATIONARY:
        A, B = dominant(A), dominant(B)
    rh = {"b1": {3: np.array([1.0, -2, 0.5]), 2: np.array([1.0, 3])}, "b2": {3: np.array([0.0, 1, 4]), 2: np.array([-1.0, 0])}}
    for seq in itertools.product(("A", "B", "b1", "b2"), repeat=5 if case["tier"] == "thorough" else 4):
        if seq[0] not in "AB":
            continue
        s, cur, out = mk(), None, {}
        wide = {3: np.zeros((3, 2)), 2: np.zeros((2, 2))}
        for step, op in enumerate(seq):
            R.tr()
            if op in "AB":
                cur = A if op == "A" else B
                s._setup(sp.csc_matrix(cur), pr())
            else:
                n = len(cur)
                j = 0 if op == "b1" else 1
                s._solve(rh[op][n], wide[n][:, j], ind_y=j)
                R.ev()
                want = np.linalg.solve(cur, rh[op][n])
                if not R.check(np.allclose(wide[n][:, j], want, rtol=tol, atol=tol), "C12/seq/%s" % name, "%s at step %d: got %s want %s" % (seq, step, wide[n][:, j], want)):
                    break
                R.state("seq", name, len(cur), op)
        if sum(o in "AB" for o in seq) > 1:
            R.nt("seq", name, seq)
        R.trace()


def run_mg(case, R):
    P = np.array([[1.0, 0], [0.5, 0.5], [0, 1.0]])
    for smoother in ("gs", "jacobi", "krylov"):
        for i, A in enumerate(systems(3, True)[::6]):
            A = dominant(A)
            s = MultigridSolver(solver=smoother, mg_cycles=60)
            s._setup(sp.csc_matrix(A), pr(), mg_matrices=[sp.csc_matrix(P)])
            for b in (np.array([1.0, -1, 2]), np.array([0.0, 3, 1]), np.array([1.0, -1, 2])):
                got = s._solve(b, np.zeros(3))
                want = np.linalg.solve(A, b)
                R.ev(), R.tr(2), R.nt("mg", smoother, i, tuple(b))
                R.check(np.allclose(got, want, rtol=1e-6, atol=1e-6), "C12/mg2/%s" % smoother, "A=%s b=%s got %s want %s" % (A.tolist(), b, got, want))


def run_null(case, R):
    for n in (1, 2, 3):
        s = get_solver("null")
        s._setup(sp.csc_matrix(np.eye(n)), pr())
        buf = np.arange(n) + 1.0
        s._solve(np.ones(n) * 5, buf)
        R.ev(), R.tr()
        R.check(np.array_equal(buf, np.arange(n) + 1.0), "C12/null", "null solver changed the solution")
    for v in VALID_SOLVERS:
        R.check(get_solver(v) is not None, "C12/null/%s" % v, "declared solver name gives no solver")
    for v in VALID_LINE_SEARCHES:
        R.check(get_line_search_class(v) is not None, "C12/null/%s" % v, "declared line search name gives no class")


class Budget(Exception):
    pass


def drive(R, key, ls, f, g, x0, dx, a0, convex=False, desc=""):
    cnt = [0]

    def F(x):
        cnt[0] += 1
        if cnt[0] > 6000:
            raise Budget()
        return f(x)

    def G(x):
        cnt[0] += 1
        if cnt[0] > 6000:
            raise Budget()
        return g(x)

    x, d = x0.copy(), dx.copy()
    try:
        res = get_line_search_class(ls)(x, d, F, G)(a0)
    except Budget:
        R.fail(key + "/terminates", "no step after 6000 evaluations: %s" % (desc,))
        return
    except Exception as e:
        R.fail(key + "/raises", "%s: %s on %s" % (type(e).__name__, e, desc))
        return
    R.ev(), R.tr(cnt[0])
    if not R.check(isinstance(res, np.ndarray) and res.shape == x0.shape and np.isrealobj(res) and np.all(np.isfinite(res)), key + "/result", "result %s on %s" % (res, desc)):
        return
    R.check(np.array_equal(x, x0) and np.array_equal(d, dx), key + "/inputs", "x or dx modified on %s" % (desc,))
    a = float(np.dot(res - x0, dx) / np.dot(dx, dx))
    R.check(np.allclose(res, x0 + a * dx, rtol=1e-12, atol=1e-12) and a >= 0, key + "/direction", "result is not x + a dx with a >= 0 on %s" % (desc,))
    R.nt(key, desc) if abs(a - a0) > 1e-12 else None
    if ls == "null":
        R.check(abs(a - a0) < 1e-12, key + "/null", "null line search does not take the full step")
        return
    if np.array_equal(res, x0):
        d0 = float(np.dot(g(x0), dx))
        R.check(not (convex and d0 < 0 and abs(f(x0 + a0 * dx)) < 1e3 * (1 + abs(f(x0)))), key + "/progress", "no step taken along a descent direction of a convex function: %s" % (desc,))
        return
    p0, d0, p = f(x0), float(np.dot(g(x0), dx)), f(res)
    eps = 1e-12 * (1 + abs(p0) + abs(d0) * a)
    R.check(p <= p0 + 1e-4 * a * d0 + eps, key + "/decrease", "a=%r phi=%r phi0=%r dphi0=%r on %s" % (a, p, p0, d0, desc))
    if ls != "backtracking" and convex and d0 < 0 and abs(f(x0 + a0 * dx)) < 1e3 * (1 + abs(p0)):
        R.check(abs(float(np.dot(g(res), dx))) <= 0.9 * abs(d0) + eps, key + "/curvature", "curvature condition fails on %s" % (desc,))


def run_ls(case, R):
    ls, c1 = case["ls"], case["c1"]
    for c2, c3, c4 in itertools.product(case["coefs"], repeat=3):
        f = lambda x: float(c1 * x[0] + c2 * x[0] ** 2 + c3 * x[0] ** 3 + c4 * x[0] ** 4)
        g = lambda x: np.array([c1 + 2 * c2 * x[0] + 3 * c3 * x[0] ** 2 + 4 * c4 * x[0] ** 3])
        for a0 in (1.0, 0.1, 8.0):
            drive(R, "C12/ls/%s" % ls, ls, f, g, np.zeros(1), np.ones(1), a0, convex=(c3 == 0 and c2 > 0 and c4 >= 0), desc=(c1, c2, c3, c4, a0))
            R.state("ls", ls, c1, c2, c3, c4)


def run_ls_special(case, R):
    ls = case["ls"]
    lg = lambda z: np.log(z) if z > 0 else np.nan
    prof = {
        "sin9": (lambda t: np.sin(9 * t) - t, lambda t: 9 * np.cos(9 * t) - 1), "cosup": (lambda t: np.cos(7 * t) + t * t, lambda t: -7 * np.sin(7 * t) + 2 * t),
        "barrier": (lambda t: -3 * t - lg(0.7 - t), lambda t: -3 + (1 / (0.7 - t) if t < 0.7 else np.nan)), "exp": (lambda t: np.exp(5 * t) - 9 * t, lambda t: 5 * np.exp(5 * t) - 9),
        "abs": (lambda t: abs(t - 0.3), lambda t: np.sign(t - 0.3)), "flat": (lambda t: 1.0, lambda t: 0.0), "infwall": (lambda t: -t if t < 0.4 else np.inf, lambda t: -1.0),
        "cliff": (lambda t: -t if t < 0.4 else 5.0, lambda t: -1.0 if t < 0.4 else 0.0), "p4": (lambda t: (t - 0.1) ** 4, lambda t: 4 * (t - 0.1) ** 3), "steep": (lambda t: (1e4 * t - 1) ** 2, lambda t: 2e4 * (1e4 * t - 1)),
        "tiny": (lambda t: 1e-30 * (t - 1) ** 2, lambda t: 2e-30 * (t - 1)), "huge": (lambda t: 1e200 * (t - 0.2) ** 2, lambda t: 2e200 * (t - 0.2)), "down": (lambda t: -np.exp(3 * t), lambda t: -3 * np.exp(3 * t)),
        "log": (lambda t: -np.log1p(50 * t), lambda t: -50 / (1 + 50 * t)), "nan": (lambda t: np.nan if t > 0 else 0.0, lambda t: -1.0 if t <= 0 else np.nan),
    }
    for pn, (p, dp) in prof.items():
        for n in (1, 2):
            u = np.ones(n) / np.sqrt(n)
            for sc in (1.0, 0.25):
                f = lambda x: float(p(float(x @ u)))
                g = lambda x: np.asarray(dp(float(x @ u)) * u)
                for a0 in (1.0, 0.1, 8.0):
                    drive(R, "C12/ls-special/%s/%s" % (ls, pn), ls, f, g, np.zeros(n), u * sc, a0, convex=pn in ("exp", "p4", "steep", "log"), desc=(pn, n, sc, a0))

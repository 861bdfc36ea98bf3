"""C27: benchmark problems against independently written formulas, wrappers against the wrapped problem."""
import itertools
import numpy as np
from vlib.smtlib import *
from smt import problems as pb

ID = "C27"
LEVEL = "model_checking"
RULE = ("every problem x number of inputs x options x every lattice point of its domain including all corners (and, for many inputs, all 3x3 lattices of every pair of inputs): the value is that of an independently written formula, the derivative with respect to every input its complex-step derivative, evaluation row by row and for complex inputs agrees, the arguments stay as they are, finite differences agree within their accuracy, invalid kx and widths are refused; "
        "every wrapper (reduced by every ordered choice of inputs, tensor product, N-dimensional) x fixed value: equals the wrapped problem with the remaining inputs at the documented place of their interval. States: (problem, point); non-trivial: more than one input")
BOUNDS = {"quick": "17 problem classes, 1..4 inputs (1..4 segments), lattice 5 per input up to 3 inputs, 2^n corners, all pairs; reductions by all ordered choices of up to 3 inputs, 3 fixed fractions, nested reductions", "thorough": "lattice 9/7/5, more segments, reductions of 4 inputs"}
ASSUMPTIONS = ["points where the documented function is not differentiable (norms at zero) are judged for their value only"]
TIMEOUT = 600


def f_branin(x):
    a, b = x
    return (b - 5.1 / (4 * np.pi ** 2) * a ** 2 + 5 / np.pi * a - 6) ** 2 + 10 * (1 - 1 / (8 * np.pi)) * np.cos(a) + 10


def f_rosen(x):
    return sum(100 * (x[i + 1] - x[i] * x[i]) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1)) + 0 * x[0]


def f_cant(P, E):
    def f(x):
        b, h, l = x[0::3], x[1::3], x[2::3]
        s = 0
        for i in range(len(b)):
            s = s + 12 / (b[i] * h[i] ** 3) * (sum(l[i:]) ** 3 - sum(l[i + 1:]) ** 3)
        return P / (3 * E) * s
    return f


def f_robot(x):
    u = v = 0
    t = 0
    for L, a in zip(x[0::2], x[1::2]):
        t = t + a
        u = u + L * np.cos(t)
        v = v + L * np.sin(t)
    return np.sqrt(u * u + v * v)


def f_lp(p):
    def f(x):
        s = 0
        for v in x:
            s = s + (v * np.sign(v.real)) ** p
        return s ** (1 / p)
    return f


def f_tors(x):
    d1, L1, G1, L3, G3, D1, d2, L2, G2, d3, t1, r1, D2, t2, r2 = x
    K1, K2, K3 = (np.pi * G * d / (32 * L) for G, d, L in ((G1, d1, L1), (G2, d2, L2), (G3, d3, L3)))
    J1, J2 = (0.5 * (r * np.pi * t * D / (4 * 9.80665)) * (D / 2) ** 2 for r, t, D in ((r1, t1, D1), (r2, t2, D2)))
    b = -((K1 + K2) / J1 + (K2 + K3) / J2)
    c = (K1 * K2 + K2 * K3 + K3 * K1) / (J1 * J2)
    return np.sqrt((-b - np.sqrt(b * b - 4 * c)) / 2) / (2 * np.pi)


def f_flow(q, one):
    def f(x):
        rw, r, Tu, Hu, Tl, Hl, L, Kw = x
        g = np.log(r / rw)
        return q * Tu * (Hu - Hl) / (g * (one + 2 * L * Tu / (g * rw ** 2 * Kw) + Tu / Tl))
    return f


def f_weld(x):
    t, h, l = x
    d = np.sqrt(0.25 * (l ** 2 + (h + t) ** 2))
    a = 6000 / (np.sqrt(2) * h * l)
    b = 6000 * (14 + 0.5 * l) * d / (2 * 0.707 * h * l * (l ** 2 / 12 + 0.25 * (h + t) ** 2))
    return np.sqrt(a ** 2 + b ** 2 + l * a * b / d)


def f_wing(x):
    S, Wf, A, lam, q, la, tc, N, Wd, Wp = x
    c = np.cos(lam * np.pi / 180)
    return 0.036 * S ** 0.758 * Wf ** 0.0035 * (A / c ** 2) * q ** 0.006 * la ** 0.04 * (100 * tc / c) ** -0.3 * (N * Wd) ** 0.49 + S * Wp


def f_tp(name, a):
    g = {"cos": lambda v: np.cos(a * np.pi * v), "exp": lambda v: np.exp(a * v), "tanh": lambda v: np.tanh(a * v), "gaussian": lambda v: np.exp(-2.0 * a * v ** 2)}[name]

    def f(x):
        y = 1.0
        for v in x:
            y = y * g(v)
        return y
    return f


def sq(x):
    return sum(v * v for v in x)


BOX = {  # documented domains
    "Branin": lambda n: [(-5, 10), (0, 15)], "Sphere": lambda n: [(-10, 10)] * n, "Rosenbrock": lambda n: [(-2, 2)] * n, "LpNorm": lambda n: [(-1, 1)] * n, "TensorProduct": lambda n: [(-1, 1)] * n,
    "CantileverBeam": lambda n: [(0.01, 0.05), (0.3, 0.65), (0.5, 1.0)] * (n // 3), "RobotArm": lambda n: [(0, 1), (0, 2 * np.pi)] * (n // 2),
    "WingWeight": lambda n: [(150, 200), (220, 300), (6, 10), (-10, 10), (16, 45), (0.5, 1), (0.08, 0.18), (2.5, 6), (1700, 2500), (0.025, 0.08)],
    "WaterFlow": lambda n: [(0.05, 0.15), (100, 50000), (63070, 115600), (990, 1110), (63.1, 116), (700, 820), (1120, 1680), (9855, 12045)],
    "WeldedBeam": lambda n: [(5, 10), (0.125, 1), (5, 10)],
}
BOX["WaterFlowLFidelity"] = BOX["WaterFlow"]


def defs(th):
    """(label, class name, options, formula, smooth points?)"""
    D = []
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        D.append(("Sphere", dict(ndim=n), sq))
        for p in (1, 2, 3, 4, 5):
            D.append(("LpNorm", dict(ndim=n, order=p), f_lp(p)))
        for fn, a in itertools.product(("cos", "exp", "tanh", "gaussian"), (1.0, 0.5, 3)):
            D.append(("TensorProduct", dict(ndim=n, func=fn, width=a), f_tp(fn, a)))
        D.append(("Rosenbrock", dict(ndim=n), f_rosen))
        if n < 4 or th:
            D.append(("CantileverBeam", dict(ndim=3 * n), f_cant(50e3, 200e9)))
            D.append(("RobotArm", dict(ndim=2 * n), f_robot))
        D.append(("CantileverBeam", dict(ndim=3 * min(n, 2), P=1000 * n, E=7.0 * n), f_cant(1000 * n, 7.0 * n)))
    D.append(("Branin", dict(), f_branin))
    for fd in (False, True):
        for n_, f in (("TorsionVibration", f_tors), ("WaterFlow", f_flow(2 * np.pi, 1)), ("WaterFlowLFidelity", f_flow(5, 1.5)), ("WeldedBeam", f_weld), ("WingWeight", f_wing)):
            D.append((n_, dict(use_FD=fd), f))
    return D


def lab(n, o):
    return n + "".join("/%s=%s" % k for k in sorted(o.items()))


def cases(tier):
    th = tier == "thorough"
    out = []
    seen = set()
    for i, (n, o, f) in enumerate(defs(th)):
        if lab(n, o) in seen:
            continue
        seen.add(lab(n, o))
        out.append(dict(kind="val", i=i, th=th, key="C27/val/" + lab(n, o)))
        if not o.get("use_FD") and o.get("order", 2) == 2 and o.get("width", 1.0) == 1.0:
            out.append(dict(kind="red", i=i, th=th, key="C27/red/" + lab(n, o)))
    for w, n in itertools.product(("CantileverBeam", "RobotArm", "Rosenbrock", "StepFunction"), (1, 2, 3, 4)):
        out.append(dict(kind="ndim", w=w, n=n, th=th, key="C27/ndim/%s/%d" % (w, n)))
    return out


def points(box, th):
    box = np.asarray(box, float)
    n = len(box)
    g = {1: 9 if th else 5, 2: 7 if th else 5, 3: 5}.get(n, 0)
    P = []
    if g:
        P += list(itertools.product(np.linspace(0, 1, g), repeat=n))
    elif n <= 10:
        P += list(itertools.product((0, 1), repeat=n))
    else:
        for base in (0, 1):
            for i, j, k in itertools.combinations(range(n), 3):
                p = [base] * n
                p[i], p[j], p[k] = 1 - base, 1 - base, 1 - base
                P.append(p)
    for base in (0.5, 0.3):
        for i, j in itertools.combinations(range(n), 2):
            if n > 3:
                for a, b in itertools.product((0, 0.5, 1), repeat=2):
                    p = [base + 0.01 * k for k in range(n)]
                    p[i], p[j] = a, b
                    P.append(p)
    P += [[(0.37 + 0.41 * k + 0.13 * r) % 1 for k in range(n)] for r in range(6)]
    P = np.array(P, float)
    return box[:, 0] + P * (box[:, 1] - box[:, 0])


def ref(f, x):
    return np.array([f([np.complex128(v) for v in r]) for r in x]).real


def dref(f, x, kx):
    out = []
    for r in x:
        h = 1e-30 * max(1.0, abs(r[kx]))
        z = [np.complex128(v) for v in r]
        z[kx] += 1j * h
        with np.errstate(all="ignore"):
            out.append(f(z).imag / h)
    return np.array(out)


def smooth(name, o, x, v):
    """rows where the function is differentiable"""
    if name == "LpNorm":
        ok = (np.abs(x) > 0).any(1)
        return ok & (np.abs(x) > 0).all(1) if o["order"] == 1 else ok
    if name == "RobotArm":
        return v > 1e-3
    return np.ones(len(x), bool)


def run_val(case, R):
    name, o, f = defs(case["th"])[case["i"]]
    P = getattr(pb, name)(**o)
    n = P.options["ndim"]
    key = case["key"]
    box = BOX[name](n) if name in BOX else P.xlimits
    R.check(P.xlimits.shape == (n, 2) and np.array_equal(P.xlimits, np.asarray(box, float)), key + " xlimits", "domain is not the documented one", got=P.xlimits)
    x = points(box, case["th"])
    keep = x.copy()
    st, y = attempt(P, x)
    R.ev()
    R.trace()
    want = ref(f, x)
    if not R.check(st == "ok" and np.shape(y) == (len(x), 1) and y.dtype == float, key + " shape", "evaluation fails or has another shape", got=(st, y if st != "ok" else (y.shape, y.dtype))):
        return
    ok = np.abs(y[:, 0] - want) <= 1e-10 * np.maximum(np.abs(want), np.abs(want).max() * 1e-6)
    for i in np.where(~ok)[0][:5]:
        R.check(False, "%s value %d" % (key, i), "value differs from the formula", got=y[i, 0], want=want[i], x=x[i])
    for i in range(len(x)):
        R.state(key, i)
        if n > 1:
            R.nt(key, i)
    R.check(np.array_equal(x, keep), key + " args", "arguments changed")
    R.check(np.array_equal(P.xlimits, np.asarray(box, float)), key + " limits changed", "evaluation changes the domain")
    sm = smooth(name, o, x, want)
    fd = o.get("use_FD")
    der = []
    for kx in range(n):
        with np.errstate(all="ignore"):
            st, d = attempt(P, x, kx)
        R.ev()
        R.trace()
        R.tr(len(x))
        if not R.check(st == "ok" and np.shape(d) == (len(x), 1) and d.dtype == float, "%s dshape %d" % (key, kx), "derivative fails or has another shape", got=d):
            return
        w = dref(f, x, kx)
        tol = 1e-9 * np.maximum(np.abs(w), np.abs(w[sm]).max() * 1e-6) + 1e-13 * np.abs(want).max() / max(1.0, np.abs(x[:, kx]).max())
        if fd:
            tol = np.abs(w) * (1e-4 + 1e-9 * np.abs(x[:, kx])) + 1e-9 * np.abs(want)
        ok = np.abs(d[:, 0] - w) <= tol
        for i in np.where(~ok & sm)[0][:5]:
            R.check(False, "%s deriv %d %d" % (key, kx, i), "derivative differs from that of the formula", got=d[i, 0], want=w[i], x=x[i])
        R.check(np.array_equal(x, keep), "%s dargs %d" % (key, kx), "arguments changed by a derivative")
        der.append(d)
    # row by row, in another order, in part
    idx = range(len(x)) if len(x) <= 40 else range(0, len(x), len(x) // 40)
    for i in idx:
        R.check(np.array_equal(P(x[i:i + 1]), y[i:i + 1]), "%s row %d" % (key, i), "the value depends on the other rows")
        for kx in range(n):
            with np.errstate(all="ignore"):
                R.check(np.array_equal(P(x[i:i + 1], kx), der[kx][i:i + 1], equal_nan=True), "%s drow %d %d" % (key, i, kx), "the derivative depends on the other rows")
    R.check(np.array_equal(P(x[::-1]), y[::-1]), key + " reverse", "the value depends on the order of the rows")
    R.check(P(x[:0]).shape == (0, 1), key + " empty", "no rows give no values")
    # complex inputs
    if name != "LpNorm":
        C = getattr(pb, name)(return_complex=True, **o)
        xs = x[sm][:: max(1, sm.sum() // 60)]
        R.check(np.abs(C(xs) - P(xs)).max() <= 1e-12 * np.abs(want).max(), key + " complex", "a complex result differs from the real one")
        for kx in range(n):
            h = 1e-30 * max(1.0, np.abs(xs[:, kx]).max())
            z = xs.astype(complex)
            z[:, kx] += 1j * h
            w = dref(f, xs, kx)
            c = C(z)
            R.check(c.shape == (len(xs), 1) and np.abs(c[:, 0].imag / h - w).max() <= 1e-8 * np.abs(w).max() + 1e-12 * np.abs(want).max(), "%s cstep %d" % (key, kx), "the complex step of the value is not the derivative", got=c[:3, 0].imag / h, want=w[:3])
    if n == 1:
        R.check(np.array_equal(P(x[:, 0]), y), key + " flat", "a vector of one-dimensional points is not accepted")
    # refused
    for bad in (-1, n, n + 1, n + 2, 1.0, "0"):
        st, r = attempt(P, x[:3], bad)
        R.check(st == "exc", "%s kx %s" % (key, bad), "an invalid kx is not refused", got=r)
    for bad in (np.hstack((x[:3], x[:3, :1])), x[:3, :-1], x[:3].tolist(), x[:3].reshape(1, 3, n)):
        st, r = attempt(P, bad)
        R.check(st == "exc", "%s width %s" % (key, np.shape(bad)), "invalid points are not refused", got=r)
    # instances do not share anything
    Q = getattr(pb, name)(**o)
    Q.xlimits[:] = 0
    Q.options["return_complex"] = True
    R.check(np.array_equal(P.xlimits, np.asarray(box, float)) and P.options["return_complex"] is False and np.array_equal(P(x), y), key + " shared", "two problems share state")


def judge(R, key, W, P, dims, w, th):
    """wrapper W of P: x in dims, the others at fraction w of their interval"""
    n = len(dims)
    L = P.xlimits
    R.check(W.options["ndim"] == n and np.array_equal(W.xlimits, L[list(dims)]), key + " xlimits", "domain is not that of the chosen inputs", got=W.xlimits)
    g = {1: 5, 2: 4, 3: 3}.get(n, 2)
    u = np.array((list(itertools.product(np.linspace(0, 1, g), repeat=n)) if n <= 8 else [[(r >> (k % 5)) & 1 for k in range(n)] for r in range(32)]) + [[(0.37 + 0.41 * k + 0.13 * r) % 1 for k in range(n)] for r in range(3)])
    x = L[list(dims), 0] + u * (L[list(dims), 1] - L[list(dims), 0])
    full = np.repeat(((1 - w) * L[:, 0] + w * L[:, 1]).reshape(1, -1), len(x), 0)
    full[:, list(dims)] = x
    keep = x.copy()
    st, y = attempt(W, x)
    R.ev()
    R.trace()
    for i in range(len(x)):
        R.state(key, i)
        if n > 1:
            R.nt(key, i)
    want = y0 = P(full)
    R.check(st == "ok" and np.shape(y) == want.shape and np.asarray(y).dtype == float and close(y, want, 1e-12), key + " value", "value is not that of the wrapped problem", got=y, want=want)
    for kx in range(n):
        with np.errstate(all="ignore"):
            st, d = attempt(W, x, kx)
            want = P(full, int(dims[kx]))
        R.tr()
        fin = np.isfinite(want)
        if "RobotArm" in P.options["name"] or "LpNorm" in P.options["name"]:
            fin &= np.abs(y0) > 1e-3  # norms have no derivative at zero
        R.check(st == "ok" and np.shape(d) == want.shape and np.allclose(d[fin], want[fin], rtol=1e-9, atol=1e-9 * np.abs(want[fin]).max(initial=0.0) + 1e-12 * np.abs(y0).max() / (L[dims[kx], 1] - L[dims[kx], 0])), "%s deriv %d" % (key, kx), "derivative is not that of the wrapped problem", got=d, want=want)
    R.check(np.array_equal(x, keep), key + " args", "arguments changed")
    st, r = attempt(W, x[:, :-1])
    R.check(st == "exc", key + " width", "points of another width are accepted")
    for bad in (-1, n):
        st, r = attempt(W, x, bad)
        R.check(st == "exc", "%s kx %d" % (key, bad), "an invalid kx is not refused", got=r)


def run_red(case, R):
    name, o, f = defs(case["th"])[case["i"]]
    P = getattr(pb, name)(**o)
    n = P.options["ndim"]
    sets = []
    for r in range(1, min(n, 4 if case["th"] and n < 6 else 3 if n < 7 else 2 if n < 12 else 1) + 1):
        sets += list(itertools.permutations(range(n), r))
    if n >= 12:
        sets += [(i, (i * 7 + 3) % n) for i in range(n) if i != (i * 7 + 3) % n]
    sets += [tuple(range(n)), tuple(reversed(range(n)))]
    ws = (0.2, 0.0, 1.0) if len(sets) < 60 else (0.2,)
    for dims, w in itertools.product(sets, ws):
        k = "%s/%s/%g" % (case["key"], "".join("%x" % d for d in dims), w)
        for form in (list, tuple, np.array)[:1 if w else 3]:
            judge(R, k, pb.ReducedProblem(P, form(dims), w=w), P, dims, w, case["th"])
    for m in range(1, n + 1):
        judge(R, "%s/first%d" % (case["key"], m), pb.ReducedProblem(P, m), P, tuple(range(m)), 0.2, case["th"])
    if n >= 2:
        a = pb.ReducedProblem(P, [n - 1, 0], w=0.6)
        judge(R, case["key"] + "/nested", pb.ReducedProblem(a, [1], w=0.3), a, (1,), 0.3, case["th"])
    for bad in (n + 1, [n], "x", 1.5):
        st, r = attempt(pb.ReducedProblem, P, bad)
        R.check(st == "exc", "%s/bad %s" % (case["key"], bad), "an invalid choice of inputs is accepted")


def run_ndim(case, R):
    n, nm = case["n"], case["w"]
    cls = getattr(pb, "Ndim" + nm)
    if nm == "StepFunction":
        for a in (10.0, 1.0, 3.5):
            W = cls(ndim=n, width=a)
            P = pb.TensorProduct(ndim=n, func="tanh", width=a)
            judge(R, "%s/%g" % (case["key"], a), W, P, tuple(range(n)), 0.0, case["th"])
        judge(R, case["key"] + "/default", cls(ndim=n), pb.TensorProduct(ndim=n, func="tanh", width=10.0), tuple(range(n)), 0.0, case["th"])
        return
    P, dims = {"CantileverBeam": lambda: (pb.CantileverBeam(ndim=3 * n), range(1, 3 * n, 3)), "RobotArm": lambda: (pb.RobotArm(ndim=2 * n + 2), range(3, 2 * n + 2, 2)), "Rosenbrock": lambda: (pb.Rosenbrock(ndim=n + 1), range(1, n + 1))}[nm]()
    for w in (None, 0.2, 0.5, 0.9):
        W = cls(ndim=n) if w is None else cls(ndim=n, w=w)
        judge(R, "%s/%s" % (case["key"], w), W, P, tuple(dims), 0.2 if w is None else w, case["th"])


def run(case, R):
    globals()["run_" + case["kind"]](case, R)

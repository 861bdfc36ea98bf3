"""C30: symmetries of training, over whole groups: every row permutation, every renumbering of inputs, every subset and order of outputs, changes of unit."""
import contextlib, io, itertools, warnings
import numpy as np
from vlib.smtlib import *

ID = "C30"
LEVEL = "model_checking"
RULE = ("every surrogate configuration x number of inputs x data set: the model trained on every permutation of the rows (with derivatives and levels), every renumbering of the inputs (with limits, control points and correlation parameters), every subset and order of the outputs, every change of level and unit of outputs and inputs of a lattice, gives the transformed values, derivatives, variances and their derivatives; "
        "hyperparameters are scripted; with the real optimizers a change of unit by a power of two must give the transformed answers too. States: (configuration, group element); non-trivial: all but the identity")
BOUNDS = {"quick": "5 points (all 120 orders), nx<=3, 3 outputs", "thorough": "5 and 6 points (all 720 orders), two data sets"}
ASSUMPTIONS = ["well-conditioned variants (nugget 1e-6)", "renumbering inputs is not claimed for GENN (random initial weights belong to inputs)", "change of output unit is not claimed for RMTS with a non-quadratic approximation term, level not for RBF without a constant and RMTS with regularization", "RMTC is judged with regularization, its plain system has condition numbers above 1e12"]
TIMEOUT = 800

KRIG = [n for n in CONFIGS if n.startswith(("KRG", "KPLS", "GEKPLS", "MGP", "MFK"))]
SKIP = {"KRG-tnc"}


def names():
    return [n for n in CONFIGS if n not in SKIP]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in names():
        for nx in (1, 2, 3):
            if nx == 3 and n.startswith("RMT") and not th:
                continue
            for s in (0.0, 0.45) if th else (0.0,):
                for part in range(4):
                    out.append(dict(kind="rows", name=n, nx=nx, s=s, nt=6 if th and not n.startswith(("RMT", "GENN")) else 5, part=part, key="C30/rows/%s/%d/%g/%d" % (n, nx, s, part)))
                if nx > 1 and n != "GENN":
                    out.append(dict(kind="inputs", name=n, nx=nx, s=s, ny=1, key="C30/inputs/%s/%d/%g" % (n, nx, s)))
                    if CONFIGS[n][3]:
                        out.append(dict(kind="inputs", name=n, nx=nx, s=s, ny=2, key="C30/inputs/%s/%d/%g/2" % (n, nx, s)))
                if CONFIGS[n][3]:
                    out.append(dict(kind="outputs", name=n, nx=nx, s=s, key="C30/outputs/%s/%d/%g" % (n, nx, s)))
                out.append(dict(kind="units", name=n, nx=nx, s=s, ny=1, key="C30/units/%s/%d/%g" % (n, nx, s)))
                if CONFIGS[n][3]:
                    out.append(dict(kind="units", name=n, nx=nx, s=s, ny=2, key="C30/units/%s/%d/%g/2" % (n, nx, s)))
                if n in KRIG and nx < 3:
                    for opt in ("Cobyla", "TNC"):
                        out.append(dict(kind="pow2", name=n, nx=nx, s=s, opt=opt, ny=1, key="C30/pow2/%s/%d/%g/%s" % (n, nx, s, opt)))
                        if CONFIGS[n][3]:
                            out.append(dict(kind="pow2", name=n, nx=nx, s=s, opt=opt, ny=3, key="C30/pow2/%s/%d/%g/%s/3" % (n, nx, s, opt)))
    return out


def size(name, nx):
    n = 5 + 2 * (nx - 1)
    if name == "QP" or name == "KRG-m32":
        n = max(n, (nx + 1) * (nx + 2) // 2 + 2)
    return n


class Problem:
    """a training set, its options and what is asked"""

    def __init__(self, name, nx, ny, s, nt):
        self.name, self.nx = name, nx
        sc = np.array([1.0, 0.6, 1.0])[:nx]
        self.x = halton(nt, nx, 1 + int(s * 10))
        self.y = fun(self.x, ny, s)
        self.g = [dfun(self.x, k, ny, s) for k in range(nx)]
        self.xl = halton(nt + 3, nx, 20) if name.startswith("MFK") else None
        if self.xl is not None:
            self.xl = np.vstack([self.xl, self.x])
            self.yl = 0.8 * fun(self.xl, ny, s) + 0.3
        self.q = halton(4, nx, 50)
        self.lim = unit(nx)
        self.theta = np.array([1.3, 0.7, 2.1])[:nx]
        self.ctrl = np.array([6, 5, 7])[:nx]
        self.elem = np.array([2, 3, 2])[:nx]
        self.ylevel = 0.0
        self.d0 = 0.8

    def options(self):
        n, nx = self.name, self.nx
        o = {}
        if n in ("KRG", "KRG-abs", "KRG-m52", "KRG-m32", "KRG-lin"):
            o = dict(theta0=list(self.theta), nugget=1e-6)
        elif n == "KRG-noise":
            o = dict(theta0=list(self.theta), noise0=[1e-2])
        elif n == "MGP":
            o = dict(theta0=list(self.theta), nugget=1e-6)
        elif n == "MFK":
            o = dict(theta0=[list(self.theta)] * 2 if False else [1.1], nugget=1e-6)
        elif n in KRIG:
            o = dict(theta0=[1.1], nugget=1e-6)
        elif n in ("RMTB",):
            o = dict(num_ctrl_pts=self.ctrl, order=4)
        elif n == "RMTB-lin":
            o = dict(num_ctrl_pts=self.ctrl, order=3)
        elif n.startswith("RMTC"):
            o = dict(num_elements=self.elem)
        elif n.startswith("RBF"):
            o = dict(d0=self.d0)
        elif n == "GENN":
            o = dict(mini_batch_size=-1)
        if n.startswith(("RMT", "GEKPLS")):
            o["xlimits"] = self.lim.copy()
        if n.startswith("RMT"):
            o.update(solver="dense-lu", derivative_solver="dense-lu", **(dict(regularization_weight=1e-6) if n.startswith("RMTC") else {}))
        return o

    def model(self, **more):
        o = self.options()
        o.update(more)
        sm = make(self.name, self.nx, **o)
        if self.xl is not None:
            sm.set_training_values(self.xl.copy(), self.yl.copy(), name=0)
        sm.set_training_values(self.x.copy(), self.y.copy())
        if CONFIGS[self.name][2]:
            for k in range(self.nx):
                sm.set_training_derivatives(self.x.copy(), self.g[k].copy(), k)
        return sm

    def answers(self, frozen=True, **more):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sm = self.model(**more)
            with seams.minimize_hook(seams.frozen) if frozen else contextlib.nullcontext():
                st = attempt(sm.train)
            out = {"train": (st[0], None if st[0] == "ok" else st[1])}
            if st[0] != "ok":
                return out
            out["v"] = attempt(lambda: np.array(sm.predict_values(self.q.copy())).reshape(len(self.q), -1))
            if sm.supports["derivatives"]:
                out["d"] = attempt(lambda: np.array([sm.predict_derivatives(self.q.copy(), k) for k in range(self.nx)]))
            if sm.supports["variances"]:
                out["s"] = attempt(lambda: np.array(sm.predict_variances(self.q.copy())).reshape(len(self.q), -1))
            if sm.supports.get("variance_derivatives") and self.y.shape[1] == 1:
                out["sd"] = attempt(lambda: np.array([np.ravel(sm.predict_variance_derivatives(self.q[i : i + 1].copy())) for i in range(len(self.q))]))
        return out


def mapped(A, v=None, d=None, s=None, sd=None):
    out = {}
    for k, r in A.items():
        f = dict(v=v, d=d, s=s, sd=sd).get(k)
        out[k] = (r[0], f(r[1])) if f and r[0] == "ok" else r
    return out


def tol(name):
    if name.startswith("RMT"):
        return 1e-6
    return 1e-6


def judge(R, key, got, want, t, scale=None):
    for k in want:
        a, b = got.get(k), want[k]
        if a is None or a[0] != b[0]:
            R.check(False, "%s %s" % (key, k), "the transformed data are not accepted alike", got=a, want=b)
        elif a[0] == "ok" and k != "train":
            m = np.abs(b[1]).max() if np.size(b[1]) else 0.0
            extra = (scale or {}).get(k, 0.0)
            R.check(np.shape(a[1]) == np.shape(b[1]) and np.array_equal(np.isnan(a[1]), np.isnan(b[1])) and (np.size(b[1]) == 0 or not np.nanmax(np.abs(np.nan_to_num(a[1]) - np.nan_to_num(b[1]))) > t * max(m, extra)), "%s %s" % (key, k), "the answers do not transform with the data", got=a[1], want=b[1])


def begin(R, key, nt=True):
    R.ev()
    R.trace()
    R.tr()
    R.state(key)
    if nt:
        R.nt(key)


def magnitudes(P, base):
    """sizes below which answers are rounding: variances against that of the process, derivatives against the slope of the output"""
    sd = np.std(P.y)
    w = P.lim[:, 1] - P.lim[:, 0]
    return {"v": np.abs(P.y).max(), "d": sd / w.min(), "s": sd ** 2, "sd": sd ** 2 / w.min()}


def run_rows(case, R):
    name, nx = case["name"], case["nx"]
    nt = max(case["nt"], size(name, nx))
    ny = 2 if CONFIGS[name][3] else 1
    P = Problem(name, nx, ny, case["s"], nt)
    base = P.answers()
    R.check(base["train"][0] == "ok", case["key"] + " train", "training fails", got=base["train"])
    mag = magnitudes(P, base)
    n = case["nt"]
    for i, perm in enumerate(itertools.permutations(range(n))):
        if i % 4 != case["part"]:
            continue
        if name in ("GENN",) or name.startswith("RMT") or name == "MGP" or name.startswith("MFK"):
            if i // 4 % (2 if n == 5 else 12) and not (n == 5 and name == "MGP"):
                continue
        p = list(perm) + list(range(n, nt))
        S = Problem(name, nx, ny, case["s"], nt)
        S.x, S.y, S.g = P.x[p], P.y[p], [g[p] for g in P.g]
        key = "%s/%s" % (case["key"], "".join(map(str, perm)))
        begin(R, key, i > 0)
        judge(R, key, S.answers(), base, tol(name), mag)
    if P.xl is not None:
        m = len(P.xl)
        for i in range(m):
            p = list(range(i, m)) + list(range(i))
            for p in (p, p[::-1]):
                S = Problem(name, nx, ny, case["s"], nt)
                S.xl, S.yl = P.xl[p], P.yl[p]
                key = "%s/low/%s" % (case["key"], ",".join(map(str, p)))
                begin(R, key)
                judge(R, key, S.answers(), base, tol(name), mag)


def run_inputs(case, R):
    name, nx = case["name"], case["nx"]
    nt = size(name, nx)
    ny = case["ny"]
    P = Problem(name, nx, ny, case["s"], nt)
    P.lim = np.array([[0.0, 1.0], [-0.2, 1.1], [0.0, 1.3]])[:nx]
    base = P.answers()
    R.check(base["train"][0] == "ok", case["key"] + " train", "training fails", got=base["train"])
    mag = magnitudes(P, base)
    for perm in itertools.permutations(range(nx)):
        p = list(perm)
        S = Problem(name, nx, ny, case["s"], nt)
        S.x, S.q, S.lim, S.theta, S.ctrl, S.elem = P.x[:, p], P.q[:, p], P.lim[p], P.theta[p], P.ctrl[p], P.elem[p]
        S.g = [P.g[k] for k in p]
        if P.xl is not None:
            S.xl = P.xl[:, p]
        key = "%s/%s" % (case["key"], "".join(map(str, p)))
        begin(R, key, p != sorted(p))
        want = mapped(base, d=lambda a: a[p], sd=lambda a: a[:, p])
        judge(R, key, S.answers(), want, tol(name), mag)


def run_outputs(case, R):
    name, nx = case["name"], case["nx"]
    nt = size(name, nx)
    P = Problem(name, nx, 3, case["s"], nt)
    P.y = P.y * np.array([1.0, 40.0, 0.02]) + np.array([0.0, -7.0, 1.0])
    singles = []
    for k in range(3):
        S = Problem(name, nx, 3, case["s"], nt)
        S.y = P.y[:, k : k + 1]
        singles.append(S.answers())
    for m in (1, 2, 3):
        for cols in itertools.permutations(range(3), m):
            c = list(cols)
            S = Problem(name, nx, 3, case["s"], nt)
            S.y = P.y[:, c]
            got = S.answers()
            key = "%s/%s" % (case["key"], "".join(map(str, c)))
            begin(R, key, m > 1)
            R.check(got["train"][0] == "ok", key + " train", "training fails", got=got["train"])
            for j, k in enumerate(c):
                T = Problem(name, nx, 3, case["s"], nt)
                T.y = P.y[:, [k]]
                g = {}
                for a, r in got.items():
                    if a == "v" or a == "s":
                        g[a] = (r[0], r[1][:, j : j + 1]) if r[0] == "ok" else r
                    elif a == "d":
                        g[a] = (r[0], r[1][:, :, j : j + 1]) if r[0] == "ok" else r
                want = {a: r for a, r in singles[k].items() if a in ("v", "s", "d")}
                judge(R, "%s out %d" % (key, k), g, want, tol(name), magnitudes(T, None))


def run_units(case, R):
    name, nx = case["name"], case["nx"]
    nt = size(name, nx)
    ny = case["ny"]
    P = Problem(name, nx, ny, case["s"], nt)
    if name.startswith("RMT"):
        P.options0 = P.options
        # a quadratic problem: only then do minimizers scale
        P.options = lambda: dict(P.options0(), approx_order=2, nonlinear_maxiter=0)
    base = P.answers()
    R.check(base["train"][0] == "ok", case["key"] + " train", "training fails", got=base["train"])
    negative = not (name == "GENN")
    for a, b in itertools.product((1.0, 2.5e-4, 30.0, 1e5) + ((-1.0,) if negative else ()), (0.0, 3.0, -200.0)):
        if b and name in ("RBF", "RMTC", "RMTC-ex", "RMTB-lin"):
            continue  # without a constant, or with coefficients drawn to zero
        S = Problem(name, nx, ny, case["s"], nt)
        if hasattr(P, "options0"):
            S.options0 = S.options
            S.options = lambda: dict(S.options0(), approx_order=2, nonlinear_maxiter=0)
        S.y = a * P.y + b
        S.g = [a * g for g in P.g]
        if P.xl is not None:
            S.yl = a * P.yl + b
        key = "%s/y %g %g" % (case["key"], a, b)
        begin(R, key, (a, b) != (1, 0))
        want = mapped(base, v=lambda v: a * v + b, d=lambda v: a * v, s=lambda v: a * a * v, sd=lambda v: a * a * v)
        mag = {k: abs(a) ** (2 if k[0] == "s" else 1) * v for k, v in magnitudes(P, base).items()}
        t = tol(name) * (1 + 1e-3 * abs(b / a))
        if abs(b / a) > 1e4:
            continue
        judge(R, key, S.answers(), want, t, mag)
    # inputs
    per = name in KRIG or name in ("LS", "QP", "GENN")  # each input has its own unit
    for i, (u, t0) in enumerate(itertools.product((1.0, 0.01, 50.0), (0.0, 4.0, -90.0))):
        c = np.array([u, u if not per else u * 7.0, u if not per else 0.3])[:nx]
        t = np.array([t0, 0.5 * t0, -t0])[:nx] * c
        S = Problem(name, nx, ny, case["s"], nt)
        if hasattr(P, "options0"):
            S.options0 = S.options
            S.options = lambda: dict(S.options0(), approx_order=2, nonlinear_maxiter=0)
        if name.startswith("RMT") and u != 1.0:
            continue  # energies are per unit
        if name == "MFK" and False:
            continue
        S.x, S.q = P.x * c + t, P.q * c + t
        S.lim = P.lim * c[:, None] + t[:, None]
        S.g = [P.g[k] / c[k] for k in range(nx)]
        S.d0 = P.d0 * u
        if P.xl is not None:
            S.xl = P.xl * c + t
        key = "%s/x %g %g" % (case["key"], u, t0)
        if name in ("QP", "LS", "RBF-p1") and abs(t0) > 10:
            continue  # raw monomials
        begin(R, key, (u, t0) != (1, 0))
        want = mapped(base, d=lambda v: v / c[:, None, None], sd=lambda v: v / c)
        mag = magnitudes(S, base)
        judge(R, key, S.answers(), want, 1e-5, mag)


def run_pow2(case, R):
    name, nx = case["name"], case["nx"]
    if name in ("MGP",) and case["opt"] == "Cobyla":
        R.skip("not offered")
        return
    if "noise" in name and case["opt"] == "TNC":
        R.skip("not offered")
        return
    nt = size(name, nx) + 2
    ny = case["ny"]
    P = Problem(name, nx, ny, case["s"], nt)
    more = {} if name == "MGP" else dict(hyper_opt=case["opt"])
    base = P.answers(False, **more)
    R.check(base["train"][0] == "ok", case["key"] + " train", "training fails", got=base["train"])
    for ey, ex in itertools.product((0, -40, -3, 5, 60), ((0, 0), (-30, 0), (4, -7), (0, 25), (0, 42), (-45, 3))):
        S = Problem(name, nx, ny, case["s"], nt)
        a = 2.0 ** ey if ny == 1 else np.array([2.0 ** ey, 1.0, 2.0 ** (2 - ey)])  # each output has its own unit
        c = 2.0 ** np.array(ex, float)[:nx]
        S.y = P.y * a
        S.x, S.q, S.lim = P.x * c, P.q * c, P.lim * c[:, None]
        S.g = [a * P.g[k] / c[k] for k in range(nx)]
        if P.xl is not None:
            S.yl = P.yl * a
            S.xl = P.xl * c
        key = "%s/%d/%s" % (case["key"], ey, ex)
        begin(R, key, ey != 0 or ex != (0, 0))
        want = mapped(base, v=lambda v: a * v, d=lambda v: a * v / c[:, None, None], s=lambda v: a * a * v, sd=lambda v: a * a * v / c)
        judge(R, key, S.answers(False, **more), want, 1e-5)


def run(case, R):
    globals()["run_" + case["kind"]](case, R)

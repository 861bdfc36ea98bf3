"""EGO under a controlled environment: cheap deterministic surrogate, fixed designs, and an internal optimizer whose
answers are enumerated (depth first over the tree of choices)."""
import warnings
import numpy as np
from scipy.optimize import OptimizeResult
from vlib import seams
from vlib.smtlib import halton, KRG
from smt.sampling_methods import LHS
from smt.applications import EGO
from smt.applications.ego import Evaluator
from smt.applications.mixed_integer import FLOAT, INT, ENUM

SPACES = {
    "x1": (None, [[-1.0, 3.0]]),
    "x2": (None, [[-1.0, 3.0], [10.0, 12.0]]),
    "f2": ([FLOAT, INT], [[-1.0, 3.0], [0, 4]]),
    "i1": ([INT], [[-2, 5]]),
    "fe": ([FLOAT, (ENUM, 3)], [[-1.0, 3.0], ["r", "g", "b"]]),
    "ei": ([(ENUM, 2), INT], [["u", "v"], [1, 4]]),
}
# optimizer's answers, as relaxed positions in the unit box of the unfolded space
POS = {"a": 0.30, "b": 0.85, "lo": 0.0, "hi": 1.0}


def unfolded(space):
    xt, xl = SPACES[space]
    if xt is None:
        return np.array(xl, float)
    out = []
    for t, l in zip(xt, xl):
        out += [[0.0, 1.0]] * t[1] if isinstance(t, tuple) else [[float(l[0]), float(l[1])]]
    return np.array(out)


def xlimits(space):
    xt, xl = SPACES[space]
    if xt is None:
        return np.array(xl)
    return np.array(xl, dtype=object) if any(isinstance(t, tuple) for t in xt) and any(len(l) != len(xl[0]) for l in xl) else np.array(xl)


def cast(space, u):
    """closest feasible point of a relaxed one, folded"""
    xt, xl = SPACES[space]
    u = np.atleast_2d(u)
    if xt is None:
        return u
    cols, j = [], 0
    for t in xt:
        if isinstance(t, tuple):
            cols.append(np.argmax(u[:, j : j + t[1]], 1).astype(float))
            j += t[1]
        else:
            cols.append(u[:, j] if t == FLOAT else np.round(u[:, j]))
            j += 1
    return np.array(cols).T


def fold(space, u):
    return cast(space, u)


def unfold(space, x):
    xt, xl = SPACES[space]
    x = np.atleast_2d(x)
    if xt is None:
        return x
    cols = []
    for j, t in enumerate(xt):
        if isinstance(t, tuple):
            cols += [(x[:, j] == k).astype(float) for k in range(t[1])]
        else:
            cols.append(x[:, j].astype(float))
    return np.array(cols).T


class Stub(KRG):
    """mean: value of the nearest known point plus a slope; sigma: distance to the nearest known point"""

    def _train(self):
        X, Y = self.training_points[None][0]
        self.log.append((np.array(X), np.array(Y)))
        self.X, self.Y = np.array(X, float), np.array(Y, float)

    def _predict_values(self, x):
        return smean(self.X, self.Y, x)

    def _predict_variances(self, x):
        return ssig(self.X, x) ** 2


def smean(X, Y, x):
    d = np.linalg.norm(x[:, None] - X[None], axis=2)
    i = d.argmin(1)
    return Y[i].reshape(-1, 1) + 0.05 * (d[np.arange(len(x)), i] * (1 + x.sum(1) % 0.7)).reshape(-1, 1)


def ssig(X, x):
    return 0.5 * np.linalg.norm(x[:, None] - X[None], axis=2).min(1).reshape(-1, 1)


OBJ = {
    "quad": lambda x: ((x - 0.7) ** 2).sum(1).reshape(-1, 1),
    "dec": lambda x: -x.sum(1).reshape(-1, 1) - 3.0,
    "const": lambda x: np.ones((len(x), 1)),
    "wave": lambda x: 40.0 + 1e3 * np.sin(5.0 * x).sum(1).reshape(-1, 1),
}
KINDS = ("a", "b", "lo", "hi", "x0", "fail", "failgood", "raise")


class Run:
    """one execution of optimize() under the schedule `choices` (list of indices into `kinds`; 0 beyond its end)"""

    def __init__(self, space, obj, kinds, choices, doe="n_doe", evaluator=None, again=0, capture=False, **opts):
        self.space, self.kinds, self.taken, self.choices = space, kinds, [], list(choices)
        self.calls, self.outs, self.starts = [], [], []
        self.capture = capture
        f = OBJ[obj]
        self.f = f

        def fun(x):
            self.calls.append(np.array(x, float))
            return f(np.asarray(x, float))

        xt, xl = SPACES[space]
        U = unfolded(space)
        self.U = U
        o = dict(n_iter=1, n_parallel=1, n_start=1, n_max_optim=1, xlimits=xlimits(space), random_state=3)
        o.update(opts)
        if xt is not None:
            o["xtypes"] = list(xt)
        self.doe_x = None
        if doe == "n_doe":
            o["n_doe"] = 3
        else:
            h = fold(space, U[:, 0] + (U[:, 1] - U[:, 0]) * halton(3, len(U)))
            if len(np.unique(h, axis=0)) < 3:
                h = fold(space, U[:, 0] + (U[:, 1] - U[:, 0]) * np.array([[0.1] * len(U), [0.5] * len(U), [0.95] * len(U)]))
            self.doe_x = h
            o["xdoe"] = h.copy()
            if doe == "xydoe":
                o["ydoe"] = f(h)
        self.stub = Stub(print_global=False)
        self.stub.log = []
        o["surrogate"] = self.stub
        if evaluator:
            o["evaluator"] = evaluator
        self.o = o
        self.ego = EGO(**o)
        old = LHS.__call__

        def design(s, nt):
            L = np.array(s.options["xlimits"], float)
            return L[:, 0] + (L[:, 1] - L[:, 0]) * halton(nt, len(L), 5)

        LHS.__call__ = design
        try:
            with seams.minimize_hook(self.answer), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                for _ in range(again + 1):
                    self.calls, self.outs, self.starts, self.taken = [], [], [], []
                    self.stub.log = []
                    self.res = self.ego.optimize(fun)
        finally:
            LHS.__call__ = old

    def answer(self, real, fun, x0, *a, **k):
        if k.get("method") != "SLSQP":
            return real(fun, x0, *a, **k)
        i = len(self.taken)
        c = self.choices[i] if i < len(self.choices) else 0
        self.taken.append(c)
        kind = self.kinds[c]
        x0 = np.array(x0, float).ravel()
        U = self.U
        if self.capture:
            self.capture(self, fun, x0, k)
        if kind in POS:
            # positions differ from call to call, so that a mix-up between calls shows
            p = POS[kind]
            s = 0.02 * (i % 7) if 0 < p < 1 else 0.0
            t = (p + s + 0.13 * np.arange(len(U)) * (0 < p < 1)) % 1.0 if 0 < p < 1 else np.full(len(U), p)
            x = U[:, 0] + (U[:, 1] - U[:, 0]) * t
        else:
            x = x0
        rec = dict(kind=kind, x=x.copy(), ntrain=len(self.stub.log))
        self.outs.append(rec)
        if kind == "raise":
            rec["ok"] = False
            raise ValueError("x0 violates bound constraints")
        v = fun(x)
        if isinstance(v, np.ndarray):
            v = float(v)
        rec["fun"] = v if kind != "failgood" else v - 1e6
        rec["ok"] = kind not in ("fail", "failgood")
        return OptimizeResult(x=x.copy(), fun=rec["fun"], success=rec["ok"], status=0 if rec["ok"] else 8 + i % 2, nit=1, nfev=1, message="scripted")


def explore(body, nkinds, limit=10 ** 7):
    """depth-first enumeration of all choice sequences; body(prefix) -> length actually consumed (a Run)"""
    prefix, n = [], 0
    while True:
        r = body(list(prefix))
        n += 1
        if n >= limit:
            return n
        t = list(r)
        while t and t[-1] == nkinds - 1:
            t.pop()
        if not t:
            return n
        t[-1] += 1
        prefix = t

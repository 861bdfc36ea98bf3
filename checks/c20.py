"""C20: mixed-integer sampling and surrogates against their continuous counterparts on the cast points."""
import itertools
import numpy as np
from vlib.smtlib import *
from checks import c19
from smt.sampling_methods import LHS, Random, FullFactorial
from smt.sampling_methods.sampling_method import ScaledSamplingMethod
from smt.applications.mixed_integer import MixedIntegerContext, MixedIntegerSamplingMethod, MixedIntegerSurrogateModel

ID = "C20"
LEVEL = "model_checking"
RULE = ("(sampling) every list of variable types x sampling class (LHS criteria, Random, FullFactorial, a user-defined class that returns every lattice point including ties and bounds) x number of points x output form: exactly the requested number of points, of the documented width, feasible, and equal to the cast (and folded) points of the continuous method with the same random stream; "
        "(surrogate) every list of types x surrogate x input form x history (train, train twice, retrain on other data, updated values) x training data given feasible or relaxed: values and variances at every lattice point equal those of the plain surrogate trained on the cast data, asked at the cast point. States: sampled points, query points; non-trivial: infeasible queries and samples that moved")
BOUNDS = {"quick": "sampling: 399 lists (<=3 variables, 7 kinds), 1..4 points; surrogates: 10 models x 55 lists (<=3 variables of 5 kinds, a fifth of those of 3) x 2 forms x 5 histories, up to 80 query points", "thorough": "sampling up to 20 points; all lists of <=3 variables of 7 kinds, up to 1500 query points"}
ASSUMPTIONS = ["histories end in a training; configurations for which the plain surrogate raises (too few points) are required to raise in the same way"]
TIMEOUT = 700


class Lattice(ScaledSamplingMethod):
    """user-defined sampling: consecutive lattice points of the unit box"""

    start = 0
    grid = (0.0, 0.25, 0.5, 0.75, 1.0)

    def _initialize(self):
        pass

    def _compute(self, nt):
        nx = len(self.options["xlimits"])
        out = np.zeros((nt, nx))
        for i in range(nt):
            n = (self.start + i) * 7 if nx > 3 else self.start + i
            for k in range(nx):
                out[i, k] = self.grid[n % 5]
                n //= 5
        return out


MODELS = {
    "LS": (LS, lambda d: {}, 3), "QP": (QP, lambda d: {}, 2), "IDW": (IDW, lambda d: {}, 4), "RBF": (RBF, lambda d: dict(d0=0.9), 4),
    "KRG": (KRG, lambda d: dict(theta0=[0.1]), 4), "KRG-m": (KRG, lambda d: dict(theta0=[0.1], corr="matern52", poly="linear"), 3), "KPLS": (KPLS, lambda d: dict(n_comp=1), 3), "KPLSK": (KPLSK, lambda d: dict(n_comp=1), 3),
    "RMTB": (RMTB, None, 1), "RMTC": (RMTC, None, 1), "MGP": (MGP, lambda d: dict(n_comp=1), 2),
}


def cases(tier):
    th = tier == "thorough"
    out = []
    lists = ["".join(t) for n in (1, 2, 3) for t in itertools.product("FIJ1234", repeat=n)]
    for t in lists:
        out.append(dict(kind="sampling", t=t, top=20 if th else 4, th=th, key="C20/sampling/" + t))
    sl = [t for t in lists if th or (set(t) <= set("FI23J") and (len(t) < 3 or sum((i + 1) * ord(c) for i, c in enumerate(t)) % 5 == 0))]
    for t in sl:
        for m in MODELS:
            if m in ("RMTB", "RMTC") and sum(c19.WIDTH[k] for k in t) > (3 if th else 2) or m == "MGP" and (len(t) != 2 or not th and t not in ("F3", "I2", "2F", "FF")):
                continue
            out.append(dict(kind="surrogate", t=t, m=m, cap=1500 if th else 80, key="C20/surrogate/%s/%s" % (m, t)))
    return out


def run(case, R):
    globals()["run_" + case["kind"]](case, R)


def spec(t):
    return [c19.KINDS[k][0] for k in t], [list(c19.KINDS[k][1]) for k in t]


def feasible(t, U):
    j, ok = 0, np.ones(len(U), bool)
    for k in t:
        w = c19.WIDTH[k]
        c = U[:, j : j + w]
        if k in "FIJ":
            lo, hi = c19.KINDS[k][1]
            ok &= (c[:, 0] >= lo) & (c[:, 0] <= hi)
            if k != "F":
                ok &= c[:, 0] == np.round(c[:, 0])
        else:
            ok &= ((c == 1).sum(1) == 1) & ((c == 0).sum(1) == w - 1)
        j += w
    return ok


def refcast(t, X):
    out, j = np.array(X, float), 0
    for k in t:
        w = c19.WIDTH[k]
        c = out[:, j : j + w]
        if k in "IJ":
            c[:] = np.round(c)
        elif k != "F":
            i = np.argmax(c, axis=1)
            c[:] = 0
            c[np.arange(len(c)), i] = 1
        j += w
    return out


def reffold(t, U):
    out, j = [], 0
    for k in t:
        w = c19.WIDTH[k]
        out.append(U[:, j] if k in "FIJ" else np.argmax(U[:, j : j + w], axis=1))
        j += w
    return np.array(out, float).T


def run_sampling(case, R):
    t, key = case["t"], case["key"]
    xt, xl = spec(t)
    dim = sum(c19.WIDTH[k] for k in t)
    limits = np.array(sum(([[float(v) for v in c19.KINDS[k][1]]] if k in "FIJ" else [[0.0, 1.0]] * c19.WIDTH[k] for k in t), []))
    combos = [(LHS, dict(criterion=c, random_state=s)) for c in ("c", "m", "corr", "cm") for s in ((3, 4) if case["th"] else (3,))] + [(Random, {}), (FullFactorial, {}), (FullFactorial, dict(clip=True)), (FullFactorial, dict(weights=[1.0 + i for i in range(dim)])), (Lattice, {})]
    if dim <= 2:
        combos.append((LHS, dict(criterion="ese", random_state=1)))
    for cls, o in combos:
        for nt in range(1, case["top"] + 1):
            for start in (range(0, 5 ** min(dim, 4), nt) if cls is Lattice and nt in (1, case["top"]) else (0,)):
                if not case["th"] and (nt == 1 and start > 60 or start > 250):
                    break
                Lattice.start = start
                np.random.seed(nt)
                try:
                    raw = cls(xlimits=limits.copy(), **o)(nt)
                except Exception as e:
                    raw = e
                for form in ("default", "folded", "unfolded", "ctx", "ctxu"):
                    kk = "%s/%s%s/%s/n%d%s" % (key, cls.__name__, "".join("-%s" % v for v in o.values() if not isinstance(v, list)), form, nt, "/s%d" % start if start else "")
                    np.random.seed(nt)
                    try:
                        if form.startswith("ctx"):
                            s = MixedIntegerContext(xt, xl, work_in_folded_space=form == "ctx").build_sampling_method(cls, **o)
                        else:
                            s = MixedIntegerSamplingMethod(xt, xl, cls, **dict(o, **({} if form == "default" else {"output_in_folded_space": form == "folded"})))
                        got = s(nt)
                    except Exception as e:
                        got = e
                    R.ev(), R.tr(), R.trace()
                    if isinstance(raw, Exception) or isinstance(got, Exception):
                        R.check(type(raw) is type(got), kk + "/raises", "continuous method: %r, mixed-integer: %r" % (raw, got))
                        continue
                    fold = form not in ("unfolded", "ctxu")
                    n = nt if not o.get("clip") else len(raw)
                    if not R.check(np.shape(got) == (n, len(t) if fold else dim), kk + "/shape", "shape %s" % (np.shape(got),)):
                        continue
                    U = c19.ref_unfold(t, got) if fold else got
                    R.check(bool(np.all(feasible(t, U))), kk + "/feasible", "infeasible point %s" % (got[~feasible(t, U)][:1].tolist(),))
                    want = refcast(t, raw)
                    R.check(np.array_equal(U, want), kk + "/value", "the points are not the cast points of the continuous design: %s" % (got.tolist(),))
                    for p, q in zip(raw, want):
                        R.state(t, tuple(p))
                        if not np.array_equal(p, q):
                            R.nt(t, tuple(p))
    # the same object may be called again
    np.random.seed(0)
    s = MixedIntegerContext(xt, xl).build_sampling_method(LHS, criterion="c", random_state=5)
    a, b, c = s(3), s(5), s(3)
    R.check(np.array_equal(a, c) and b.shape == (5, len(t)), key + "/again", "calls on one sampling object depend on each other")


def mifun(U, s=0.0):
    w = np.array([0.9, 0.7, 1.3, 0.5, 1.1, 0.8, 0.6, 1.2, 0.4, 1.0, 0.95, 0.75])[: U.shape[1]]
    return np.sin((U * w).sum(1) + s)[:, None] + 0.3 * U[:, :1]


def predictions(sm, X):
    out = {}
    for n in ("values", "variances"):
        try:
            out[n] = ("ok", getattr(sm, "predict_" + n)(X.copy()))
        except Exception as e:
            out[n] = ("exc", type(e).__name__)
    return out


def run_surrogate(case, R):
    t, m, key = case["t"], case["m"], case["key"]
    xt, xl = spec(t)
    dim = sum(c19.WIDTH[k] for k in t)
    cls, opt, _ = MODELS[m]
    limits = np.array(sum(([[float(v) for v in c19.KINDS[k][1]]] if k in "FIJ" else [[0.0, 1.0]] * c19.WIDTH[k] for k in t), []))
    if m == "RMTB":
        opt = lambda d: dict(xlimits=limits, num_ctrl_pts=5, order=4)
    elif m == "RMTC":
        opt = lambda d: dict(xlimits=limits, num_elements=2)
    new = lambda: cls(print_global=False, **opt(dim))
    F = c19.folded(t, 4000)
    if len(F) > 30:
        F = F[:: len(F) // 30 + 1]
    U = c19.ref_unfold(t, F)
    # relaxed points that are cast to U
    V, j = U.copy(), 0
    for k in t:
        w = c19.WIDTH[k]
        if k in "IJ":
            lo, hi = c19.KINDS[k][1]
            V[:, j] = np.clip(U[:, j] + 0.3 * np.where(np.arange(len(U)) % 2, 1, -1), lo, hi)
        elif k != "F":
            V[:, j : j + w] = 0.2 + 0.5 * U[:, j : j + w] + 0.05 * np.arange(w)
        j += w
    X = c19.lattice(t, case["cap"])[: case["cap"]]
    C = refcast(t, X)
    FX = np.unique(np.vstack([c19.folded(t, case["cap"])] + [reffold(t, C)]), axis=0)
    FX = np.vstack([FX, FX])
    for i, k in enumerate(t):
        if k in "IJ":
            lo, hi = c19.KINDS[k][1]
            FX[len(FX) // 2 :, i] = np.clip(FX[len(FX) // 2 :, i] + 0.4, lo, hi)
    half = np.arange(len(U)) % 2 == 0 if len(U) > 8 else np.ones(len(U), bool)
    hist = {"once": [("A", 0)], "twice": [("A", 0), ("again", 0)], "other": [("B", 1), ("A", 0)], "update": [("A", 1), ("update", 0)], "relaxed": [("R", 0)], "swap": [("R", 1), ("B", 0)]}
    for form in ("folded", "unfolded"):
        for h, steps in hist.items():
            if "R" in (a for a, _ in steps) and form == "folded":
                Ft = F.copy()
                for i, k in enumerate(t):
                    if k in "IJ":
                        lo, hi = c19.KINDS[k][1]
                        Ft[:, i] = np.clip(F[:, i] + 0.3, lo, hi)
            data = {"A": (F, U, U), "B": (F[half], U[half], U[half]), "R": (Ft if "R" in (a for a, _ in steps) and form == "folded" else F, V, U)}
            kk = "%s/%s/%s" % (key, form, h)
            inner = new()
            mi = MixedIntegerContext(xt, xl, work_in_folded_space=form == "folded").build_surrogate_model(inner) if len(t) % 2 else MixedIntegerSurrogateModel(xt, xl, inner, input_in_folded_space=form == "folded")
            ref = new()
            err = [None, None]
            for a, s in steps:
                for w, sm in enumerate((mi, ref)):
                    try:
                        if a in data:
                            f, u, c = data[a]
                            x = c if w else f if form == "folded" else u
                            x0 = x.copy()
                            sm.set_training_values(x, mifun(c, s))
                            R.check(np.array_equal(x, x0), kk + "/argument", "training inputs modified")
                            cur = c
                        elif a == "update":
                            sm.update_training_values(mifun(cur, s))
                        sm.train()
                    except Exception as e:
                        err[w] = type(e).__name__
                R.tr()
            R.trace()
            if err[0] or err[1]:
                R.check(err[0] == err[1], kk + "/raises", "mixed-integer: %s, plain: %s" % (err[0], err[1]))
                continue
            for nm, Q, T in (("lattice", X, C),) if form == "unfolded" else (("folded", FX, refcast(t, c19.ref_unfold(t, FX))),):
                q0 = Q.copy()
                got, want = predictions(mi, Q), predictions(ref, T)
                R.ev(len(Q))
                R.check(np.array_equal(Q, q0), kk + "/query", "query modified")
                for n in got:
                    ok = same(got[n], want[n], 1e-12, 1e-13)
                    R.check(ok, "%s/%s" % (kk, n), "differs from the plain surrogate at the cast points: %s" % (maxdiff(got[n][1], want[n][1]) if got[n][0] == want[n][0] == "ok" else "%s / %s" % (got[n], want[n]),))
                for p, c in zip(Q, T):
                    R.state(m, t, form, h, tuple(p))
                    if len(p) != len(c) or not np.array_equal(p, c):
                        R.nt(m, t, form, h, tuple(p))
                one, alone = predictions(mi, Q[-1:])["values"], predictions(ref, T[-1:])["values"]
                R.check(same(one, alone, 1e-12, 1e-13), kk + "/single", "a single query differs from the plain surrogate")

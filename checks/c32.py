"""C32: training and prediction interrupted at every library call they make."""
import contextlib, copy, io, os, sys
import numpy as np
from vlib.smtlib import *
from vlib import apps, boot
import smt

ID = "C32"
LEVEL = "model_checking"
RULE = ("every configuration x history (first training; new data after a training; training again; prediction) x every call that SMT itself makes to numpy, scipy, scikit-learn, its compiled extensions or the optimizer (distinct chain of source lines; its first and its last occurrence, every occurrence in the thorough tier) x kind of failure: the call raises instead of running. "
        "Afterwards the options, the training data and the printer are what they were, the model refuses to predict or predicts as before or as newly trained (never a mixture), and trains again to exactly the model that a fresh object gives. States: (configuration, history, place of failure); non-trivial: failures after the training had started to change the model")
BOUNDS = {"quick": "one data set per history, 2 inputs, KeyboardInterrupt at all places and MemoryError at the first occurrences", "thorough": "1 and 2 inputs, 1 and 2 outputs, every occurrence (at most 400 per history) x KeyboardInterrupt, MemoryError, LinAlgError, ValueError"}
ASSUMPTIONS = ["a failure arrives in a library call, not between two bytecodes", "the optimizer of the hyperparameters returns its starting point"]
TIMEOUT = 3600
REPO = os.path.dirname(os.path.abspath(smt.__file__)) + os.sep
LIBS = ("numpy", "scipy", "sklearn")

MOES = {"MOE-hard": dict(smooth_recombination=False), "MOE-smooth": dict(smooth_recombination=True), "MOE-heaviside": dict(smooth_recombination=True, heaviside_optimization=True), "MOE-var": dict(variances_support=True, allow=["KRG"])}
VFMS = {"VFM-add": dict(typ="Additive"), "VFM-mul": dict(typ="Multiplicative"), "VFM-krg": dict(typ="Additive", lf="KRG", br="KRG")}
MIS = {"MI-KRG": ("KRG", True), "MI-unfolded": ("KRG", False), "MI-IDW": ("IDW", True)}


def cases(tier):
    out = []
    th = tier == "thorough"
    names = list(ALL) + list(MOES) + list(VFMS) + list(MIS)
    for n in names:
        for nx, ny in ((2, 1),) if not th else ((2, 1), (1, 1), (2, 2)):
            if (n in MOES or n in VFMS or n in MIS) and (nx, ny) != (2, 1):
                continue
            if ny > 1 and not ALL[n][3]:
                continue
            if nx == 1 and n in ("MGP", "MFKPLSK", "MFK2-PLSK"):
                continue
            for h in ("first", "new", "again", "predict"):
                if n in VFMS and h in ("new", "again"):
                    continue
                out.append(dict(name=n, nx=nx, ny=ny, h=h, tier=tier, key="C32/%s/nx%d/ny%d/%s" % (n, nx, ny, h)))
    return out


# ------------------------------------------------------------------ places of failure
class Boom(Exception):
    pass


class Places:
    """counts the library calls that SMT makes and lets one of them fail"""

    TOOL = 4

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.chains, self.hit = at, exc, 0, [], None
        self.on = False

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "smtverif")
        m.register_callback(self.TOOL, m.events.CALL, self.call)
        m.set_events(self.TOOL, m.events.CALL)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.CALL, None)
        m.free_tool_id(self.TOOL)
        return False

    def call(self, code, off, f, arg0):
        if not code.co_filename.startswith(REPO):
            return sys.monitoring.DISABLE
        if not library(f):
            return
        i, self.n = self.n, self.n + 1
        if self.at is None:
            c, fr = [], sys._getframe(1)
            while fr is not None:
                if fr.f_code.co_filename.startswith(REPO):
                    c.append((fr.f_code.co_filename[len(REPO):], fr.f_lineno))
                fr = fr.f_back
            self.chains.append((getattr(f, "__name__", type(f).__name__), tuple(c)))
        elif i == self.at:
            self.hit = getattr(f, "__name__", type(f).__name__)
            raise self.exc("injected")


def library(f):
    if isinstance(f, (np.ufunc,)):
        return True
    s = getattr(f, "__self__", None)
    mod = getattr(f, "__module__", None) or type(s).__module__ or ""
    if isinstance(s, (np.ndarray, np.generic)):
        mod = "numpy"
    if s is not None and type(s).__module__.split(".")[0] in LIBS:
        mod = type(s).__module__
    if not isinstance(mod, str):
        return False
    if mod.split(".")[0] in LIBS or mod == "vlib.seams":
        return True
    # compiled extensions of SMT
    return "lib" in mod and mod.startswith("smt.")


# ------------------------------------------------------------------ objects
def moe_data(s):
    x, y = apps.moe_data(2, 24)
    return x, y + s * x[:, 1:] * 2


def build(case):
    n = case["name"]
    if n in MOES:
        o = dict(allow=["LS", "QP", "RBF"])
        o.update(MOES[n])
        return apps.MOE(**o)
    if n in VFMS:
        k = VFMS[n]
        return apps.VFM(type_bridge=k["typ"], name_model_LF=k.get("lf", "LS"), name_model_bridge=k.get("br", "RBF"), X_LF=halton(14, 2, 3), y_LF=apps.lo(halton(14, 2, 3)) + 2.0, X_HF=halton(9, 2, 1), y_HF=fun(halton(9, 2, 1)) + 2.0,
                        options_LF=QUIET, options_bridge=QUIET)
    if n in MIS:
        m, folded = MIS[n]
        return apps.MixedIntegerContext(apps.XT, apps.XL, work_in_folded_space=folded).build_surrogate_model(make(m, 5))
    return make(n, case["nx"])


def give(case, sm, s):
    n = case["name"]
    if n in VFMS:
        return
    if n in MOES:
        sm.set_training_values(*moe_data(s))
    elif n in MIS:
        xf = apps.mi_grid()
        y = apps.mi_fun(xf) + s * xf[:, 1:2]
        if not MIS[n][1]:
            xf = apps.MixedIntegerContext(apps.XT, apps.XL).unfold_with_enum_mask(xf)
        sm.set_training_values(xf, y)
    else:
        nt = 12 if "m32" in n or "het" in n else 9
        x, y = dataset(nt - (2 if n in ("KRG-het", "MFK2-het") else 0), case["nx"], case["ny"], 1 + int(4 * s), s)
        if n in ("KRG-het", "MFK2-het"):
            x, y = np.vstack([x, x[:2]]), np.vstack([y, y[:2] + 0.05])
        feed(n, sm, x, y, s)


def train(case, sm):
    np.random.seed(7)
    with contextlib.redirect_stdout(io.StringIO()), seams.minimize_hook(seams.frozen):
        sm._apply() if case["name"] in VFMS else sm.train()


def queries(case):
    n = case["name"]
    if n in MIS:
        x = apps.mi_grid()[:4]
        return x if MIS[n][1] else apps.MixedIntegerContext(apps.XT, apps.XL).unfold_with_enum_mask(x)
    return halton(4, case["nx"], 40)


def ask(case, sm):
    n = case["name"]
    xq = queries(case)
    np.random.seed(7)
    with contextlib.redirect_stdout(io.StringIO()), seams.minimize_hook(seams.frozen):
        if n in MOES:
            return answers(sm, xq, ("v", "s") if n == "MOE-var" else ("v",))
        if n in VFMS:
            return answers(sm, xq, ("v", "d"))
        if n in MIS:
            return answers(sm, xq, ("v", "s"))
        return answers(sm, xq)


def inner(sm):
    """the objects that hold state the user sees"""
    out = [sm]
    for a in ("_surrogate",):
        if hasattr(sm, a):
            out.append(getattr(sm, a))
    return out


def frozen_state(sm):
    """options, training data and printer as the user sees them"""
    out = []
    for o in inner(sm):
        d = {}
        if hasattr(o, "options"):
            d["options"] = copy.deepcopy({k: v for k, v in o.options._dict.items()})
        if hasattr(o, "training_points"):
            d["data"] = copy.deepcopy({n: dict(v) for n, v in o.training_points.items()})
        for a in ("xt", "yt"):
            if isinstance(o, apps.MOE):
                d[a] = copy.deepcopy(getattr(o, a))
        if hasattr(o, "printer"):
            d["depth"] = o.printer.depth
        out.append(d)
    return out


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(i, j) for i, j in zip(a, b))
    if type(a).__eq__ is object.__eq__:
        return type(a) is type(b)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return True


def changed(a, b):
    for i, (u, v) in enumerate(zip(a, b)):
        for k in u:
            if not eq(u[k], v.get(k)):
                sub = [n for n in u[k] if not eq(u[k][n], v[k].get(n))] if isinstance(u[k], dict) and isinstance(v.get(k), dict) else ""
                return "%s %s" % (k, sub)
    return ""


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def actions(case, sm):
    """the operations whose library calls fail"""
    if case["h"] != "predict":
        return {"train": lambda: train(case, sm)}
    xq = queries(case)
    out = {"values": lambda: quiet(sm.predict_values, xq.copy())}
    n = case["name"]
    if n in VFMS or n in ALL and sm.supports.get("derivatives"):
        for k in range(xq.shape[1]):
            out["d%d" % k] = lambda k=k: quiet(sm.predict_derivatives, xq.copy(), k)
    if n == "MOE-var" or n not in MOES and n not in VFMS and sm.supports.get("variances"):
        out["var"] = lambda: quiet(sm.predict_variances, xq.copy())
    if n in ALL and sm.supports.get("variance_derivatives"):
        out["dvar"] = lambda: quiet(sm.predict_variance_derivatives, xq[:1].copy())
    if n in ALL and sm.supports.get("output_derivatives"):
        out["dydt"] = lambda: quiet(sm.predict_output_derivatives, xq.copy())
    return out


def prepare(case):
    sm = build(case)
    h = case["h"]
    if h == "new":
        give(case, sm, 0.0)
        train(case, sm)
        give(case, sm, 0.5)
    elif h == "again":
        give(case, sm, 0.5)
        train(case, sm)
    elif h == "first":
        give(case, sm, 0.5)
    else:
        give(case, sm, 0.5)
        train(case, sm)
    return sm


def run(case, R):
    th = case["tier"] == "thorough"
    h = case["h"]
    # what a fresh object answers: before the operation and after it
    old = None
    if h == "new":
        o = build(case)
        give(case, o, 0.0)
        train(case, o)
        old = ask(case, o)
    f = build(case)
    give(case, f, 0.5)
    train(case, f)
    new = ask(case, f)
    if h == "again":
        old = new
    heavy = case["name"] in MOES or case["name"].startswith("RMT")
    for op in actions(case, prepare(case)):
        if new.get("dvar0" if op == "dvar" else op, ("ok",))[0] == "exc":
            continue
        sm = prepare(case)
        with Places() as P:
            actions(case, sm)[op]()
        total = P.n
        R.check(total > 0 or op != "train", case["key"] + "/calls", "training makes no library call")
        first, last = {}, {}
        for i, c in enumerate(P.chains):
            if heavy and not th:
                c = c[0], c[1][:3]
            first.setdefault(c, i)
            last[c] = i
        where = sorted(set(first.values()) | (set(last.values()) if th or not heavy else set()))
        if th:
            where = range(total) if total <= 400 else where
        R.count("places", total)
        for exc in ((KeyboardInterrupt, MemoryError) if h in ("first", "predict") else (KeyboardInterrupt,)) if not th else (KeyboardInterrupt, MemoryError, np.linalg.LinAlgError, ValueError):
            for i in where if exc is KeyboardInterrupt or th else sorted(first.values()):
                fault(case, op, i, P.chains[i], exc, old, new, R)


def fault(case, op, i, chain, exc, old, new, R):
    sm = prepare(case)
    key = "%s/%s/%s/%s" % (case["key"], op, exc.__name__, i)
    what = "%s failing in %s (%s)" % (exc.__name__, chain[0], " < ".join("%s:%d" % c for c in chain[1][:3]))
    before = frozen_state(sm)
    act = actions(case, sm)[op]
    got = None
    with Places(i, exc) as P:
        try:
            act()
        except BaseException as e:
            got = e
    R.ev(), R.tr(3), R.state(key), R.trace()
    if P.hit is None:
        R.skip("the sequence of calls is not repeatable")
        return
    if got is not None and i > 0:
        R.nt(key)
    if exc is KeyboardInterrupt and not R.check(isinstance(got, KeyboardInterrupt), key + "/escape", "%s: the interrupt is swallowed (%r)" % (what, got)):
        return
    after = frozen_state(sm)
    c = changed(before, after)
    R.check(not c, key + "/state", "%s changes %s" % (what, c))
    if got is not None:
        a = ask(case, sm)
        if case["h"] == "predict":
            R.check(not diff(new, a), key + "/later", "%s: later predictions differ: %s" % (what, diff(new, a)))
        else:
            ref = [k for k in a if a[k][0] == "exc"]
            ok = all(a[k][0] == "exc" for k in a if new[k][0] == "ok") or (old is not None and not diff(old, a)) or not diff(new, a)
            R.check(ok, key + "/mixture", "%s: the model neither refuses to predict nor predicts as before or as newly trained; refused: %s" % (what, ref))
    # training again
    r = attempt(train, case, sm)
    if R.check(r[0] == "ok", key + "/retrain", "%s: training again raises %s" % (what, r[1])):
        d = diff(new, ask(case, sm), 1e-9, 1e-12)
        R.check(not d, key + "/fresh", "%s: after training again %s differ from those of a fresh model" % (what, d))
    c = changed(before, frozen_state(sm))
    R.check(not c, key + "/state2", "%s and training again change %s" % (what, c))

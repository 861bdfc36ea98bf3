"""C16: support flags and input validation of every surrogate model, as a protocol explored state by state."""
import contextlib, io, itertools
import numpy as np
from vlib.smtlib import *
from vlib import apps
from smt.applications.moe import MOESurrogateModel
from smt.applications.mixed_integer import MixedIntegerContext, MixedIntegerSurrogateModel, FLOAT, INT, ENUM
from smt.utils.misc import compute_rms_error
from smt import problems as PR

ID = "C16"
LEVEL = "model_checking"
RULE = ("(flags) every model x every support flag x both input forms: a supported operation returns a finite array of the documented shape, an unsupported one raises NotImplementedError; (invalid) every model x protocol state {fresh, values set, trained, values updated after training} x every public method x every element of a pool of malformed arguments: ValueError, and the "
        "complete observable state (training data, sizes, options, predictions) is unchanged; (history) every sequence of two malformed calls inserted between any two steps of set/train/predict leaves all answers bit-identical to the history without them; (helpers) compute_rms_error and benchmark problems. Non-trivial: every (model, state, method)")
BOUNDS = {"quick": "20 model variants, nx 1 and 2, 4 states, 8 methods, ~60 malformed calls, pairs for 6 models (all pairs for LS and RBF, a fixed quarter or eighth of them for KRG, MFK, mixed-integer and RMTB)", "thorough": "pairs for all models"}
ASSUMPTIONS = ["models in their default configuration (kernels and trends for which a model announces that an operation is unavailable are not used)"]
TIMEOUT = 700

PLAIN = ["LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "GENN", "MGP"]
FLAGS = ["derivatives", "output_derivatives", "variances", "variance_derivatives", "training_derivatives"]
HAL = halton(40, 6, 60)
HAL = np.hstack([HAL, 1 - HAL])
STATES = ["fresh", "set", "trained", "updated"]
XT = [FLOAT, INT, (ENUM, 2)]
XL = [[0.0, 1.0], [0, 3], ["a", "b"]]


def subjects():
    out = [(m, nx) for m in PLAIN for nx in (1, 2) if not (nx == 1 and m == "MGP")]
    out += [(m, nx) for m in ("MFK", "MFKPLS", "MFKPLSK") for nx in (1, 2)]
    out += [("MOESM", 2), ("MI-folded-KRG", 3), ("MI-unfolded-KRG", 4), ("MI-folded-RBF", 3), ("MI-unfolded-IDW", 4)]
    return out


class Subject:
    """Uniform driver for one model variant."""

    def __init__(self, name, nx):
        self.name, self.nx = name, nx
        nt = 9
        if name in CONFIGS or name == "MGP":
            self.x = halton(nt, nx, 1)
        if name == "GEKPLS":
            self.sm = GEKPLS(theta0=[0.1] * 1, n_comp=1, xlimits=unit(nx), delta_x=0.01, extra_points=1, print_global=False)
        elif name == "MGP":
            self.sm = MGP(theta0=[0.1], n_comp=1, print_global=False)
        elif name in PLAIN:
            self.sm = make(name, nx, **(dict(num_ctrl_pts=5, order=3) if name == "RMTB" else {}))
        elif name.startswith("MFK"):
            o = {} if name == "MFK" else dict(n_comp=1)
            self.sm = {"MFK": MFK, "MFKPLS": apps.MFKPLS if hasattr(apps, "MFKPLS") else MFKPLS, "MFKPLSK": MFKPLSK}[name](theta0=[0.1], print_global=False, **o)
            self.x = halton(8, nx, 1)
        elif name == "MOESM":
            self.sm = MOESurrogateModel(n_clusters=1, allow=["KRG", "RBF", "LS"], variances_support=False)
            self.sm.options["print_global"] = False
            self.x = halton(14, nx, 1)
        else:
            _, form, m = name.split("-")
            self.ctx = MixedIntegerContext(XT, XL, work_in_folded_space=form == "folded")
            self.sm = self.ctx.build_surrogate_model(make(m, 4))
            xf = np.array([[a, b, c] for b, c, a in itertools.product((0, 1, 3), (0, 1), (0.2, 0.7))])
            xf[:, 0] += np.linspace(0, 0.2, len(xf))
            self.x = xf if form == "folded" else self.ctx.unfold_with_enum_mask(xf)
        self.y = fun(self.x[:, : min(2, nx)] if nx > 2 else self.x)
        self.q = self.x[1:5] * 0.9 + 0.03 if not name.startswith("MI") else self.x[1:5]
        self.keep = None

    def set(self):
        if self.name.startswith("MFK"):
            xl = halton(11, self.nx, 5)
            self.sm.set_training_values(xl, apps.lo(xl), name=0)
        self.sm.set_training_values(self.x.copy(), self.y.copy())
        if self.name in ("GEKPLS", "GENN", "RMTB", "RMTC"):
            for k in range(self.nx):
                self.sm.set_training_derivatives(self.x.copy(), dfun(self.x, k), k)

    def train(self):
        np.random.seed(3)
        self.sm.train()

    def update(self):
        self.sm.update_training_values(self.y + 0.25)

    def advance(self, state):
        for s, f in (("set", self.set), ("trained", self.train), ("updated", self.update)):
            if state == "fresh":
                return
            f()
            if s == state:
                return

    def snapshot(self, pred):
        sm = self.sm
        tp = {repr(n): {k: (a[0].tobytes(), a[0].shape, a[1].tobytes(), a[1].shape) for k, a in d.items()} for n, d in sm.training_points.items()}
        s = [tp, {a: getattr(sm, a, None) for a in ("nt", "nx", "ny")}, {k: id(v) for k, v in sm.options._dict.items()}, dict(sm.supports)]
        if hasattr(sm, "_surrogate"):
            s.append({repr(n): {k: (a[0].tobytes(), a[1].tobytes()) for k, a in d.items()} for n, d in sm._surrogate.training_points.items()})
        if pred:
            s.append(self.answers())
        return s

    def answers(self):
        out = []
        sm = self.sm
        for f in (lambda: sm.predict_values(self.q), lambda: sm.predict_variances(self.q), lambda: sm.predict_derivatives(self.q, 0)):
            r = attempt(f)
            out.append((r[0], r[1] if r[0] == "exc" else r[1].tobytes()))
        return out


def bad_arrays(nx, n):
    """malformed query/training inputs for an nx-dimensional model"""
    g = HAL[:n, :nx].copy() if nx <= 12 else np.linspace(0, 1, n * nx).reshape(n, nx)
    out = [("list", g.tolist()), ("tuple", tuple(map(tuple, g))), ("None", None), ("float", 0.5), ("str", "x"), ("dict", {}), ("3d", g.reshape(n, nx, 1)), ("3d2", np.stack([g, g])), ("4d", g.reshape(1, n, nx, 1))]
    return out


def bad_widths(nx, n):
    h = lambda n, d: np.linspace(0.0, 1.0, n * d).reshape(n, d)
    out = [("wide", h(n, nx + 1)), ("wider", h(n, nx + 3))]
    if nx > 1:
        out += [("narrow", h(n, nx - 1)), ("1d", h(n, 1)[:, 0]), ("1d_nx", np.linspace(0, 1, nx))]
    return out


def bad_kx(nx):
    return [("-1", -1), ("-nx", -nx), ("nx", nx), ("nx+5", nx + 5), ("0.0", 0.0), ("str", "0"), ("None", None), ("list", [0]), ("1.5", 1.5)]


def invalid_calls(S, state):
    """(method, label, thunk) for every malformed call that must raise ValueError in this protocol state"""
    sm, nx = S.sm, S.nx
    x, y = S.x, S.y
    n = len(x)
    out = []

    def add(m, l, *a, **k):
        out.append((m, l, lambda: getattr(sm, m)(*a, **k)))

    for l, b in bad_arrays(nx, n):
        add("set_training_values", "xt=" + l, b, y)
    for l, b in bad_arrays(1, n):
        add("set_training_values", "yt=" + l, x, b)
    for m in (1, n - 1, n + 1, 2 * n):
        add("set_training_values", "yt[%d]" % m, x, np.ones((m, 1)))
        add("set_training_values", "yt[%d],named" % m, x, np.ones((m, 1)), "grp")
    if S.name.startswith("MI"):
        for l, b in bad_widths(nx, n):
            if b.shape[0] == n:
                add("set_training_values", "xt=" + l, b, y)
    for l, b in bad_arrays(1, n):
        add("update_training_values", l, b)
    if state == "fresh":
        add("update_training_values", "unset", y)
    for m in (1, n - 1, n + 1):
        add("update_training_values", "len%d" % m, np.ones((m, 1)))
    add("update_training_values", "unknown name", y, "nobody")
    if sm.supports["training_derivatives"]:
        for l, b in bad_arrays(nx, n):
            add("set_training_derivatives", "xt=" + l, b, y, 0)
        for l, b in bad_arrays(1, n):
            add("set_training_derivatives", "dyt=" + l, x, b, 0)
            add("update_training_derivatives", l, b, 0)
        for m in (1, n - 1, n + 1):
            add("set_training_derivatives", "len%d" % m, x, np.ones((m, 1)), 0)
            add("update_training_derivatives", "len%d" % m, np.ones((m, 1)), 0)
        for l, k in bad_kx(nx):
            if l in ("nx", "nx+5") and state == "fresh":
                continue  # the number of inputs is not known yet
            if l not in ("nx", "nx+5"):
                add("set_training_derivatives", "kx=" + l, x, y, k)
            if l != "list":
                add("update_training_derivatives", "kx=" + l, y, k)
        add("update_training_derivatives", "unknown name", y, 0, "nobody")
        if state == "fresh":
            add("update_training_derivatives", "unset", y, 0)
    if state == "trained":
        qs = bad_arrays(nx, 4) + [b for b in bad_widths(nx, 4) if not (S.name == "MGP" and np.ndim(b[1]) < 3 and (np.ndim(b[1]) == 1 or b[1].shape[1] == 1))]  # MGP also takes points of its embedding
        for l, b in qs:
            add("predict_values", l, b)
            if sm.supports["variances"]:
                add("predict_variances", l, b)
            if sm.supports["derivatives"]:
                add("predict_derivatives", l, b, 0)
            if sm.supports["output_derivatives"]:
                add("predict_output_derivatives", l, b)
            if sm.supports["variance_derivatives"]:
                add("predict_variance_derivatives", l, b)
        if sm.supports["derivatives"]:
            for l, k in bad_kx(nx):
                add("predict_derivatives", "kx=" + l, S.q, k)
    return out


def cases(tier):
    out = [dict(kind="flags", m=m, nx=nx, key="C16/flags/%s/nx%d" % (m, nx)) for m, nx in subjects()]
    out += [dict(kind="invalid", m=m, nx=nx, st=st, key="C16/invalid/%s/nx%d/%s" % (m, nx, st)) for m, nx in subjects() for st in STATES]
    pm = subjects() if tier == "thorough" else [s for s in subjects() if s in (("RBF", 2), ("RMTB", 2), ("LS", 1), ("KRG", 2), ("MFK", 2), ("MI-folded-KRG", 3))]
    out += [dict(kind="history", m=m, nx=nx, p1=p, key="C16/history/%s/nx%d/%d" % (m, nx, p)) for m, nx in pm for p in range(5)]
    out += [dict(kind="rms", m=m, key="C16/rms/%s" % m) for m in PLAIN if m != "MGP"]
    out += [dict(kind="problems", key="C16/problems")]
    out += [dict(kind="limits", m=m, nx=nx, key="C16/limits/%s/nx%d" % (m, nx)) for m in ("RMTB", "RMTC") for nx in (1, 2, 3)]
    return out


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["run_" + case["kind"]](case, R)


def run_flags(case, R):
    S = Subject(case["m"], case["nx"])
    sm, key = S.sm, case["key"]
    before = dict(sm.supports)
    S.advance("trained")
    R.check(dict(sm.supports) == before, key + "/changed", "training changes the support flags: %s -> %s" % (before, sm.supports))
    n, nx = 4, S.nx
    forms = [("2d", S.q), ("F", np.asfortranarray(S.q)), ("one", S.q[:1])]
    if nx == 1:
        forms.append(("1d", S.q[:, 0]))
    calls = {"values": lambda q: sm.predict_values(q), "derivatives": None, "variances": lambda q: sm.predict_variances(q), "output_derivatives": lambda q: sm.predict_output_derivatives(q), "variance_derivatives": lambda q: sm.predict_variance_derivatives(q)}
    nb = 0
    for (fl, q), op in itertools.product(forms, calls):
        kxs = range(nx) if op == "derivatives" else (None,)
        for k in kxs:
            f = (lambda: sm.predict_derivatives(q, k)) if op == "derivatives" else (lambda: calls[op](q))
            if op == "variance_derivatives" and len(q) > 1:
                if before[op]:
                    continue  # documented for one point
            r = attempt(f)
            kk = "%s/%s/%s/%s" % (key, op, fl, k)
            R.ev(), R.tr(), R.trace(), R.state(kk), R.nt(kk)
            if op != "values" and not before[op]:
                R.check(r == ("exc", "NotImplementedError"), kk, "the flag %s is False, the call gives %s" % (op, r if r[0] == "exc" else "a result"))
                continue
            if not R.check(r[0] == "ok", kk, "announced as supported, raises %s" % (r,)):
                continue
            v = r[1]
            if op == "output_derivatives":
                nt = len(S.x)
                R.check(isinstance(v, dict) and None in v and all(np.shape(a) in ((len(q), nt), (len(q), nt, 1)) and np.all(np.isfinite(a)) for a in v.values()), kk + "/shape", "output derivatives of shapes %s" % ({k2: np.shape(a) for k2, a in v.items()},))
            elif op == "variance_derivatives":
                R.check(np.size(v) == nx and np.all(np.isfinite(v)), kk + "/shape", "variance derivatives of shape %s" % (np.shape(v),))
            else:
                R.check(isinstance(v, np.ndarray) and v.shape == (len(q), 1) and np.all(np.isfinite(v)), kk + "/shape", "result %s of shape %s for %d points" % (type(v).__name__, np.shape(v), len(q)))
    # training derivatives
    T = Subject(case["m"], case["nx"])
    T.sm.set_training_values(T.x, T.y)
    for k in range(nx if not case["m"].startswith("MI") else 1):
        for meth, a in (("set_training_derivatives", (T.x, T.y, k)), ("update_training_derivatives", (T.y, k))):
            r = attempt(getattr(T.sm, meth), *a)
            R.ev(), R.tr()
            want = "ok" if before["training_derivatives"] else "NotImplementedError"
            R.check((r[0] if r[0] == "ok" else r[1]) == want, "%s/%s/%d" % (key, meth, k), "training_derivatives flag %s, the call gives %s" % (before["training_derivatives"], r))
            if r[0] == "ok":
                R.check(set(T.sm.training_points[None]) == set([0] + list(range(1, k + 2))), "%s/%s/%d/stored" % (key, meth, k), "training data stored under %s" % sorted(T.sm.training_points[None]))


def run_invalid(case, R):
    S = Subject(case["m"], case["nx"])
    st = case["st"]
    S.advance(st)
    pred = st == "trained"
    base = S.snapshot(pred)
    for m, l, f in invalid_calls(S, st):
        kk = "%s/%s/%s" % (case["key"], m, l)
        R.ev(), R.tr(), R.trace(), R.state(kk), R.nt(case["key"], m)
        r = attempt(f)
        R.check(r == ("exc", "ValueError"), kk, "malformed call gives %s" % (r if r[0] == "exc" else "no error",))
        now = S.snapshot(pred)
        if not R.check(now == base, kk + "/state", "the rejected call changed the object: %s" % ", ".join(n for n, a, b in zip(("training data", "sizes", "options", "flags", "inner data/answers", "answers"), base, now) if a != b)):
            S = Subject(case["m"], case["nx"])
            S.advance(st)
            base = S.snapshot(pred)
            return run_rest(case, R, m, l)


def run_rest(case, R, m0, l0):
    """after a call that altered the object: the remaining calls, each on a fresh object"""
    on = False
    labels = [(m, l) for m, l, _ in invalid_calls(adv(case), case["st"])]
    for i, (m, l) in enumerate(labels):
        if on:
            S = adv(case)
            base = S.snapshot(case["st"] == "trained")
            r = attempt(invalid_calls(S, case["st"])[i][2])
            kk = "%s/%s/%s" % (case["key"], m, l)
            R.check(r == ("exc", "ValueError"), kk, "malformed call gives %s" % (r if r[0] == "exc" else "no error",))
            R.check(S.snapshot(case["st"] == "trained") == base, kk + "/state", "the rejected call changed the object")
        on = on or (m, l) == (m0, l0)


def adv(case):
    S = Subject(case["m"], case["nx"])
    S.advance(case["st"])
    return S


PTS = ["fresh", "set", "trained", "updated"]


def run_history(case, R):
    """two malformed calls at any two points of set, train, predict, update, train, predict"""

    def go(ins):
        S = Subject(case["m"], case["nx"])
        out = []
        pos = 0
        for f, st in ((None, "fresh"), (S.set, "set"), (S.train, "trained"), (S.update, "updated"), (S.train, "trained")):
            if f:
                f()
            if st == "trained":
                out.append(S.answers())
            for p, j in ins:
                if p == pos:
                    calls = by_method(S, st)
                    if j < len(calls):
                        r = attempt(calls[j][2])
                        out.append(r) if False else None
            pos += 1
        out.append(S.answers())
        return out

    ref = go(())
    n = len(by_method(Subject(case["m"], case["nx"]), "fresh")) + 2
    p1 = case["p1"]
    for p2 in range(p1, 5):
        for j1, j2 in itertools.product(range(n), repeat=2):
            if (j1 * 3 + j2 + p1) % (8 if case["m"] == "RMTB" else 4) and case["m"] in ("KRG", "MFK", "RMTB", "MI-folded-KRG"):
                continue
            R.ev(), R.tr(7), R.trace(), R.state(p1, p2, j1, j2), R.nt(p1, p2, j1, j2)
            got = go(((p1, j1), (p2, j2)))
            if not R.check(got == ref, "%s/p%d.%d/p%d.%d" % (case["key"], p1, j1, p2, j2), "answers differ from the history without the rejected calls"):
                return


def by_method(S, st):
    """one representative malformed call per method and kind"""
    seen, out = set(), []
    for c in invalid_calls(S, st):
        k = (c[0], c[1].split("=")[0])
        if k[0] not in ("set_training_values",) and c[0] in seen:
            continue
        if k in seen:
            continue
        seen.add(k), seen.add(c[0])
        out.append(c)
    return out[:9]


def run_rms(case, R):
    S = Subject(case["m"], 2)
    S.advance("trained")
    sm = S.sm
    q = S.q
    ye = fun(q) + 0.1
    nrm = lambda a, b: np.linalg.norm(a - b) / np.linalg.norm(b)
    for kx in [None] + ([0, 1] if sm.supports["derivatives"] else []):
        P = (lambda x: sm.predict_values(x)) if kx is None else (lambda x: sm.predict_derivatives(x, kx))
        for l, args, want in (("given", dict(xe=q, ye=ye), lambda: nrm(P(q), ye)), ("flat", dict(xe=q, ye=ye[:, 0]), lambda: nrm(P(q), ye)), ("training", {}, None)):
            R.ev(), R.tr(), R.trace(), R.state(kx, l), R.nt(kx, l)
            r = attempt(compute_rms_error, sm, kx=kx, **args)
            kk = "%s/%s/%s" % (case["key"], kx, l)
            if want is None:
                i = 0 if kx is None else kx + 1
                if i not in sm.training_points[None]:
                    R.check(r == ("exc", "ValueError"), kk, "no training derivative data: %s instead of ValueError" % (r,))
                    continue
                xt, yt = sm.training_points[None][i]
                w = nrm(P(xt), yt)
            else:
                w = want()
            R.check(r[0] == "ok" and abs(r[1] - w) <= 1e-12 * max(1, abs(w)), kk, "compute_rms_error gives %s, definition gives %r" % (r, w))


def run_problems(case, R):
    mk = [("Branin", lambda: PR.Branin(ndim=2)), ("CantileverBeam", lambda: PR.CantileverBeam(ndim=3)), ("LpNorm", lambda: PR.LpNorm(ndim=2)), ("RobotArm", lambda: PR.RobotArm(ndim=2)), ("Rosenbrock", lambda: PR.Rosenbrock(ndim=2)), ("Sphere", lambda: PR.Sphere(ndim=3)), ("TensorProduct", lambda: PR.TensorProduct(ndim=2, func="exp")),
          ("TorsionVibration", lambda: PR.TorsionVibration()), ("WaterFlow", lambda: PR.WaterFlow()), ("WeldedBeam", lambda: PR.WeldedBeam()), ("WingWeight", lambda: PR.WingWeight()), ("NdimRosenbrock", lambda: PR.NdimRosenbrock(ndim=2)), ("ReducedProblem", lambda: PR.ReducedProblem(PR.WingWeight(), dims=[0, 2]))]
    for n, f in mk:
        p = f()
        nx = p.options["ndim"]
        g = np.array([p.xlimits[:, 0] * 0.6 + 0.4 * p.xlimits[:, 1], p.xlimits[:, 0] * 0.3 + 0.7 * p.xlimits[:, 1]])
        for l, b in bad_arrays(nx, 3) + bad_widths(nx, 3):
            r = attempt(p, b)
            R.ev(), R.tr(), R.state(n, l), R.nt(n)
            R.check(r == ("exc", "ValueError"), "C16/problems/%s/%s" % (n, l), "malformed input gives %s" % (r if r[0] == "exc" else "no error",))
        for l, k in bad_kx(nx):
            if l in ("None", "nx", "nx+5"):
                continue
            r = attempt(p, g, k)
            R.ev(), R.tr()
            R.check(r[0] == "exc" and r[1] in ("TypeError", "ValueError"), "C16/problems/%s/kx=%s" % (n, l), "malformed index gives %s" % (r if r[0] == "exc" else "no error",))
        for k in [None] + list(range(nx)):
            r = attempt(p, g, k)
            R.ev(), R.tr()
            R.check(r[0] == "ok" and r[1].shape == (2, 1) and np.all(np.isfinite(r[1])), "C16/problems/%s/ok%s" % (n, k), "valid call gives %s" % (r,))


def run_limits(case, R):
    """training points outside of the limits of a spline model"""
    from smt.surrogate_models import RMTB, RMTC

    m, nx = case["m"], case["nx"]
    o = dict(num_ctrl_pts=4, order=3) if m == "RMTB" else dict(num_elements=1)
    for lim in ([[0.0, 1.0]] * nx, [[-2.0, 3.0], [10.0, 10.5], [-1e3, 1e3]][:nx]):
        lim = np.array(lim)
        u = halton(9, nx, 1)
        for k, side, d, row in itertools.product(range(nx), (0, 1), (0.0, 1e-6, 0.3, 50.0), (0, 8)):
            v = u.copy()
            v[row, k] = -d if side == 0 else 1 + d
            x = lim[:, 0] + v * (lim[:, 1] - lim[:, 0])
            if d == 0.0:
                x[row, k] = lim[k, side]
            sm = {"RMTB": RMTB, "RMTC": RMTC}[m](xlimits=lim, print_global=False, **o)
            sm.set_training_values(x, fun(u))
            r = attempt(sm.train)
            key = "%s/%s/%d/%d/%g/%d" % (case["key"], lim[0, 0], k, side, d, row)
            R.ev(), R.tr(), R.state(key), R.nt(key), R.trace()
            R.check(r[0] == ("ok" if d == 0.0 else "exc"), key, "a training point %s the limits (input %d, %s side): training gives %s" % ("on" if d == 0.0 else "outside of", k, "upper" if side else "lower", r))
            if d == 0.0:
                continue
            v = attempt(sm.predict_values, x[:2])
            R.check(v[0] == "exc", key + "/predict", "predicts without a training")
            x2 = lim[:, 0] + u * (lim[:, 1] - lim[:, 0])
            sm.set_training_values(x2, fun(u))
            r = attempt(sm.train)
            R.check(r[0] == "ok", key + "/valid", "valid data afterwards: training gives %s" % (r,))

"""C15: option dictionaries against a reference model, and every class against its documented option table."""
import contextlib, copy, io, itertools, json, os
import numpy as np
from numbers import Integral
from types import FunctionType
from vlib.smtlib import *
from smt.utils.options_dictionary import OptionsDictionary
from smt.utils.linear_solvers import LinearSolver
from smt.utils.line_search import LineSearch
from smt import problems as P, sampling_methods as SM, applications as AP
from smt.applications.ego import Evaluator, EGO
from smt.applications.mfk import MFK
from smt.applications.mfkpls import MFKPLS
from smt.applications.mfkplsk import MFKPLSK
from smt.applications.moe import MOE
from smt.applications.vfm import VFM
import smt.surrogate_models as S

ID = "C15"
LEVEL = "model_checking"
RULE = ("(dict) every sequence of operations up to the depth over an option dictionary and its clone (11 declarations, 24 assignments, bulk updates, clone, in-place mutation of a stored list), the real object compared with a reference dictionary after every step; (table) every class x every documented option x every value of a typed pool, through the constructor "
        "and by assignment, and undocumented names; (pairs) every pair of documented option values in one constructor; (use) training/predicting or evaluating with every documented enumerated value, which must work, and with unknown ones, which must be rejected. Non-trivial: sequences with both accepted and rejected operations, and every (class, option)")
BOUNDS = {"quick": "dictionary depth 4 over 77 operations, states merged by model state; 31 classes", "thorough": "dictionary depth 5"}
ASSUMPTIONS = ["the documented option tables were frozen from the documentation of the pinned commit (they agree with the code there)"]
TIMEOUT = 800

T = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "data", "options.json")))
TYPES = dict(bool=bool, int=int, float=float, str=str, list=list, tuple=tuple, dict=dict, ndarray=np.ndarray, function=FunctionType, object=object, NoneType=type(None), RandomState=np.random.RandomState, Integral=Integral, Evaluator=Evaluator, LinearSolver=LinearSolver, LineSearch=LineSearch,
             KRG=S.KRG, KPLS=S.KPLS, KPLSK=S.KPLSK, MGP=S.MGP)

LST = [1, 2]
DECL = [("a", "u", None, (1, "a"), None), ("b", "u", "a", [1, "a"], None), ("c", "u", 3, (1, "a"), None), ("d", "v", 2, None, int), ("e", "v", None, None, (int, str)), ("f", "v", 1.5, None, [int, float]), ("g", "w", 1.5, ("a",), float), ("h", "w", 7, ("a",), float),
        ("i", "w", "a", ("a", None), float), ("j", "v", LST, None, list), ("k", "u", 0, None, None)]
VALS = [1, True, "a", "zz", 1.5, None, LST, (1, 2)]


def ops():
    out = []
    for s in (0, 1):
        for d in DECL:
            out.append((s, "declare", d))
        for n in ("u", "v", "w"):
            for i in range(len(VALS)):
                out.append((s, "set", n, i))
        out.append((s, "update", (("u", 0), ("v", 0))))
        out.append((s, "update", (("v", 0), ("u", 4), ("w", 2))))
        out.append((s, "mutate", "v"))
    out.append((0, "clone"))
    return out


OPS = ops()


def valid(entry, v):
    vals, ty = entry
    ty = tuple(ty) if isinstance(ty, list) else ty
    inv = vals is not None and any(v is x or v == x for x in vals)
    int_ = ty is not None and isinstance(v, ty)
    if vals is not None and ty is not None:
        return inv or int_
    return inv if vals is not None else int_ if ty is not None else True


def mod_apply(m, op):
    """m: [slot0, slot1] each None or (entries, values). Returns accepted."""
    s, kind = op[0], op[1]
    if kind == "clone":
        m[1] = (dict(m[0][0]), copy.deepcopy(m[0][1]))
        return True
    if m[s] is None:
        return None
    ent, val = m[s]
    if kind == "declare":
        _, n, d, vs, ty = op[2]
        if d is not None and not valid((vs, ty), d):
            return False
        ent[n] = (vs, ty)
        val[n] = d if not isinstance(d, list) else list(d)
        return True
    if kind == "set":
        if op[2] not in ent or not valid(ent[op[2]], VALS[op[3]]):
            return False
        v = VALS[op[3]]
        val[op[2]] = list(v) if isinstance(v, list) else v
        return True
    if kind == "update":
        for n, i in op[2]:
            if n not in ent or not valid(ent[n], VALS[i]):
                return False
            val[n] = VALS[i]
        return True
    if kind == "mutate":
        if not isinstance(val.get(op[2]), list):
            return None
        val[op[2]].append(9)
        return True


def real_apply(r, op):
    s, kind = op[0], op[1]
    try:
        if kind == "clone":
            r[1] = r[0].clone()
        elif kind == "declare":
            _, n, d, vs, ty = op[2]
            kw = {}
            if d is not None:
                kw["default"] = list(d) if isinstance(d, list) else d
            if vs is not None:
                kw["values"] = vs
            if ty is not None:
                kw["types"] = ty
            r[s].declare(n, desc="x", **kw)
        elif kind == "set":
            v = VALS[op[3]]
            r[s][op[2]] = list(v) if isinstance(v, list) else v
        elif kind == "update":
            r[s].update({n: VALS[i] for n, i in op[2]})
        elif kind == "mutate":
            r[s][op[2]].append(9)
        return True
    except Exception:
        return False


def mkey(m):
    return repr([None if x is None else (sorted((k, repr(v)) for k, v in x[0].items()), sorted((k, type(v).__name__, repr(v)) for k, v in x[1].items())) for x in m])


def observe(o):
    out = []
    for n in ("u", "v", "w", "x"):
        try:
            v = o[n]
            g = (type(v).__name__, repr(v))
        except KeyError:
            g = "KeyError"
        out.append((n, n in o, o.is_declared(n), g))
    return out


def mobserve(x):
    return [(n, n in x[1], n in x[0], (type(x[1][n]).__name__, repr(x[1][n])) if n in x[1] else "KeyError") for n in ("u", "v", "w", "x")]


def rt_name(c):
    return c


def xl(nx=2):
    return np.array([[0.0, 1.0]] * nx)


CLASSES = {
    n: (getattr(S, n, None) or getattr(P, n, None) or getattr(SM, n, None) or getattr(AP, n, None) or dict(EGO=EGO, MFK=MFK, MFKPLS=MFKPLS, MFKPLSK=MFKPLSK, MOE=MOE, VFM=VFM)[n]) for n in T
}
REQ = {"RMTB": dict(xlimits=xl()), "RMTC": dict(xlimits=xl()), "TensorProduct": dict(func="cos"), "LHS": dict(xlimits=xl()), "Random": dict(xlimits=xl()), "FullFactorial": dict(xlimits=xl())}


def pool():
    def f(x):
        return x

    return [("None", None), ("True", True), ("False", False), ("0", 0), ("2", 2), ("-1", -1), ("1.5", 1.5), ("nan", float("nan")), ("np.int64", np.int64(3)), ("np.float64", np.float64(0.5)), ("np.bool_", np.bool_(True)), ("str", "zz"), ("empty", ""), ("bytes", b"a"), ("complex", 1j), ("list", [0.5, 0.25]), ("tuple", (1, 2)),
            ("dict", {"mean": [0.0], "var": 1.25}), ("set", {1}), ("array", np.array([[0.5, 0.25]])), ("function", f), ("class", int), ("object", object()), ("randomstate", np.random.RandomState(0)), ("KRG", S.KRG(print_global=False)), ("LS", S.LS(print_global=False))]


EXTRA = {"Branin": [], "TensorProduct": []}


def accepts(vals, types, v):
    ty = None if types is None else tuple(TYPES[t] for t in types)
    try:
        inv = vals is not None and any(v is x or bool(np.all(v == x)) and np.shape(v) == np.shape(x) for x in vals)
    except Exception:
        inv = False
    if vals is not None and ty is not None:
        return inv or isinstance(v, ty)
    return inv if vals is not None else isinstance(v, ty) if ty is not None else True


def values(vals, types):
    out = pool()
    for x in vals or []:
        if not any(x is v for _, v in out):
            out.append(("doc:%r" % (x,), x))
    return out


def cases(tier):
    d = 4 if tier == "quick" else 5
    out = [dict(kind="dict", first=i, depth=d, key="C15/dict/%d" % i) for i in range(len(OPS)) if OPS[i][0] == 0]
    out += [dict(kind="table", cls=n, key="C15/table/%s" % n) for n in sorted(T)]
    out += [dict(kind="pairs", cls=n, key="C15/pairs/%s" % n) for n in sorted(T)]
    out += [dict(kind="use", cls=n, key="C15/use/%s" % n) for n in sorted(T)]
    return out


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["run_" + case["kind"]](case, R)


def run_dict(case, R):
    """Breadth-first over histories; a history is extended when its model state is new at that depth."""
    seen = set()
    todo = [(case["first"],)]
    for depth in range(1, case["depth"] + 1):
        nxt = []
        for path in todo:
            m, r = [({}, {}), None], [OptionsDictionary(), None]
            acc = set()
            for j, i in enumerate(path):
                op = OPS[i]
                a = mod_apply(m, op)
                if a is None:
                    break
                acc.add(a)
                b = real_apply(r, op)
                last = j == len(path) - 1
                if last:
                    R.ev(), R.tr(), R.trace()
                    if not R.check(a == b, case["key"] + "/accept", "history %s: accepted=%s, reference %s" % ([OPS[q] for q in path], b, a)):
                        return
                    for s in (0, 1):
                        if m[s] is not None and not R.check(observe(r[s]) == mobserve(m[s]), case["key"] + "/state", "history %s slot %d: %s, reference %s" % ([OPS[q] for q in path], s, observe(r[s]), mobserve(m[s]))):
                            return
            if a is None:
                continue
            k = mkey(m)
            if len(acc) == 2:
                R.nt(k)
            if k not in seen:
                seen.add(k)
                R.state(k)
                nxt += [path + (i,) for i in range(len(OPS))]
        todo = nxt


def make_obj(n, **kw):
    o = dict(REQ.get(n, {}))
    o.update(kw)
    return CLASSES[n](**o)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and (a == b or a != a)


def run_table(case, R):
    n = case["cls"]
    key = case["key"]
    tab = T[n]
    base = make_obj(n)
    for k, (d, vals, types) in tab.items():
        R.state(n, k), R.nt(n, k)
        R.check(base.options.is_declared(k), key + "/declared/" + k, "documented option %s is not declared" % k)
        if d is not None and k not in REQ.get(n, {}) and k != "ndim" and not (n == "MGP" and k in ("corr", "hyper_opt")):
            dv = d["v"]
            R.ev()
            got = base.options[k]
            got = list(got) if isinstance(got, tuple) else got.tolist() if isinstance(got, np.ndarray) else got
            R.check(got == dv or str(got) == str(dv), key + "/default/" + k, "default of %s is %r, documented %r" % (k, got, dv))
    for bad in ("", "Foo", "print_Global", " corr", "theta", "options", "no_such_option", "nx", "ndims"):
        R.ev(), R.tr(2)
        r = attempt(make_obj, n, **{bad: 1})
        R.check(r[0] == "exc", key + "/unknown/" + bad, "unknown option %r is accepted by the constructor" % bad)
        r = attempt(base.options.__setitem__, bad, 1)
        R.check(r[0] == "exc" and not base.options.is_declared(bad), key + "/unknown_set/" + bad, "unknown option %r is accepted" % bad)
    for k, (d, vals, types) in tab.items():
        for vn, v in values(vals, types):
            ok = accepts(vals, types, v)
            R.ev(), R.tr(2), R.trace()
            o = make_obj(n).options
            prev = o[k]
            others = {q: o[q] for q in tab if q != k}
            r = attempt(o.__setitem__, k, v)
            kk = "%s/%s/%s" % (key, k, vn)
            R.check((r[0] == "ok") == ok, kk + "/set", "setting %s=%r: %s, documented as %s" % (k, v, r, "acceptable" if ok else "not acceptable"))
            R.check(o[k] is (v if r[0] == "ok" else prev), kk + "/read", "option %s reads %r after setting %r (%s)" % (k, o[k], v, r[0]))
            R.check(all(o[q] is others[q] for q in others), kk + "/other", "setting %s changes another option" % k)
            if ok and heavy(n, k, v):
                continue
            r = attempt(make_obj, n, **{k: v})
            if not ok:
                R.check(r[0] == "exc", kk + "/ctor", "the constructor accepts %s=%r" % (k, v))
            elif r[0] == "ok":
                R.check(same_value(r[1].options[k], v), kk + "/ctor_read", "constructed with %s=%r, reads %r" % (k, v, r[1].options[k]))


def heavy(n, k, v):
    return k == "ndim"  # dimension changes are interpreted by the constructors


PICK = {"bool": [True, False], "int": [1, 3], "Integral": [2], "float": [0.25], "str": ["zz"], "list": [[0.5, 0.6]], "tuple": [(2, 3)], "ndarray": [np.array([[0.1, 0.9], [0.2, 0.8]])], "dict": [{}], "NoneType": [None]}


def doc_values(vals, types):
    out = list(vals or [])
    if not vals:
        for t in types or []:
            out += PICK.get(t, [])
    return out


def run_pairs(case, R):
    n = case["cls"]
    tab = {k: v for k, v in T[n].items() if k not in ("ndim",)}
    for (k1, a), (k2, b) in itertools.combinations(tab.items(), 2):
        for v1, v2 in itertools.product(doc_values(*a[1:]), doc_values(*b[1:])):
            R.ev(), R.tr(), R.trace(), R.state(n, k1, k2, repr((v1, v2)))
            for order in (0, 1):
                kw = {k1: v1, k2: v2} if order == 0 else {k2: v2, k1: v1}
                r = attempt(make_obj, n, **kw)
                kk = "%s/%s=%s/%s=%s" % (case["key"], k1, lab(v1), k2, lab(v2))
                if r[0] == "exc":
                    R.fail(kk, "the constructor raises %s for documented values" % (r,))
                    break
                o = r[1].options
                R.check(o[k1] is v1 and o[k2] is v2, kk + "/read", "constructed with %r, %r; reads %r, %r" % (v1, v2, o[k1], o[k2]))


def lab(v):
    return repr(v).replace("\n", "").replace(" ", "")


# ------------------------------------------------------------------ use
MODEL_BASE = {
    "KRG": {}, "KPLS": {}, "KPLSK": {}, "GEKPLS": dict(delta_x=0.01, extra_points=1, xlimits=xl()), "MGP": dict(theta0=[0.1]), "RBF": {}, "IDW": {}, "LS": {}, "QP": {},
    "GENN": dict(num_epochs=1, num_iterations=3, is_print=False), "RMTB": dict(xlimits=xl(), num_ctrl_pts=5, nonlinear_maxiter=2, approx_order=2), "RMTC": dict(xlimits=xl(), num_elements=2, nonlinear_maxiter=2, approx_order=2),
}
USE_VALUES = {
    "d0": [1, 0.7, [0.5, 0.6], np.array([0.5, 0.6])], "theta0": [[0.1, 0.2], np.array([0.1, 0.2])], "theta_bounds": [[1e-3, 5.0], np.array([1e-3, 5.0])], "order": [3, 2, (3, 2), [2, 3], np.array([2, 3])], "num_ctrl_pts": [5, (4, 5), [5, 4], np.array([4, 5])],
    "num_elements": [2, [1, 2], np.array([2, 1])], "smoothness": [1, 0.5, (0.5, 1.0), [1.0, 2.0], np.array([1.0, 2.0])], "p": [2, 2.5], "reg": [0, 1e-8], "poly_degree": [-1, 0, 1], "n_comp": [1, 2], "eval_n_comp": [False], "noise0": [[1e-3], np.array([1e-3])], "noise_bounds": [[1e-6, 1.0], np.array([1e-6, 1.0])],
    "nugget": [1e-10], "extra_points": [0, 1, 2], "delta_x": [0.01], "hyper_opt": ["Cobyla", "TNC"], "deep": [1, 2, 3], "wide": [1, 4], "mini_batch_size": [1, 64], "seed": [3], "gamma": [0, 1.0], "lambd": [0, 0.1], "approx_order": [2, 4], "nonlinear_maxiter": [1, 3], "max_print_depth": [0, 5], "grad_weight": [0, 0.5], "energy_weight": [0, 1e-4], "regularization_weight": [1e-3],
    "solver_tolerance": [1, 1e-6], "alpha": [1, 0.2], "beta1": [0.8], "beta2": [0.9], "num_epochs": [1, 2], "num_iterations": [1, 3],
}
SKIP_USE = {"data_dir", "xlimits", "return_complex", "name", "prior", "eval_n_comp", "eval_comp_treshold", "cv"}


def use_model(n, kw):
    sm = CLASSES[n](**kw)
    x = halton(9, 2, 1)
    y = fun(x, 1)
    sm.set_training_values(x, y)
    if n in ("GEKPLS", "GENN"):
        for k in range(2):
            sm.set_training_derivatives(x, dfun(x, k, 1), k)
    sm.train()
    return sm, sm.predict_values(halton(5, 2, 40))


def run_use(case, R):
    n = case["cls"]
    tab = T[n]
    if n in MODEL_BASE:
        for k, (d, vals, types) in tab.items():
            if k in SKIP_USE:
                continue
            vs = USE_VALUES.get(k) or (list(vals) if vals else [True, False] if types == ["bool"] else [])
            for v in vs:
                kw = dict(MODEL_BASE[n])
                kw["print_global"] = False
                if n in ("MGP", "KPLS", "KPLSK", "GEKPLS") and k in ("theta0",):
                    v = v[:1]
                kw[k] = v
                before = copy.deepcopy(v)
                kk = "%s/%s=%s" % (case["key"], k, lab(v))
                r = attempt(use_model, n, kw)
                R.ev(), R.tr(), R.trace(), R.state(n, k, lab(v)), R.nt(n, k, lab(v))
                if r == ("exc", "ValueError") and k in ("corr", "hyper_opt", "poly"):
                    R.count("combinations the model rejects with ValueError")
                    continue
                if not R.check(r[0] == "ok", kk, "training and predicting with the documented value raises %s" % (r,)):
                    continue
                sm, y = r[1]
                n != "MGP" and R.check(y.shape == (5, 1), kk + "/shape", "prediction of shape %s" % (y.shape,))
                R.check(sm.options[k] is v and same_value(v, before) if not isinstance(v, list) else sm.options[k] is v and v == before, kk + "/kept", "option reads %r after training, was set to %r" % (sm.options[k], before))
            if vals and types and "str" in types:
                for v in ("zz", "", vals[0].upper() + "x" if isinstance(vals[0], str) else "x"):
                    if k == "data_dir":
                        continue
                    kw = dict(MODEL_BASE[n], print_global=False)
                    kw[k] = v
                    R.ev(), R.tr()
                    r = attempt(use_model, n, kw)
                    R.check(r[0] == "exc", "%s/%s=%r/unknown" % (case["key"], k, v), "unknown value is used silently")

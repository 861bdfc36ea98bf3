"""C24: variable-fidelity models against the composition of separately trained models."""
import itertools
import numpy as np
from vlib.smtlib import *
from vlib import seams
from vlib.apps import lo
from smt.applications import VFM

ID = "C24"
LEVEL = "model_checking"
RULE = ("every pair of low-fidelity and bridge models (10 x 10) x additive/multiplicative x admissible derivative options x inputs x way of naming the model (string, class) x every order of the prediction operations x two models sharing the option dictionaries: predictions and derivatives equal the composition of two plain surrogates trained separately on the low-fidelity data and on the differences / quotients (with their derivatives); data and option dictionaries unchanged; "
        "high-fidelity data reproduced when the bridge interpolates; missing data raise ValueError. States: (configuration, history, point); non-trivial: second and later operations")
BOUNDS = {"quick": "100 pairs x 2 bridges x derivative options x 1-2 inputs, 6 orders of 3 operations for a quarter of the pairs, 12-16 points", "thorough": "all orders for all pairs, 3 inputs, two data sets"}
ASSUMPTIONS = ["the optimizers of the likelihood stop at their start (same plain models on both sides); single output; the low-fidelity model does not vanish at high-fidelity points"]
TIMEOUT = 700

NAMES = ("KRG", "LS", "QP", "KPLS", "KPLSK", "GEKPLS", "RBF", "RMTC", "RMTB", "IDW")
DERIV = ("GEKPLS", "RMTC", "RMTB")  # accept training derivatives
CLS = dict(KRG=KRG, LS=LS, QP=QP, KPLS=KPLS, KPLSK=KPLSK, GEKPLS=GEKPLS, RBF=RBF, RMTC=RMTC, RMTB=RMTB, IDW=IDW)


def opts(name, nx):
    if name in ("KRG",):
        return dict(theta0=[0.5])
    if name in ("KPLS", "KPLSK"):
        return dict(n_comp=1, theta0=[0.5])
    if name == "GEKPLS":
        return dict(n_comp=1, theta0=[0.5], xlimits=unit(nx), extra_points=1, delta_x=0.01)
    if name == "RMTC":
        return dict(xlimits=unit(nx), num_elements=2)
    if name == "RMTB":
        return dict(xlimits=unit(nx), num_ctrl_pts=5, order=3)
    if name == "RBF":
        return dict(d0=0.8)
    if name == "IDW":
        return dict(p=2.5)
    return {}


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, b in itertools.product(range(10), range(10)):
        lf, br = NAMES[a], NAMES[b]
        for typ, nx in itertools.product(("Additive", "Multiplicative"), (1, 2, 3) if th else (1, 2)):
            if nx == 3 and ("RMTC" in (lf, br) or "RMTB" in (lf, br)):
                continue
            for dl, db in itertools.product((False, True), repeat=2):
                if dl and lf not in DERIV or db and br not in DERIV or not dl and lf == "GEKPLS" or not db and br == "GEKPLS":
                    continue
                if db and not CLS[lf](**opts(lf, nx)).supports["derivatives"]:
                    continue
                for s in (0, 1) if th else (0,):
                    out.append(dict(kind="pair", lf=lf, br=br, typ=typ, nx=nx, dl=dl, db=db, s=s, orders=th or (a + b) % 4 == 0, key="C24/%s/%s/%s/%d/%d%d/%d" % (lf, br, typ, nx, dl, db, s)))
    out.append(dict(kind="errors", key="C24/errors"))
    return out


def run(case, R):
    with seams.minimize_hook(seams.frozen):
        globals()["run_" + case["kind"]](case, R)


def data(nx, s):
    XL, XH = halton(14 + 2 * nx, nx, 3 + s), halton(8 + 2 * nx, nx, 1 + 5 * s)
    yl, yh = lo(XL) + 2.0, fun(XH) + 2.5
    dl = np.concatenate([0.7 * dfun(XL, k) + (0.4 if k == 0 else 0) for k in range(nx)], axis=1)
    dh = np.concatenate([dfun(XH, k) for k in range(nx)], axis=1)
    return XL, yl, XH, yh, dl, dh


def plain(name, nx, X, y, dy=None):
    sm = CLS[name](print_global=False, **opts(name, nx))
    sm.set_training_values(X, y)
    if dy is not None:
        for k in range(nx):
            sm.set_training_derivatives(X, dy[:, k : k + 1], k)
    sm.train()
    return sm


def compose(case, D):
    nx = case["nx"]
    XL, yl, XH, yh, dl, dh = D
    lf = plain(case["lf"], nx, XL, yl, dl if case["dl"] else None)
    v = lf.predict_values(XH)
    mul = case["typ"] == "Multiplicative"
    yb = yh / v if mul else yh - v
    db = None
    if case["db"]:
        g = np.concatenate([lf.predict_derivatives(XH, k) for k in range(nx)], axis=1)
        db = (dh * v - yh * g) / v ** 2 if mul else dh - g
    br = plain(case["br"], nx, XH, yb, db)
    val = lambda x: br.predict_values(x) * lf.predict_values(x) if mul else br.predict_values(x) + lf.predict_values(x)
    if not (lf.supports["derivatives"] and br.supports["derivatives"]):
        return val, None
    der = lambda x, k: (br.predict_derivatives(x, k) * lf.predict_values(x) + br.predict_values(x) * lf.predict_derivatives(x, k)) if mul else br.predict_derivatives(x, k) + lf.predict_derivatives(x, k)
    return val, der


def options(case):
    a, b = dict(opts(case["lf"], case["nx"]), print_global=False), dict(opts(case["br"], case["nx"]), print_global=False)
    if case["dl"]:
        a["deriv"] = True
    elif case["s"]:
        a["deriv"] = False
    if case["db"]:
        b["deriv"] = True
    return a, b


def make_vfm(case, D, ol, ob, byname=True):
    XL, yl, XH, yh, dl, dh = D
    kw = {}
    if case["dl"]:
        kw["dy_LF"] = dl
    if case["db"]:
        kw["dy_HF"] = dh
    return VFM(type_bridge=case["typ"], name_model_LF=case["lf"] if byname else CLS[case["lf"]], name_model_bridge=case["br"] if byname else CLS[case["br"]],
               X_LF=XL, y_LF=yl, X_HF=XH, y_HF=yh, options_LF=ol, options_bridge=ob, **kw)


def same_dict(a, b):
    return a.keys() == b.keys() and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def run_pair(case, R):
    nx = case["nx"]
    D = data(nx, case["s"])
    copy = [d.copy() for d in D]
    val, der = compose(case, D)
    x = np.concatenate([halton(6, nx, 30), D[2][:3], D[0][:3], np.linspace(0, 1, 3)[:, None] * np.ones((1, nx))])
    want = {"v": val(x)}
    for k in range(nx):
        if der:
            want["d%d" % k] = der(x, k)
    ops = ["v"] + ["d%d" % k for k in range(nx) if der]
    orders = list(itertools.permutations(ops)) if case["orders"] else [tuple(ops), tuple(reversed(ops))]
    ol, ob = options(case)
    ol0, ob0 = {k: np.copy(v) if isinstance(v, (list, np.ndarray)) else v for k, v in ol.items()}, {k: np.copy(v) if isinstance(v, (list, np.ndarray)) else v for k, v in ob.items()}
    for n, order in enumerate(orders):
        sm = make_vfm(case, D, ol, ob, byname=n % 2 == 0)
        for step, op in enumerate(order + (order[0],)):
            R.ev(), R.tr(), R.trace()
            R.state(case["key"], order, step)
            if step:
                R.nt(case["key"], order, step)
            r = attempt(lambda: sm.predict_values(x.copy()) if op == "v" else sm.predict_derivatives(x.copy(), int(op[1:])))
            w = want[op]
            sc = max(1.0, np.abs(w).max())
            R.check(r[0] == "ok" and np.shape(r[1]) == w.shape and np.abs(r[1] - w).max() <= 1e-9 * sc, "%s %s/%d" % (case["key"], "".join(order), step), "%s differs from the composition of the plain models" % op, got=r[1] if r[0] == "exc" else np.abs(r[1] - w).max())
        if der:
            r = attempt(lambda: sm.predict_derivatives(x.copy(), None))
            w = np.concatenate([want["d%d" % k] for k in range(nx)], axis=1)
            R.check(r[0] == "ok" and np.abs(r[1] - w).max() <= 1e-9 * max(1, np.abs(w).max()), "%s all" % case["key"], "all derivatives at once differ", got=r)
        else:
            r = attempt(lambda: sm.predict_derivatives(x.copy(), 0))
            R.check(r[0] == "exc" and r[1] == "NotImplementedError", "%s unsupported" % case["key"], "derivatives that are not available must raise NotImplementedError", got=r)
        R.check(same_dict(ol, ol0) and same_dict(ob, ob0), "%s options" % case["key"], "the caller's option dictionaries are modified", LF=ol, bridge=ob)
    # models sharing the dictionaries are independent: other data, asked alternately
    D2 = data(nx, case["s"] + 2)
    val2, _ = compose(case, D2)
    a, b = make_vfm(case, D, ol, ob), make_vfm(case, D2, ol, ob)
    for i, (sm, w) in enumerate(((a, want["v"]), (b, val2(x)), (a, want["v"]), (b, val2(x)))):
        r = attempt(lambda: sm.predict_values(x))
        R.ev(), R.tr(), R.trace()
        R.state(case["key"], "shared", i), R.nt(case["key"], "shared", i)
        R.check(r[0] == "ok" and np.abs(r[1] - w).max() <= 1e-9 * max(1, np.abs(w).max()), "%s shared %d" % (case["key"], i), "two models sharing option dictionaries interfere")
    if case["br"] in ("KRG", "IDW") and nx < 3:
        e = np.abs(a.predict_values(D[2]) - D[3]).max()
        R.check(e <= 1e-4, "%s interpolation" % case["key"], "high-fidelity data not reproduced", err=e)
    R.check(all(np.array_equal(p, q) for p, q in zip(D, copy)), "%s data" % case["key"], "training arrays modified")


def run_errors(case, R):
    D = data(2, 0)
    XL, yl, XH, yh = D[:4]
    full = dict(X_LF=XL, y_LF=yl, X_HF=XH, y_HF=yh)
    for n in range(4):
        for miss in itertools.combinations(full, n + 1):
            sm = VFM(name_model_LF="LS", name_model_bridge="LS", **{k: v for k, v in full.items() if k not in miss})
            for op in ("v", "d"):
                r = attempt(lambda: sm.predict_values(XL) if op == "v" else sm.predict_derivatives(XL, 0))
                R.ev(), R.tr()
                R.state(miss, op), R.nt(miss, op)
                R.check(r == ("exc", "ValueError"), "C24/errors %s %s" % ("-".join(miss), op), "missing data", got=r)
    for nm in ("nope", "krg", ""):
        r = attempt(lambda: VFM(name_model_LF=nm, name_model_bridge="LS", options_LF=dict(print_global=False), **full).predict_values(XL))
        R.ev()
        R.check(r[0] == "exc" and r[1] in ("ValueError", "AssertionError"), "C24/errors name %s" % nm, "unknown model", got=r)

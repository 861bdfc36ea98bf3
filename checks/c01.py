"""C01: explicit-state exploration of one surrogate object under set/update/option/train/predict histories,
compared after every train with a freshly built object (differential reference)."""
import itertools
import numpy as np
from vlib.smtlib import *

ID = "C01"
LEVEL = "model_checking"
RULE = ("every history of rounds (data operation; option operation; one or two trains; optional predictions) up to the depth bound over the "
        "alphabet {set A..F with different nt/nx/ny, update the values (also with another number of outputs) or the derivatives, nothing, option toggle, double train}; a history is non-trivial "
        "when the object was trained at least twice; distinct states are (model, trained data id, options, last result digest)")
BOUNDS = {"quick": "all histories of 2 rounds over the full alphabet, 3 rounds over the set alphabet; 28 model configurations",
          "thorough": "all histories of 3 rounds over the full alphabet; 28 model configurations"}
ASSUMPTIONS = ["the reference is a fresh object of the same code, so a defect that affects first trainings too is left to the other properties",
               "equality up to 1e-6 relative (identical floating-point programs are expected)"]
TIMEOUT = 600

DATA = {"A": (6, 2, 1, 1, 0.0), "B": (10, 2, 1, 3, 0.3), "C": (7, 1, 1, 2, 0.1), "D": (8, 2, 2, 1, 0.2),
        "E": (6, 2, 1, 11, 0.5), "F": (12, 3, 1, 1, 0.0)}
ALT = {
    "IDW": dict(p=3.5), "IDW-p2": dict(p=1), "RBF": dict(d0=0.4), "RBF-p0": dict(poly_degree=1), "RBF-p1": dict(poly_degree=-1, reg=1e-8),
    "RMTB": dict(num_ctrl_pts=5), "RMTB-lin": dict(order=4), "RMTC": dict(num_elements=3), "RMTC-ex": dict(num_elements=3, smoothness=2.0),
    "KRG": dict(corr="matern52"), "KRG-abs": dict(poly="constant"), "KRG-m52": dict(theta0=[0.3]), "KRG-m32": dict(poly="constant"),
    "KRG-lin": dict(nugget=1e-6), "KRG-noise": dict(noise0=[1e-2]), "KRG-tnc": dict(theta_bounds=[1e-3, 1.0]), "KPLS": dict(theta0=[0.5]),
    "KPLS-abs": dict(corr="squar_exp"), "KPLSK": dict(poly="linear"), "GEKPLS": dict(delta_x=0.02), "GEKPLS0": dict(extra_points=1),
    "MGP": dict(theta0=[0.1]), "GENN": dict(num_iterations=4, wide=4), "MFK": dict(corr="matern52"), "MFKPLS": dict(corr="abs_exp"), "MFKPLSK": dict(poly="linear"),
    "KRG-het": dict(corr="abs_exp"), "KRG-hetgiven": dict(eval_noise=True, noise0=[1e-3]), "KPLS-eval": dict(eval_noise=False), "KPLSK-eval": dict(eval_noise=False), "MFK2": dict(rho_regr="linear"), "MFK2-opt": dict(optim_var=False),
    "MFK2-lin": dict(rho_regr="constant"), "MFK2-het": dict(use_het_noise=False), "MFK2-PLS": dict(corr="abs_exp"), "MFK2-PLSK": dict(poly="linear"),
}


def alphabet(name, tier, full):
    sets = ["A", "B", "C", "E", "F"] + (["D"] if ALL[name][3] else [])
    if not full:
        return sets
    ops = list(sets) + ["U", "N", "A!"]  # A! : set A then train twice
    if ALL[name][3]:
        ops.append("V")  # update with another number of outputs
    if ALL[name][2]:
        ops.append("W")  # update the derivatives
    if name in ALT:
        ops.append("O")
    return ops


def sequences(name, tier, first):
    full = alphabet(name, tier, True)
    sets = alphabet(name, tier, False)
    if tier == "thorough":
        for r in itertools.product(full, repeat=2):
            if r == ("V", "W"):
                continue  # the derivatives belong to the earlier number of outputs
            yield (first,) + r
    else:
        for r in full:
            yield (first, r)
        if first in sets:
            for r in itertools.product([s for s in sets if s in ("A", "C", "D", "E")], repeat=2):
                yield (first,) + r


def cases(tier):
    out = []
    for name in ALL:
        for first in [s for s in alphabet(name, tier, True) if s not in ("U", "N", "O", "V", "W")]:
            out.append({"model": name, "first": first, "tier": tier, "key": "C01/%s/%s" % (name, first)})
    slow = ["GENN", "MFKPLSK", "MGP", "RMTB", "RMTC", "KRG-tnc", "RMTC-ex", "RMTB-lin"] + [n for n in ALL if n.startswith("MFK2")]
    out.sort(key=lambda c: (c["model"] not in slow))
    return out


XQ = {1: np.array([[0.31], [0.77]]), 2: np.array([[0.31, 0.62], [0.83, 0.17]]), 3: np.array([[0.31, 0.62, 0.2], [0.83, 0.17, 0.9]])}


def run(case, R):
    name = case["model"]
    fresh_cache = {}

    def fresh(did, upd, opt):
        k = (did, upd, opt)
        if k not in fresh_cache:
            nt, nx, ny, sk, s = DATA[did]
            x, y = dataset(nt, nx, ny, sk, s)
            if upd in ("U", "V"):
                ny = 3 - ny if upd == "V" else ny
                y = fun(x, ny, s + 0.7)
            sm = make(name, nx, **(ALT[name] if opt else {}))
            np.random.seed(5)
            feed(name, sm, x, y, s)
            if "W" in str(upd):
                if upd == "UW":
                    sm.update_training_values(fun(x, ny, s + 0.7))
                for k2 in range(nx):
                    sm.set_training_derivatives(x, dfun(x, k2, ny, s + 0.4), k2)
            r = attempt(sm.train)
            fresh_cache[k] = (r, answers(sm, XQ[nx]) if r[0] == "ok" else None)
            R.ev()
        return fresh_cache[k]

    for seq in sequences(name, case["tier"], case["first"]):
        for query in ((True,) if case["tier"] == "quick" and len(seq) == 3 else (True, False)):
            did, upd, opt = None, False, False
            sm = None
            ntrain = 0
            for step, op in enumerate(seq):
                last = step == len(seq) - 1
                twice = False
                if op.endswith("!"):
                    twice, op = True, op[0]
                if op in DATA:
                    did, upd = op, False
                    nt, nx, ny, sk, s = DATA[did]
                    x, y = dataset(nt, nx, ny, sk, s)
                    if sm is None:
                        sm = make(name, nx)
                        if "xlimits" in ALL[name][1](nx):
                            pass
                    elif "xlimits" in ALL[name][1](nx):
                        sm.options["xlimits"] = unit(nx)  # the user must give limits for the new dimension
                    feed(name, sm, x, y, s)
                elif op == "U":
                    sm.update_training_values(fun(dataset(*_d(did))[0], DATA[did][2], DATA[did][4] + 0.7))
                    upd = "UW" if "W" in str(upd) else "U"
                elif op == "V":
                    x = dataset(*_d(did))[0]
                    sm.update_training_values(fun(x, 3 - DATA[did][2], DATA[did][4] + 0.7))
                    upd = "V"
                elif op == "W":
                    x = dataset(*_d(did))[0]
                    for k2 in range(DATA[did][1]):
                        sm.update_training_derivatives(dfun(x, k2, DATA[did][2], DATA[did][4] + 0.4), k2)
                    upd = "UW" if "U" in str(upd) else "W"
                elif op == "O":
                    opt = not opt
                    base = ALL[name][1](DATA[did][1])
                    probe = make(name, DATA[did][1])
                    for k2, v2 in ALT[name].items():
                        sm.options[k2] = v2 if opt else base.get(k2, probe.options[k2])
                np.random.seed(5)
                r = attempt(sm.train)
                if twice and r[0] == "ok":
                    np.random.seed(5)
                    r = attempt(sm.train)
                    ntrain += 1
                ntrain += 1
                R.tr(2 if not twice else 3)
                R.ev()
                fr, fa = fresh(did, upd, opt)
                hist = ">".join(seq[: step + 1])
                key = "C01/%s/%s%s" % (name, hist, "" if query else "/noquery")
                if not R.check(r[0] == fr[0] and (r[0] == "ok" or r[1] == fr[1]), key, "train gives %s, a fresh model gives %s" % (r if r[0] == "exc" else "ok", fr if fr[0] == "exc" else "ok")):
                    break
                if r[0] == "exc":
                    break
                if query or last:
                    a = answers(sm, XQ[DATA[did][1]])
                    R.tr(len(a))
                    bad = diff(a, fa, 1e-6, 1e-8)
                    R.state(name, did, upd, opt, {k: (v[0], np.round(v[1], 6).tobytes() if v[0] == "ok" else v[1]) for k, v in a.items()})
                    if ntrain > 1:
                        R.nt(name, seq, step, query)
                    if not R.check(not bad, key, "after history %s, %s differ from a fresh model" % (hist, bad), got=[a[b] for b in bad[:2]], want=[fa[b] for b in bad[:2]]):
                        break
                    R.trace()


def _d(did):
    nt, nx, ny, sk, s = DATA[did]
    return nt, nx, ny, sk, s

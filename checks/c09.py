"""C09: every sequence of optimizer outcomes (up to a length, the last one repeating) is scripted and the real training run on it."""
import contextlib, io, itertools
import numpy as np
import scipy.optimize as so
from vlib.smtlib import *
from vlib import gpref
from checks import c07

ID = "C09"
LEVEL = "model_checking"
RULE = ("every sequence of length 1..L over the outcomes of one optimizer call {returns the best (not reporting success) / a middling / a poor candidate, returns a poor one after evaluating the best, raises after a climb of two evaluations, returns a candidate with a singular correlation matrix "
        "(with or without having evaluated a usable one), returns a point outside the bounds, raises ValueError (before or after an evaluation), returns NaN}, the last outcome repeating forever; model configurations x optimizers x noise modes. "
        "The trained state must be the textbook model at the parameters reported, within the bounds, and at least as likely as every in-bounds candidate returned. The search starts at theta0, and the second search of KPLSK at the equivalent of what the first one found (same likelihood), for every lattice start and answer. Also real Cobyla and TNC runs on a lattice of bounds and starting points. "
        "Non-trivial: sequences with at least one failure")
BOUNDS = {"quick": "L=2 (L=3 for KRG/Cobyla)", "thorough": "L=3 (L=4 for KRG/Cobyla)"}
ASSUMPTIONS = ["the optimizer reports the objective value at the point it returns", "the optimizer eventually repeats one outcome"]
TIMEOUT = 600

BAD, OUT_HI, OUT_LO = np.log10(1.05e-6), 3.0, -9.0  # singular correlation matrix, outside the bounds
LEVELS = {"good": 0.2, "mid": 0.9, "poor": 1.29}
ALPHA = ("good", "mid", "poor", "visit-poor", "climb-err", "visitout-mid", "inf", "visit-inf", "out-hi", "out-lo", "err", "visit-err", "nan")


def configs(tier):
    out = []
    for model, opt in (("KRG", "Cobyla"), ("KRG", "TNC"), ("KPLS", "Cobyla"), ("KPLSK", "Cobyla"), ("KPLSK", "TNC")):
        for noise in ("none", "eval", "heteval"):
            if noise != "none" and opt == "TNC":
                continue
            for nx in (1, 2):
                out.append((model, opt, noise, nx))
    return out


def cases(tier):
    out = []
    for model, opt, noise, nx in configs(tier):
        L = (2 if tier == "quick" else 3) + (1 if (model, opt) == ("KRG", "Cobyla") and nx == 1 else 0)
        for first in ALPHA:
            out.append(dict(part="script", model=model, corr="squar_exp", poly="constant", opt=opt, noise=noise, nx=nx, ny=1, L=L, first=first, tier=tier, key="C09/%s/%s/%s/nx%d/%s" % (model, opt, noise, nx, first)))
    for cls in ("KRG", "KPLS", "KPLSK", "MGP", "MFK"):
        for nx in (1, 2, 3):
            for tb in ([1e-6, 20.0], [1e-2, 1.0], [0.5, 0.7]):
                if cls == "MGP" and tb[1] < 1:
                    continue
                out.append(dict(part="real", cls=cls, nx=nx, tb=tb, tier=tier, key="C09/real/%s/nx%d/%s" % (cls, nx, tb)))
    for cls in ("KRG", "KPLS", "KPLSK", "MFKPLSK"):
        for nx in (1, 2, 3):
            out.append(dict(part="start", cls=cls, nx=nx, tier=tier, key="C09/start/%s/nx%d" % (cls, nx)))
    return out


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["run_" + case["part"]](case, R)


class Outcomes:
    def __init__(self, seq, d, noise):
        self.seq, self.d, self.noise, self.n = seq, d, noise, 0
        self.ret = []  # parameters returned, per dimension of the search (the stages of KPLSK differ)

    def pt(self, v, x0):
        x = np.full(len(x0), float(v))
        if self.noise == "eval":
            x[-1] = -2.0 if v not in (BAD,) else -12.5
        return x

    def __call__(self, real, fun, x0, *a, **k):
        x0 = np.array(x0, float).ravel()
        if self.n > 400:
            raise RuntimeError("too many optimizer calls")
        o = self.seq[min(self.n, len(self.seq) - 1)]
        self.n += 1
        if o == "climb-err":
            fun(self.pt(LEVELS["mid"], x0)), fun(self.pt(LEVELS["good"], x0))
            o = "err"
        elif o.startswith("visit-"):
            fun(self.pt(LEVELS["good"], x0))
            o = o[6:]
        elif o.startswith("visitout-"):
            fun(self.pt(OUT_HI, x0))
            o = o[9:]
        if o == "err":
            raise ValueError("scripted failure")
        if o == "nan":
            x = np.full(len(x0), np.nan)
            try:
                f = fun(x)
            except Exception:
                f = np.inf
            return so.OptimizeResult(x=x, fun=f, success=False, nfev=1, status=4, message="scripted")
        x = self.pt({"inf": BAD, "out-hi": OUT_HI, "out-lo": OUT_LO}.get(o, LEVELS.get(o)), x0)
        f = fun(x)
        self.ret.append((o, x, float(np.ravel(f)[0])))
        return so.OptimizeResult(x=x.copy(), fun=f, success=o in ("mid", "poor"), nfev=1, status=0 if o != "good" else 3, message="scripted")


def run_script(case, R):
    nx = case["nx"]
    nt = 9 + 4 * (nx - 1)
    x = halton(nt, nx, 1)
    y = fun(x * 2) + 0.3 * np.sin(9 * x[:, :1])
    if case["noise"] == "heteval":
        x, y = np.vstack([x, x[:2]]), np.vstack([y, y[:2] + 0.07])
    xq = np.vstack([halton(4, nx, 40), x[:1]])
    case["n_comp"] = 1
    for n in range(0, case["L"]):
        for rest in itertools.product(ALPHA, repeat=n):
            seq = (case["first"],) + rest
            if len(seq) > 1 and seq[-1] == seq[-2]:
                continue  # the last outcome repeats anyway
            key = "%s/%s" % (case["key"], ",".join(seq))
            tb = [1e-6, 20.0]
            sm, o = c07.build(case, x, y, hyper_opt=case["opt"])
            sm.options["theta_bounds"] = tb
            out = Outcomes(seq, nx, case["noise"])
            np.random.seed(2)
            with seams.minimize_hook(out):
                r = attempt(sm.train)
            R.ev(), R.tr(out.n), R.trace(), R.state(key)
            if set(seq) & {"inf", "visit-inf", "err", "visit-err", "climb-err", "nan", "out-hi", "out-lo", "visit-poor"}:
                R.nt(key)
            if not R.check(out.n <= 400, key + "/terminates", "more than 400 optimizer calls"):
                continue
            if r[0] == "exc":
                # raising is right only if no call returned a usable candidate at the last stage
                ok = any(q in ("good", "mid", "poor", "visit-poor", "visitout-mid") for q in seq)
                R.check(not ok or case["noise"] == "heteval" or raises_ok(seq, case), key + "/raises", "training raises %s although the optimizer returned a usable candidate" % r[1])
                R.count("raised")
                continue
            R.count("trained")
            th = np.asarray(sm.optimal_theta, float).ravel()
            want = nx if case["model"] != "KPLS" else 1
            if not R.check(len(th) == want and np.all(np.isfinite(th)), key + "/theta", "reports %s" % th):
                continue
            R.check(np.all(th >= tb[0] * (1 - 1e-9)) and np.all(th <= tb[1] * (1 + 1e-9)), key + "/bounds", "theta %s outside %s" % (th, tb))
            if case["noise"] == "eval":
                nz = float(np.ravel(sm.optimal_noise)[0])
                nb = sm.options["noise_bounds"]
                R.check(nb[0] * (1 - 1e-9) <= nz <= nb[1] * (1 + 1e-9), key + "/noise-bounds", "noise %s outside its bounds" % nz)
            k2 = key
            r = attempt(c07.judge, case, sm, o, x, y, xq, R, k2)
            if not R.check(r[0] == "ok", key + "/usable", "the trained model raises %s" % (r[1],)):
                continue
            ref = c07.reference(case, sm, o, x, y, th)[0]
            mine = ref.neg_log_lik()
            for oo, p, f in out.ret:
                if len(p) - (case["noise"] == "eval") != len(th) or (oo in ("out-hi", "out-lo", "inf")) or not np.isfinite(f) or (case["model"] == "KPLSK" and stage1(out, p, case)):
                    continue
                th2 = 10 ** p[: len(th)]
                s2 = sm.optimal_noise
                if case["noise"] == "eval":
                    sm.optimal_noise = 10 ** p[-1]
                c = c07.reference(case, sm, o, x, y, th2)[0].neg_log_lik()
                sm.optimal_noise = s2
                R.check(mine <= c + 1e-6 * max(1, abs(c)), key + "/best", "kept parameters with likelihood measure %.6g although the optimizer returned %s with %.6g" % (mine, th2, c))


def stage1(out, p, case):
    """KPLSK searches twice; with one input both stages have one parameter, and only the second one counts"""
    if case["nx"] > 1:
        return False
    i = [id(q[1]) for q in out.ret].index(id(p))
    return i == 0 or (case["opt"] == "TNC" and i <= 1)


def raises_ok(seq, case):
    """KPLSK consumes usable answers in its first stage and may then meet only failures"""
    fail = ("inf", "err", "nan", "out-lo", "visit-inf", "visit-err", "climb-err")
    return case["model"] == "KPLSK" and seq[-1] in fail or (case["opt"] == "TNC" and seq[-1] in fail)


def run_real(case, R):
    tb, nx = case["tb"], case["nx"]
    for nt in (5, 9) if case["tier"] == "quick" else (5, 9, 14):
        for s in (0, 2) if case["tier"] == "quick" else (0, 1, 2, 3):
            for t0 in (tb[0], tb[1], float(np.sqrt(tb[0] * tb[1]))):
                for corr in ("squar_exp", "abs_exp"):
                    for opt in ("Cobyla", "TNC"):
                        for noise in (False, True):
                            if (noise and opt == "TNC") or (case["cls"] in ("KPLSK", "MGP") and corr == "abs_exp") or (case["cls"] == "MGP" and (opt == "Cobyla" or noise)):
                                continue
                            cls = {"KRG": KRG, "KPLS": KPLS, "KPLSK": KPLSK, "MGP": MGP, "MFK": MFK}[case["cls"]]
                            o = dict(theta_bounds=tb, theta0=[t0], print_global=False)
                            if cls is not MGP:
                                o.update(corr=corr, hyper_opt=opt, eval_noise=noise)
                            x = halton(nt, nx, 1 + s)
                            y = fun(x * (1 + s))
                            key = "%s/nt%d/s%d/t0=%g/%s/%s/%s" % (case["key"], nt, s, t0, corr, opt, noise)
                            sm = cls(**o)
                            if cls is MFK:
                                sm.set_training_values(np.vstack([halton(nt, nx, 21), x]), fun(np.vstack([halton(nt, nx, 21), x])), name=0)
                            sm.set_training_values(x, y)
                            np.random.seed(3)
                            r = attempt(sm.train)
                            R.ev(), R.tr(), R.state(key)
                            if r[0] == "exc":
                                R.count("raised")
                                continue
                            R.count("trained"), R.nt(key)
                            for th in (sm.optimal_theta if cls is MFK else [sm.optimal_theta]):
                                th = np.asarray(th, float).ravel()
                                lo = -tb[1] if cls is MGP else tb[0]
                                R.check(np.all(th >= lo - 1e-9 * abs(lo)) and np.all(th <= tb[1] * (1 + 1e-9)), key + "/bounds", "theta %s outside %s" % (th, tb))
                            if noise:
                                for nz in np.ravel(sm.optimal_noise_all if cls is MFK else sm.optimal_noise):
                                    nb = sm.options["noise_bounds"]
                                    R.check(nb[0] * (1 - 1e-9) <= float(np.ravel(nz)[0]) <= nb[1] * (1 + 1e-9), key + "/noise-bounds", "noise %s outside its bounds" % nz)
                            v = attempt(sm.predict_values, halton(3, nx, 50))
                            R.check(v[0] == "ok" and np.all(np.isfinite(v[1])), key + "/usable", "the trained model does not predict: %s" % (v[1],))
                            # the result is at least as likely as the starting point
                            if cls is KRG and not noise:
                                ref = lambda t: gpref.UK(x, y, corr, t, "constant", 100 * np.finfo(float).eps)
                                a, b = ref(np.ravel(sm.optimal_theta)), ref(np.full(nx, t0))
                                if max(a.cond, b.cond) < 1e11:
                                    R.check(a.neg_log_lik() <= b.neg_log_lik() + 1e-6 * abs(b.neg_log_lik()) + 1e-6, key + "/start", "ends at %.6g, worse than its starting point %.6g" % (a.neg_log_lik(), b.neg_log_lik()))


class Starts:
    """an optimizer that answers the first search with a scripted point and the following ones with their own start"""

    def __init__(self, first):
        self.first, self.seen = first, []

    def __call__(self, real, fun, x0, *a, **k):
        x0 = np.array(x0, float).ravel()
        x = np.array(self.first, float)[: len(x0)] if not self.seen else x0
        f = float(np.ravel(fun(x.copy()))[0])
        self.seen.append((x0, float(np.ravel(fun(x0.copy()))[0]), x, f))
        return so.OptimizeResult(x=x.copy(), fun=f, success=True, nfev=1, status=0, message="scripted")


def run_start(case, R):
    """the search starts where the user says; the second search of KPLSK starts at the equivalent of what the first one found"""
    nx, cls = case["nx"], case["cls"]
    nt = 8 + 3 * nx
    x = halton(nt, nx, 1) * np.array([2.0, 0.7, 3.0])[:nx]
    y = fun(halton(nt, nx, 1) * 2, 1, 0.3)
    for nc in range(1, (1 if cls == "KRG" else nx) + 1):
        n = nx if cls == "KRG" else nc
        for noise in (dict(), dict(noise0=[1e-2]), dict(nugget=1e-4)):
            for start in itertools.product((0.03, 0.4, 2.5), repeat=n):
                for first in itertools.product((-0.7, 0.1, 0.8), repeat=n) if cls in ("KPLSK", "MFKPLSK") else [(0.1,) * n]:
                    key = "%s/nc%d/%s/%s/%s" % (case["key"], nc, ",".join(noise), start, first)
                    o = dict(noise, theta0=list(start), print_global=False, theta_bounds=[1e-6, 50.0])
                    if cls != "KRG":
                        o["n_comp"] = nc
                    hook = Starts(first)
                    sm = {"KRG": KRG, "KPLS": KPLS, "KPLSK": KPLSK, "MFKPLSK": MFKPLSK}[cls](**o)
                    sm.set_training_values(x, y)
                    with seams.minimize_hook(hook):
                        r = attempt(sm.train)
                    R.ev(), R.tr(len(hook.seen)), R.state(key), R.trace()
                    if not R.check(r[0] == "ok" and len(hook.seen) >= 1, key + "/trains", "the training gives %s after %d searches" % (r[1], len(hook.seen))):
                        continue
                    R.check(close(hook.seen[0][0], np.log10(start), 1e-9), key + "/theta0", "the search starts at %s, theta0 is %s" % (10 ** hook.seen[0][0], start))
                    if cls in ("KPLSK", "MFKPLSK"):
                        R.nt(key)
                        if not R.check(len(hook.seen) == 2 and len(hook.seen[1][0]) == nx, key + "/stages", "searches in dimensions %s" % [len(h[0]) for h in hook.seen]):
                            continue
                        f1, f2 = hook.seen[0][3], hook.seen[1][1]
                        R.check(abs(f1 - f2) <= 1e-4 * max(1, abs(f1)), key + "/handover", "the first search ends at %.9g, the second one starts at %.9g" % (f1, f2))

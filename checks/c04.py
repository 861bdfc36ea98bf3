"""C04: every public operation is executed with monitored caller objects (arrays in several memory layouts, lists, dicts,
option values); aliasing is explored by mutating each caller array at each point of the history."""
import contextlib, copy, io, itertools
import numpy as np
from vlib.smtlib import *
from vlib import apps

ID = "C04"
LEVEL = "model_checking"
RULE = ("every (model configuration, operation, array layout) with a byte snapshot of every caller object before and after; every (array, point of the history) pair at which the caller overwrites its array, "
        "compared with an undisturbed twin; every mutable option value of every class. Non-trivial: layouts other than C-contiguous, mutations and mutable options")
BOUNDS = {"quick": "28 configurations x 4 layouts x all operations; all single-array mutations at 3 points; applications, samplers, problems, solvers of the package", "thorough": "also nx=1,3"}
ASSUMPTIONS = ["a surrogate object handed to EGO or MixedIntegerSurrogateModel is meant to be trained by it"]
TIMEOUT = 400


def snap(o):
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ("d", tuple((repr(k), snap(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v) for v in o))
    if isinstance(o, (int, float, str, bool, type(None))):
        return (type(o).__name__, repr(o))
    return ("o", id(o))


LAYOUTS = ("C", "F", "strided", "readonly")


def lay(a, l):
    a = np.array(a, dtype=float)
    if l == "F":
        return np.asfortranarray(a)
    if l == "strided":
        w = np.full((2 * a.shape[0],) + tuple(2 * s for s in a.shape[1:]), 77.0)
        v = w[::2, ::2] if a.ndim == 2 else w[::2]
        v[...] = a
        return v
    if l == "readonly":
        a.setflags(write=False)
    return a


MUT = {  # mutable option values per configuration
    "IDW": [dict(p=2.0)], "RBF": [dict(d0=[0.8, 0.9]), dict(d0=np.array([0.8, 0.9]))],
    "RMTB": [dict(num_ctrl_pts=[5, 6], order=[4, 3], smoothness=[1.0, 2.0]), dict(num_ctrl_pts=np.array([5, 6]), smoothness=np.array([1.0, 2.0])), dict(approx_order=2, nonlinear_maxiter=3)],
    "RMTC": [dict(num_elements=[2, 3], smoothness=[1.0, 0.5]), dict(num_elements=np.array([2, 3]))],
    "KRG": [dict(theta0=[0.1, 0.2], theta_bounds=[1e-4, 10.0]), dict(theta0=np.array([0.1, 0.2])), dict(theta0=[0.3]), dict(eval_noise=True, noise0=[1e-3], noise_bounds=[1e-10, 1.0]), dict(noise0=[1e-2]),
            dict(use_het_noise=True, noise0=[1e-3] * 9), dict(use_het_noise=True, eval_noise=True), dict(eval_noise=True, noise0=[1e-3, 1e-3])],
    "KPLS": [dict(theta0=[0.1]), dict(n_comp=2, theta0=[0.1, 0.2]), dict(eval_noise=True, noise0=[1e-3])], "KPLSK": [dict(theta0=[0.1]), dict(n_comp=2, theta0=[0.1, 0.2])],
    "GEKPLS": [dict(theta0=[0.1]), dict(xlimits=np.array([[0.0, 1.0], [0.0, 1.0]]))], "MGP": [dict(theta0=[0.1]), dict(theta_bounds=[1e-3, 10.0])],
    "MFK": [dict(theta0=[0.1, 0.2]), dict(theta0=np.array([[0.1, 0.2]])), dict(noise0=[[1e-3]]), dict(eval_noise=True)], "MFKPLS": [dict(theta0=[0.1])], "MFKPLSK": [dict(theta0=[0.1])],
    "GENN": [dict()],
}


EXTRA = {"MGP": dict(nugget=1e-6)}  # well-conditioned variant: layouts must agree to rounding


def cases(tier):
    out = []
    for name in CONFIGS:
        for nx in ((2,) if tier == "quick" else (1, 2, 3)):
            out.append({"part": "model", "model": name, "nx": nx, "tier": tier, "key": "C04/%s/nx%d" % (name, nx)})
        for i in range(len(MUT.get(name, []))):
            out.append({"part": "opt", "model": name, "i": i, "tier": tier, "key": "C04/opt/%s/%d" % (name, i)})
    for p in ("vfm", "moe", "mfk", "mixint", "ego", "sampling", "problems", "misc"):
        out.append({"part": p, "tier": tier, "key": "C04/" + p})
    out.sort(key=lambda c: not (c["part"] in ("ego", "moe") or c.get("model", "").startswith(("RMT", "GENN"))))
    return out


def run(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        if case["part"] == "model":  # the search is replaced by its starting point: layouts must agree to rounding
            with seams.minimize_hook(seams.frozen):
                run_model(case, R)
        else:
            globals()["run_" + case["part"]](case, R)


class Watch:
    """named caller objects and their snapshots"""

    def __init__(self, R, key):
        self.R, self.key, self.o = R, key, {}

    def __call__(self, name, obj):
        self.o[name] = (obj, snap(obj))
        return obj

    def check(self, when):
        for n, (obj, s) in self.o.items():
            self.R.check(snap(obj) == s, "%s/modified/%s/%s" % (self.key, when, n), "%s was modified by %s: now %s" % (n, when, repr(obj)[:200]))
            self.o[n] = (obj, snap(obj))


def optsnap(o):
    return {k: snap(o._dict[k]) for k in o._dict}


def run_model(case, R):
    name, nx, key = case["model"], case["nx"], case["key"]
    needs, multi = CONFIGS[name][2], CONFIGS[name][3]
    ny = 2 if multi else 1
    x, y = dataset(9 if nx < 3 else 11, nx, ny)
    dy = [dfun(x, k, ny) for k in range(nx)]
    xq = np.vstack([halton(3, nx, 30) * 0.9 + 0.05, x[:1]])

    def build(l, mutate=None, when=None, W=None):
        sm = make(name, nx, **EXTRA.get(name, {}))
        so = optsnap(sm.options)
        A = {"xt": lay(x, l), "yt": lay(y, l), "yt2": lay(y * 1.5, l)}
        if W:
            for n in A:
                W(n, A[n])
        def mess(point):
            if mutate and when == point and A[mutate].flags.writeable:
                A[mutate][...] = 123.0
        np.random.seed(3)
        sm.set_training_values(A["xt"], A["yt"])
        W and W.check("set_training_values")
        if needs:
            for k in range(nx):
                A["xd%d" % k], A["d%d" % k] = lay(x, l), lay(dy[k], l)
                if W:
                    W("xd%d" % k, A["xd%d" % k]), W("d%d" % k, A["d%d" % k])
                sm.set_training_derivatives(A["xd%d" % k], A["d%d" % k], k)
            W and W.check("set_training_derivatives")
        mess("after-set")
        sm.train()
        R.tr(3)
        W and W.check("train")
        mess("after-train")
        a1 = answers(sm, xq)
        sm.update_training_values(A["yt2"])
        W and W.check("update_training_values")
        mess("after-update")
        if case["tier"] == "thorough" or not name.startswith(("GENN", "RMT", "MGP", "MFKPLSK")):
            sm.train()
            a2 = answers(sm, xq)
        else:
            a2 = a1
        so2 = optsnap(sm.options)
        for k in so:
            R.check(so[k] == so2[k], "%s/option/%s" % (key, k), "option %s changed from its set value to %s" % (k, repr(sm.options[k])[:100]))
        return sm, a1, a2, A

    base = None
    for l in LAYOUTS:
        W = Watch(R, key + "/" + l)
        r = attempt(build, l, None, None, W)
        R.ev(), R.trace()
        if l == "readonly" and r[0] == "exc":
            R.fail("%s/%s/raises" % (key, l), "training on read-only arrays raises %s" % (r[1],))
            continue
        if r[0] == "exc":
            build(l, None, None, W)
        sm, a1, a2, A = r[1]
        if base is None:
            base = (a1, a2)
        else:
            R.nt(key, l)
            for a, b in zip(base, (a1, a2)):
                d = diff(a, b, 1e-6 if name not in ("MGP", "GEKPLS") else 1e-3, 1e-8)
                R.check(not d, "%s/%s/layout" % (key, l), "answers %s depend on the memory layout of the training arrays" % d)
        q = W("xq", lay(xq, l))
        calls = {"predict_values": lambda: sm.predict_values(q), "predict_variances": lambda: sm.predict_variances(q), "predict_output_derivatives": lambda: sm.predict_output_derivatives(q),
                 "predict_variance_derivatives": lambda: sm.predict_variance_derivatives(q[:1])}
        for k in range(nx):
            calls["predict_derivatives%d" % k] = lambda k=k: sm.predict_derivatives(q, k)
        for c, f in calls.items():
            r1 = attempt(f)
            R.ev(), R.tr()
            W.check(c)
            if r1[0] == "ok":  # the returned object belongs to the caller
                keep = copy.deepcopy(r1[1])
                for v in (r1[1].values() if isinstance(r1[1], dict) else [r1[1]]):
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = -55.0
                r2 = attempt(f)
                k2 = r2[1] if r2[0] == "ok" else None
                ok = r2[0] == "ok" and (all(close(keep[k], k2[k]) for k in keep) if isinstance(keep, dict) else close(keep, k2))
                R.check(ok, "%s/returned/%s" % (key, c), "overwriting the array returned by %s changes its next answer" % c)
                W.check(c)
    names = ["xt", "yt", "yt2"] + (["xd0", "d0"] if needs else [])
    for m in names:
        for when in ("after-set", "after-train", "after-update"):
            if (m == "yt2") != (when == "after-update") and case["tier"] == "quick" and m == "yt2":
                continue
            sm, a1, a2, A = build("C", m, when)
            R.ev(), R.nt(key, m, when), R.state(key, m, when)
            for a, b in zip(base, (a1, a2)):
                d = diff(a, b, 1e-6 if name not in ("MGP", "GEKPLS") else 1e-3, 1e-8)
                R.check(not d, "%s/alias/%s/%s" % (key, m, when), "overwriting the caller's %s %s changes %s" % (m, when, d))
    # failing trainings leave the options alone
    for bad in (np.nan, np.inf):
        sm = make(name, nx)
        so = optsnap(sm.options)
        yb = y.copy()
        yb[2, 0] = bad
        feed(name, sm, x, y)
        sm.update_training_values(yb)
        if name not in ("GENN",):
            r = attempt(sm.train)
            R.ev()
            for k in so:
                R.check(so[k] == snap(sm.options[k]), "%s/option-after-failure/%s" % (key, k), "option %s changed after a training on %s" % (k, bad))


def run_opt(case, R):
    name, key = case["model"], case["key"]
    W = Watch(R, key)
    o = MUT[name][case["i"]]
    for k in o:
        W(k, o[k])
    sm = make(name, 2, **o)
    W.check("constructor")
    x, y = dataset(9, 2)
    for rnd in range(3):
        feed(name, sm, x, y)
        r = attempt(sm.train)
        R.ev(), R.tr(), R.nt(key, rnd)
        W.check("train%d" % rnd)
        if r[0] == "ok":
            attempt(answers, sm, x[:2])
            W.check("predict%d" % rnd)
        for k in o:
            R.check(snap(sm.options[k]) == W.o[k][1], "%s/readback/%s" % (key, k), "%s reads back %s" % (k, repr(sm.options[k])[:80]))
    R.state(key)
    # a second object given the same values behaves as the first did at first
    s2 = make(name, 2, **MUT[name][case["i"]])
    np.random.seed(3)
    feed(name, s2, x, y)
    attempt(s2.train)
    R.trace()


def run_vfm(case, R):
    import smt.applications.vfm as V
    for typ in ("Additive", "Multiplicative"):
        for lf, br in itertools.product(("LS", "QP", "KRG", "RBF", "GEKPLS"), ("LS", "KRG", "IDW", "GEKPLS")):
            key = "C04/vfm/%s/%s/%s" % (typ, lf, br)
            W = Watch(R, key)
            olf = W("options_LF", dict(print_global=False, **({"deriv": True, "xlimits": unit(2)} if lf == "GEKPLS" else {})))
            obr = W("options_bridge", dict(print_global=False, **({"deriv": True, "xlimits": unit(2)} if br == "GEKPLS" else {})))
            A = dict(X_LF=halton(12, 2, 3), X_HF=halton(9, 2, 1))
            A["y_LF"], A["y_HF"] = apps.lo(A["X_LF"]) + 2, fun(A["X_HF"]) + 2
            A["dy_LF"], A["dy_HF"] = np.hstack([0.7 * dfun(A["X_LF"], k) + (0.4 if k == 0 else 0) for k in (0, 1)]), np.hstack([dfun(A["X_HF"], k) for k in (0, 1)])
            for n in A:
                W(n, A[n])
            mk = lambda: V.VFM(type_bridge=typ, name_model_LF=lf, name_model_bridge=br, options_LF=olf, options_bridge=obr, **A)
            m = mk()
            xq = W("xq", halton(3, 2, 30))
            so = {k: snap(m.options[k]) for k in m.options._dict}
            np.random.seed(1)
            y1 = m.predict_values(xq)
            W.check("training")
            R.ev(), R.nt(key), R.trace()
            for k in so:
                R.check(snap(m.options[k]) == so[k], "%s/option/%s" % (key, k), "option %s changed to %s" % (k, repr(m.options[k])[:80]))
            attempt(m.predict_derivatives, xq, 0), attempt(m.predict_derivatives, xq, None)
            W.check("predict")
            np.random.seed(1)
            r = attempt(lambda: mk().predict_values(xq))
            R.check(r[0] == "ok" and close(r[1], y1, 1e-6), "%s/second" % key, "a second VFM given the same option dictionaries differs: %s" % (r[1],))
            for n in A:
                A[n][...] = 9.0
            R.check(close(m.predict_values(halton(3, 2, 30)), y1), "%s/alias" % key, "overwriting the caller's arrays after training changes the prediction")


def run_moe(case, R):
    for mode in ("set", "options", "test", "sm"):
        key = "C04/moe/" + mode
        W = Watch(R, key)
        x, y = apps.moe_data(2, 24)
        W("x", x), W("y", y)
        allow, deny = W("allow", ["LS", "QP", "RBF"]), W("deny", ["QP"])
        o = dict(allow=allow, deny=deny)
        if mode == "options":
            o.update(xt=x, yt=y)
        if mode == "test":
            o.update(xtest=W("xtest", halton(5, 2, 50)), ytest=W("ytest", fun(halton(5, 2, 50))))

        def mk():
            np.random.seed(4)
            m = (apps.MOESurrogateModel if mode == "sm" else apps.MOE)(**o)
            if mode == "sm":
                m.options["print_global"] = False
            if mode != "options":
                m.set_training_values(x, y)
            return m

        m = mk()
        so = optsnap(m.options)
        m.train()
        W.check("train")
        xq = W("xq", halton(3, 2, 30))
        y1 = m.predict_values(xq)
        W.check("predict")
        R.ev(), R.nt(key), R.trace()
        for k in so:
            R.check(snap(m.options[k]) == so[k], "%s/option/%s" % (key, k), "option %s changed" % k)
        keep = x.copy(), y.copy()
        x[...], y[...] = 5.0, 1.0
        R.check(close(m.predict_values(xq), y1), key + "/alias-train", "overwriting the caller's arrays after training changes the prediction")
        if mode != "options":
            x[...], y[...] = keep
            m = mk()
            x[...], y[...] = 5.0, 1.0
            np.random.seed(4)
            r = attempt(lambda: (m.train(), m.predict_values(xq))[1])
            x[...], y[...] = keep
            m2 = mk()
            np.random.seed(4)
            m2.train()
            R.check(r[0] == "ok" and close(r[1], m2.predict_values(xq)), key + "/alias-set", "overwriting the caller's arrays after set_training_values changes the model")


def run_mfk(case, R):
    for cls in (MFK, MFKPLS, MFKPLSK):
        for o in (dict(), dict(rho_regr="linear"), dict(optim_var=True), dict(eval_noise=True)):
            key = "C04/mfk/%s/%s" % (cls.__name__, ",".join(o))
            W = Watch(R, key)
            kw = dict(o, print_global=False)
            if cls is not MFK:
                kw["n_comp"] = 1
            kw["theta0"] = W("theta0", [0.1] * (2 if cls is MFK else 1))
            sm = cls(**kw)
            xl, xh = W("xl", halton(11, 2, 4)), W("xh", np.vstack([halton(11, 2, 4)[:4], halton(3, 2, 40)]))
            yl, yh = W("yl", apps.lo(xl)), W("yh", fun(xh))
            so = optsnap(sm.options)
            sm.set_training_values(xl, yl, name=0)
            sm.set_training_values(xh, yh)
            pts = {n: [snap(a) for a in sm.training_points[n][0]] for n in sm.training_points}
            r = attempt(sm.train)
            R.ev(), R.nt(key)
            W.check("train")
            if r[0] == "ok":
                q = W("xq", halton(2, 2, 30))
                attempt(sm.predict_values, q), attempt(sm.predict_variances, q), attempt(sm.predict_derivatives, q, 0), attempt(sm.predict_variances_all_levels, q)
                W.check("predict")
            for k in so:
                R.check(snap(sm.options[k]) == so[k], "%s/option/%s" % (key, k), "option %s changed to %s" % (k, repr(sm.options[k])[:80]))
            for n in pts:
                R.check([snap(a) for a in sm.training_points[n][0]] == pts[n], "%s/training_points" % key, "the training points of level %s were changed by training" % n)
            # overwritten between set and train
            def twin(mess):
                s = cls(**dict(kw, theta0=[0.1] * (2 if cls is MFK else 1)))
                a = [xl.copy(), yl.copy(), xh.copy(), yh.copy()]
                s.set_training_values(a[0], a[1], name=0)
                s.set_training_values(a[2], a[3])
                if mess:
                    for b in a:
                        b[...] = 3.0
                s.train()
                return answers(s, halton(2, 2, 30), ("v", "s"))
            if r[0] == "ok" and not o:
                R.check(not diff(twin(False), twin(True), 1e-6), key + "/alias", "overwriting the caller's arrays changes the model")


def run_mixint(case, R):
    from smt.applications.mixed_integer import MixedIntegerContext, MixedIntegerSamplingMethod
    from smt.sampling_methods import LHS, FullFactorial, Random
    for folded in (True, False):
        key = "C04/mixint/%s" % ("folded" if folded else "unfolded")
        W = Watch(R, key)
        xt, xl = W("xtypes", list(apps.XT)), W("xlimits", [list(l) for l in apps.XL])
        ctx = MixedIntegerContext(xt, xl, work_in_folded_space=folded)
        g = apps.mi_grid()
        gu = W("unfolded", ctx.unfold_with_enum_mask(g))
        W("grid", g)
        soft = W("soft", gu * 0.6 + 0.2)
        for n, f in {"fold": lambda: ctx.fold_with_enum_index(soft), "unfold": lambda: ctx.unfold_with_enum_mask(g), "cast": lambda: ctx.cast_to_discrete_values(soft), "mixed": lambda: ctx.cast_to_mixed_integer(g[0]),
                     "enum": lambda: ctx.cast_to_enum_value(2, [0, 1]), "limits": lambda: ctx.get_unfolded_xlimits()}.items():
            f()
            W.check(n)
            R.ev(), R.tr(), R.nt(key, n)
        for S, kw in ((LHS, dict(criterion="c")), (LHS, dict(criterion="ese", random_state=1)), (FullFactorial, dict()), (FullFactorial, dict(weights=W("weights", [0.4, 0.2, 0.2, 0.1, 0.1]))), (Random, dict())):
            W("kw", kw)
            s = ctx.build_sampling_method(S, **kw)
            s(7), s(4)
            W.check("sampling %s" % S.__name__)
            R.ev(2)
        for name in ("KRG", "KPLS", "RBF", "IDW", "LS"):
            xin, yin = W("xin", (g if folded else gu).copy()), W("yin", apps.mi_fun(g))

            def mk(mess):
                sm = ctx.build_surrogate_model(make(name, 5))
                a, b = xin.copy(), yin.copy()
                np.random.seed(1)
                sm.set_training_values(a, b)
                if mess:
                    a[...], b[...] = 1.0, 2.0
                sm.train()
                return sm
            sm = ctx.build_surrogate_model(make(name, 5))
            sm.set_training_values(xin, yin)
            W.check("set " + name)
            sm.train()
            W.check("train " + name)
            q = W("q", (g if folded else soft)[:4].copy())
            sm.predict_values(q), attempt(sm.predict_variances, q)
            W.check("predict " + name)
            R.ev(), R.nt(key, name), R.trace()
            R.check(close(mk(False).predict_values(q), mk(True).predict_values(q), 1e-6), "%s/alias/%s" % (key, name), "overwriting the caller's arrays changes the model")


def run_ego(case, R):
    from smt.applications import EGO
    from smt.applications.ego import Evaluator
    for crit in ("EI", "SBO", "UCB"):
        for par in (1, 2):
            for fail in ("no", "all", "second"):
                key = "C04/ego/%s/p%d/%s" % (crit, par, fail)
                W = Watch(R, key)
                xl = W("xlimits", np.array([[0.0, 1.0], [0.0, 1.0]]))
                xd = W("xdoe", halton(6, 2, 1))
                yd = W("ydoe", fun(xd) + 0.25)
                calls = [0]

                def hook(real, f, x0, *a, **k):
                    import scipy.optimize as so
                    if k.get("method") == "SLSQP":
                        calls[0] += 1
                        bad = fail == "all" or (fail == "second" and calls[0] > 2)
                        return so.OptimizeResult(x=np.array(x0), fun=f(x0), success=not bad)
                    return seams.frozen(real, f, x0)
                ego = EGO(xlimits=xl, xdoe=xd, ydoe=yd, n_iter=3, criterion=crit, n_parallel=par, n_start=2, n_max_optim=2, random_state=3)
                so_ = optsnap(ego.options)
                F = lambda x: fun(x)
                with seams.minimize_hook(hook):
                    r = attempt(ego.optimize, F)
                R.ev(), R.nt(key), R.trace()
                W.check("optimize")
                for k in so_:
                    R.check(snap(ego.options[k]) == so_[k], "%s/option/%s" % (key, k), "option %s changed" % k)


def run_sampling(case, R):
    from smt.sampling_methods import LHS, FullFactorial, Random
    from smt.applications.mfk import NestedLHS
    cfg = [(LHS, dict(criterion=c, random_state=1)) for c in ("center", "maximin", "centermaximin", "correlation", "ese", "c", "m", "cm", "corr")] + [(Random, {}), (FullFactorial, {}), (FullFactorial, dict(clip=True))]
    cfg += [(FullFactorial, dict(weights=w)) for w in ([1, 3], [0.2, 0.8], [2.0, 1.0], np.array([0.3, 0.9]))]
    for i, (S, kw) in enumerate(cfg):
        key = "C04/sampling/%s/%d" % (S.__name__, i)
        W = Watch(R, key)
        xl = W("xlimits", np.array([[-1.0, 2.0], [3.0, 5.0]]))
        W("options", kw)
        s = S(xlimits=xl, **kw)
        before = optsnap(s.options)
        first = None
        for n in (5, 3, 8, 5):
            p = s(n)
            R.ev(), R.tr(), R.nt(key, n)
            W.check("sampling")
            R.check(optsnap(s.options) == before, key + "/options", "an option changed: %s" % [k for k in before if before[k] != optsnap(s.options)[k]])
            if n == 5 and S is not Random:
                if first is None:
                    first = p.copy()
                    p[...] = -9.0
                else:
                    R.check(close(first, p), key + "/returned", "overwriting the returned points changes the next sample")
    W = Watch(R, "C04/sampling/nested")
    xl = W("xlimits", np.array([[-1.0, 2.0], [3.0, 5.0]]))
    NestedLHS(nlevel=3, xlimits=xl)(4)
    W.check("sampling")
    R.ev(), R.trace()


def run_problems(case, R):
    import smt.problems as P
    from smt.problems.problem import Problem
    for n in sorted(dir(P)):
        C = getattr(P, n)
        if not (isinstance(C, type) and issubclass(C, Problem)):
            continue
        for nd in (None, 1, 2, 3):
            def mk():
                if n == "ReducedProblem":
                    return C(P.Sphere(ndim=4), dims=(nd or 2), w=0.2)
                if n == "TensorProduct":
                    return C(ndim=nd or 2, func="tanh")
                if n == "NdimCantileverBeam" or n.startswith("Ndim"):
                    return C(ndim=nd or 1)
                return C(ndim=nd) if nd else C()
            r = attempt(mk)
            if r[0] == "exc":
                R.skip("problem not available in this dimension")
                continue
            p = r[1]
            W = Watch(R, "C04/problems/" + n)
            lim = W("xlimits", p.xlimits)
            x = W("x", lim[:, 0] + halton(4, len(lim)) * (lim[:, 1] - lim[:, 0]))
            o = optsnap(p.options)
            y1 = p(x)
            W.check("call")
            keep = y1.copy()
            y1[...] = 3
            for k in range(x.shape[1]):
                d = p(x, kx=k)
                d[...] = 4
                W.check("derivative")
            R.check(close(keep, p(x)), "C04/problems/%s/returned" % n, "overwriting returned values changes the next evaluation")
            R.check(optsnap(p.options) == o, "C04/problems/%s/options" % n, "options changed")
            R.ev(2 + x.shape[1]), R.nt(n, nd)
    for dims in ([0, 2], np.array([1, 3]), (0, 3), 3):
        W = Watch(R, "C04/problems/Reduced")
        d = W("dims", dims)
        p = P.ReducedProblem(P.Rosenbrock(ndim=4), dims=d, w=0.3)
        p(halton(3, p.options["ndim"]))
        W.check("call")
        R.ev()


def run_misc(case, R):
    from smt.utils.misc import compute_rms_error
    from smt.utils.options_dictionary import OptionsDictionary
    from smt.utils import kriging_utils as ku
    key = "C04/misc"
    x, y = dataset(9, 2)
    for name in ("KRG", "RBF", "LS", "GENN"):
        sm = make(name, 2)
        feed(name, sm, x, y)
        sm.train()
        W = Watch(R, key + "/rms/" + name)
        xe, ye = W("xe", halton(4, 2, 30)), W("ye", fun(halton(4, 2, 30)))
        pts = {k: [snap(a) for a in v] for k, v in sm.training_points[None].items()}
        attempt(compute_rms_error, sm, xe, ye), attempt(compute_rms_error, sm), attempt(compute_rms_error, sm, xe, ye, 0), attempt(compute_rms_error, sm, None, None, 0)
        W.check("compute_rms_error")
        now = {k: [snap(a) for a in v] for k, v in sm.training_points[None].items()}
        R.check({k: now[k] for k in pts if k in now} == pts and set(now) == set(pts), key + "/rms/%s/points" % name, "computing the error changed the training points")
        R.ev(4), R.nt(key, name)
    # the user's dictionary given to update, nested values
    W = Watch(R, key + "/options")
    o = OptionsDictionary()
    o.declare("a", [1, 2]), o.declare("b", None), o.declare("c", 1, types=int)
    d = W("dict", {"a": [3, 4], "b": {"q": 1}, "c": 4})
    o.update(d)
    c = o.clone()
    c["c"] = 9
    W.check("update")
    R.check(o["c"] == 4 and c["c"] == 9, key + "/options/clone", "clone shares values")
    # utilities
    for l in LAYOUTS:
        W = Watch(R, key + "/util/" + l)
        X, Y = W("X", lay(x, l)), W("y", lay(y, l))
        for sc in (False, True):
            r = attempt(ku.standardization, X, Y, scale_X_to_unit=sc)
            R.check(r[0] == "ok", key + "/standardization/" + l, "standardization raises %s" % (r[1],))
            if r[0] == "ok":
                for a in r[1][:2]:
                    a[...] = 0
            W.check("standardization")
        for f in (ku.cross_distances, ku.constant, ku.linear, ku.quadratic):
            attempt(f, X)
            W.check(f.__name__)
        attempt(ku.differences, X, X)
        W.check("differences")
        D = W("D", np.abs(x[:, None, :] - x[None]).reshape(-1, 2))
        th = W("theta", np.array([0.5, 1.5]))
        for corr in ("squar_exp", "abs_exp", "matern52", "matern32"):
            f = getattr(ku, corr)
            for gi, hi in ((None, None), (0, None), (1, 0)):
                f(th, D, gi, hi)
                W.check(corr)
                R.ev(), R.nt(key, corr, gi, hi, l)
            ku.componentwise_distance(D, corr, 2), ku.componentwise_distance(D, corr, 2, th, True)
            ku.componentwise_distance_PLS(D, corr, 1, W("pls", np.array([[0.6], [0.8]])))
            W.check("componentwise_distance")
    R.trace()

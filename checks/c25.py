"""C25: selection and recombination of experts with scripted experts and real ones."""
import contextlib, io, itertools
import numpy as np
from vlib.smtlib import *
from vlib import seams
import smt.applications.moe as moe_mod
from smt.applications.moe import MOE, MOESurrogateModel, MOE_EXPERT_NAMES
from smt.surrogate_models.surrogate_model import SurrogateModel

ID = "C25"
LEVEL = "model_checking"
RULE = ("(enabled) every subset of experts allowed / denied x required capabilities against the declared capabilities; (select) scripted experts: every matrix of errors (experts x clusters; exact, two sizes, exact only at the points trained on, NaN) x hard/smooth x validation data given or not: in every cluster the predictions are those of an expert with the smallest error on points it was not trained on, and the chosen experts end up trained on all points of their cluster (or on no validation point); "
        "(blend) weights observed through experts that answer indicators: non-negative, sum to one, equal the normalised Gaussian mixture densities, hard recombination picks the largest, values and variances are the stated combination, the Heaviside factor is the best of its candidates, near and far from the data, row by row; (real) mixtures of real experts equal the combination of their experts, wrapper and repeated / other training equal a new mixture; (errors) malformed data raise ValueError and a mixture whose training failed does not predict. Non-trivial: two clusters or more")
BOUNDS = {"quick": "all 512 subsets x 4 capability settings (allow), 512 (deny), pairs of subsets of 4; error matrices: 2 experts x 3 clusters, 3 x 2, 3 x 1 of 3-5 kinds; 1-2 inputs; 30-200 points", "thorough": "all matrices of 5 kinds for 3 x 2 and 2 x 3"}
ASSUMPTIONS = ["clusters well separated; the Gaussian mixture is scikit-learn's with a fixed random state"]
TIMEOUT = 700

ERR = {"0": 0.0, "a": 0.5, "b": 1.0, "i": 0.8, "n": np.nan}


def cases(tier):
    th = tier == "thorough"
    out = [dict(kind="enabled", sup=s, part=p, key="C25/enabled/%d/%d" % (s, p)) for s in range(4) for p in range(4)]
    out += [dict(kind="both", sup=s, key="C25/both/%d" % s) for s in range(4)]
    for nE, K in ((3, 1), (2, 2), (3, 2), (2, 3)):
        alpha = "0abin" if th or nE * K <= 4 else "abi"
        mats = ["".join(m) for m in itertools.product(alpha, repeat=nE * K)]
        for smooth, test in itertools.product((0, 1), (0, 1)):
            n = 40 if th else 8
            for p in range(n):
                out.append(dict(kind="select", nE=nE, K=K, alpha=alpha, p=p, n=n, smooth=smooth, test=test, small=p % 2 == 1, key="C25/select/%d-%d/%d%d/%d" % (nE, K, smooth, test, p)))
    for K, nx, smooth, hv, test in itertools.product((1, 2, 3), (1, 2), (0, 1), (0, 1), (0, 1)):
        out.append(dict(kind="blend", K=K, nx=nx, smooth=smooth, hv=hv, test=test, key="C25/blend/%d-%d/%d%d%d" % (K, nx, smooth, hv, test)))
    for a in ("LS", "QP", "KRG", "RBF", "IDW", "KPLS", "KPLSK", "RMTB", "LS QP", "LS KRG", "RBF IDW QP"):
        for K, smooth in itertools.product((1, 2), (0, 1)):
            out.append(dict(kind="real", allow=a.split(), K=K, smooth=smooth, key="C25/real/%s/%d%d" % (a.replace(" ", "-"), K, smooth)))
    for K, nx in ((2, 1), (2, 2), (3, 1)):
        out.append(dict(kind="factor", K=K, nx=nx, key="C25/factor/%d-%d" % (K, nx)))
    out.append(dict(kind="errors", key="C25/errors"))
    return out


class fixed_mixture:
    """scikit-learn's mixture with a fixed random state"""

    def __enter__(self):
        self.old = moe_mod.GaussianMixture

        def make(**k):
            k["random_state"] = 0
            k["n_init"] = 2
            return self.old(**k)

        moe_mod.GaussianMixture = make

    def __exit__(self, *a):
        moe_mod.GaussianMixture = self.old


def run(case, R):
    with fixed_mixture(), contextlib.redirect_stdout(io.StringIO()), seams.minimize_hook(seams.frozen):
        globals()["run_" + case["kind"]](case, R)


# ---- scripted experts
class Plan:
    E = None  # E[expert][cluster]
    K = 1
    log = []
    mode = "error"
    answers = None


def block(x):
    """cluster of a point"""
    return np.clip(np.round(np.asarray(x, float)[:, 0] / 4.0).astype(int), 0, Plan.K - 1)


def truth(x):
    return (np.sin(x).sum(1) + 3.0 * block(x)).reshape(-1, 1)


class Expert(SurrogateModel):
    idx = 0
    name = "E0"

    def _initialize(self):
        super()._initialize()
        self.supports["derivatives"] = self.supports["variances"] = True

    def _train(self):
        X, Y = self.training_points[None][0]
        self.X, self.k = np.array(X), int(np.bincount(block(X)).argmax())
        Plan.log.append((self, np.array(X), np.array(Y)))

    def _predict_values(self, x):
        if Plan.mode == "indicator":
            return np.full((len(x), 1), Plan.answers[self.k])
        c = Plan.E[self.idx][self.k]
        e = np.full((len(x), 1), (-1) ** self.idx * ERR[c])
        if c == "i":
            e[(np.abs(x[:, None] - self.X[None]).max(2) < 1e-12).any(1)] = 0.0
        return truth(x) + e

    def _predict_variances(self, x):
        return np.full((len(x), 1), float(Plan.answers[self.k]) if Plan.mode == "indicator" else 1.0)


class Expert1(Expert):
    idx, name = 1, "E1"


class Expert2(Expert):
    idx, name = 2, "E2"


class Mix(MOE):
    _surrogate_type = dict(zip(("LS", "QP", "KRG"), (Expert, Expert1, Expert2)))


class Mix2(MOE):
    _surrogate_type = dict(zip(("LS", "QP"), (Expert, Expert1)))


def points(K, nx, n=14, skip=1):
    x = np.concatenate([halton(n + k, nx, skip + k) - 0.5 + np.array([4.0 * k] + [0] * (nx - 1)) for k in range(K)])
    return x[np.argsort(np.arange(len(x)) * 7 % len(x), kind="stable")]


def run_select(case, R):
    K, nE = case["K"], case["nE"]
    Plan.K, Plan.mode = K, "error"
    x = points(K, 2, 9) if case["small"] else points(K, 2)
    y = truth(x)
    xt = points(K, 2, 5, 40)
    q = np.array([[4.0 * k + a, b] for k in range(K) for a in (-0.31, 0.0, 0.27) for b in (-0.22, 0.35)])
    for n, mat in enumerate(itertools.product(case["alpha"], repeat=nE * K)):
        if n % case["n"] != case["p"]:
            continue
        Plan.E = [mat[e * K : (e + 1) * K] for e in range(nE)]
        if any(all(Plan.E[e][k] == "n" for e in range(nE)) for k in range(K)):
            continue
        Plan.log = []
        o = dict(n_clusters=K, smooth_recombination=bool(case["smooth"]))
        if case["test"]:
            o.update(xtest=xt, ytest=truth(xt))
        m = (Mix if nE == 3 else Mix2)(**o)
        m.set_training_values(x, y)
        m.train()
        R.ev(), R.tr(), R.trace()
        tag = "%s %s" % (case["key"], "".join(mat))
        R.state(case["key"], mat)
        if K > 1:
            R.nt(case["key"], mat)
        r = np.abs(m.predict_values(q) - truth(q)).ravel()
        want = np.array([min(ERR[Plan.E[e][k]] for e in range(nE) if Plan.E[e][k] != "n") for k in block(q)])
        R.check(np.abs(r - want).max() <= 1e-6, tag + " choice", "an expert with a larger held-out error was chosen", errors=r, want=want)
        last = Plan.log[-K:] if not case["test"] else []
        for e, X, Y in last:
            k = e.k
            full = x[block(x) == k]
            R.check(len(X) == len(full) and np.array_equal(X[np.lexsort(X.T)], full[np.lexsort(full.T)]) and np.array_equal(Y, truth(X)), tag + " refit%d" % k, "the expert of a cluster is not trained on all its points", n=len(X), cluster=len(full))
        R.check(case["test"] or len(set(e.k for e, _, _ in last)) == K, tag + " clusters", "one expert per cluster")
        if case["test"]:
            keys = {tuple(p) for p in x}
            R.check(all(tuple(p) in keys for _, X, _ in Plan.log for p in X), tag + " leak", "validation points were used for training")


def weights(m, x, h):
    g = m.cluster
    K, d = len(g.weights_), x.shape[1]
    L = np.zeros((len(x), K))
    for k in range(K):
        C = h * np.asarray(g.covariances_[k])[:d, :d]
        D = x - g.means_[k][:d]
        L[:, k] = np.log(g.weights_[k]) - 0.5 * (D * np.linalg.solve(C, D.T).T).sum(1) - 0.5 * np.linalg.slogdet(2 * np.pi * C)[1]
    P = np.exp(L - L.max(1, keepdims=True))
    return P / P.sum(1, keepdims=True)


def run_blend(case, R):
    K, nx = case["K"], case["nx"]
    Plan.K, Plan.mode, Plan.E, Plan.log = K, "error", [["a"] * K] * 3, []
    x = points(K, nx)
    # noise at the validation points makes the Heaviside factor matter
    y = truth(x) + 0.2 * np.sin(11 * x[:, :1])
    xt = points(K, nx, 6, 21)
    o = dict(n_clusters=K, smooth_recombination=bool(case["smooth"]), heaviside_optimization=bool(case["hv"]), variances_support=True)
    if case["test"]:
        o.update(xtest=xt, ytest=truth(xt) + 0.2 * np.sin(11 * xt[:, :1]))
    m = Mix(**o)
    m.set_training_values(x, y)
    m.train()
    h = float(m.heaviside_factor)
    if not (case["hv"] and case["smooth"] and K > 1):
        R.check(h == 1.0, case["key"] + " factor", "Heaviside factor not used unless asked for", got=h)
    grid = np.linspace(-3, 4.0 * K, 41 if nx == 1 else 13)
    q = np.array(list(itertools.product(*([grid] + [np.linspace(-2, 2, 5)] * (nx - 1)))) + [[s * t] * nx for s in (-1, 1) for t in (50.0, 1e3, 1e6)])
    W = weights(m, q, h)
    # which mixture component belongs to which block
    comp = [int(block(m.cluster.means_[k][None, :nx])[0]) for k in range(K)]
    Plan.mode = "indicator"
    cols = []
    for k in range(K):
        Plan.answers = [1.0 if j == comp[k] else 0.0 for j in range(K)]
        cols.append(m.predict_values(q).ravel())
        R.ev()
    C = np.array(cols).T
    for i in range(len(q)):
        R.state(case["key"], i)
        if K > 1:
            R.nt(case["key"], i)
    R.trace(len(q))
    R.check(np.all(C >= 0) and np.abs(C.sum(1) - 1).max() <= 1e-12, case["key"] + " sum", "weights are non-negative and sum to one", worst=np.abs(C.sum(1) - 1).max())
    if case["smooth"]:
        R.check(np.abs(C - W).max() <= 1e-8, case["key"] + " weights", "membership weights differ from the mixture's densities", diff=np.abs(C - W).max())
    else:
        clear = np.sort(W, 1)[:, -1] - (np.sort(W, 1)[:, -2] if K > 1 else 0) > 1e-6
        R.check(np.all(np.isin(C, (0.0, 1.0))) and np.array_equal(C[clear].argmax(1), W[clear].argmax(1)), case["key"] + " hard", "hard recombination uses the most probable cluster")
    for ans in itertools.product((0.0, 1.0, -2.5, 1e3), repeat=K):
        Plan.answers = list(ans)
        a = np.array([ans[comp[k]] for k in range(K)])
        v = m.predict_values(q)
        R.ev(), R.tr()
        R.check(v.shape == (len(q), 1) and np.abs(v.ravel() - C @ a).max() <= 1e-9 * max(1, np.abs(a).max()), case["key"] + " values %s" % (ans,), "value is not the combination of the experts")
        if min(ans) >= 0:
            s = np.asarray(m.predict_variances(q))
            R.check(s.shape[0] == len(q) and np.abs(s.ravel() - (C ** 2) @ a).max() <= 1e-9 * max(1, np.abs(a).max()), case["key"] + " variances %s" % (ans,), "variance is not the combination of the experts")
        one = np.concatenate([m.predict_values(q[i : i + 1]) for i in range(0, len(q), 7)])
        R.check(np.abs(one - v[::7]).max() <= 1e-12 * max(1, np.abs(v).max()), case["key"] + " rows %s" % (ans,), "rows of a batch are not independent")
    if case["hv"] and case["smooth"] and K > 1 and case["test"]:
        # the factor minimises the error of the recombination at the validation points
        Plan.mode = "error"
        t, ty = xt, o["ytest"]
        Plan.answers = None
        f = np.array([truth(t).ravel() + 0.5 * 1.0 for _ in range(K)]).T  # every expert answers truth + a
        errs = []
        for hh in np.linspace(0.1, 2.1, 21):
            errs.append(np.linalg.norm(ty.ravel() - (weights(m, t, hh) * f).sum(1)) / np.linalg.norm(ty))
        mine = np.linalg.norm(ty.ravel() - (weights(m, t, h) * f).sum(1)) / np.linalg.norm(ty)
        R.check(mine <= min(errs) + 1e-9, case["key"] + " best factor", "Heaviside factor is not the best", got=h, err=mine, best=min(errs))


def run_factor(case, R):
    """validation values that are exactly the recombination with one of the candidate factors: that factor is found"""
    K, nx = case["K"], case["nx"]
    Plan.K, Plan.log = K, []
    Plan.E = [["0"] * K] * 3
    x = points(K, nx)
    y = truth(x)
    # validation points between the clusters, where the factor matters
    xt = np.array([[4.0 * k + 2.0 + 0.03 * i] + [0.1 * i] * (nx - 1) for k in range(K - 1) for i in range(-5, 6)])
    Plan.mode = "error"
    m0 = Mix(n_clusters=K, smooth_recombination=True, xtest=xt, ytest=truth(xt))
    m0.set_training_values(x, y)
    m0.train()
    comp = [int(block(m0.cluster.means_[k][None, :nx])[0]) for k in range(K)]
    for h, ans in itertools.product(np.linspace(0.1, 2.1, 21), ([1.0, 2.0, 4.0][:K], [3.0, -1.0, 0.5][:K])):
        a = np.array([ans[comp[k]] for k in range(K)])
        yt = weights(m0, xt, h) @ a
        errs = [np.linalg.norm(yt - weights(m0, xt, g) @ a) for g in np.linspace(0.1, 2.1, 21)]
        Plan.mode, Plan.answers = "indicator", list(ans)
        m = Mix(n_clusters=K, smooth_recombination=True, heaviside_optimization=True, xtest=xt, ytest=yt[:, None])
        m.set_training_values(x, y)
        m.train()
        R.ev(), R.tr(21), R.trace()
        k = "%s %.1f/%s" % (case["key"], h, ans)
        R.state(k), R.nt(k)
        if sorted(errs)[1] < 1e-5 * np.linalg.norm(yt):
            R.skip("the factor does not matter")
            continue
        R.check(abs(m.heaviside_factor - h) <= 1e-9, k + " found", "the factor that reproduces the validation values is not the one chosen", got=m.heaviside_factor)
        q = np.concatenate([xt, x])
        R.check(np.abs(m.predict_values(q).ravel() - weights(m, q, h) @ a).max() <= 1e-8, k + " used", "the factor found is not used in the predictions")


CAP = None


def run_enabled(case, R):
    der, var = bool(case["sup"] & 1), bool(case["sup"] & 2)
    protos = {n: MOE._surrogate_type[n]() for n in MOE_EXPERT_NAMES}
    cap = [n for n in MOE_EXPERT_NAMES if (not der or protos[n].supports["derivatives"]) and (not var or protos[n].supports["variances"])]
    for bits in range(512):
        if bits % 4 != case["part"]:
            continue
        sub = [n for i, n in enumerate(MOE_EXPERT_NAMES) if bits >> i & 1]
        for what in ("allow", "deny"):
            want = [n for n in cap if (not sub or (n in sub) == (what == "allow"))]
            r = attempt(lambda: MOE(derivatives_support=der, variances_support=var, **{what: sub}).enabled_experts)
            if r[0] == "ok":
                m = r[1]
            R.ev(), R.tr()
            R.state(case["sup"], what, bits), R.nt(case["sup"], what, bits)
            ok = r == ("exc", "ValueError") if not want else r[0] == "ok" and sorted(r[1]) == sorted(want)
            R.check(ok, "%s %s %s" % (case["key"], what, "-".join(sub)), "enabled experts", want=want, got=r)


def run_both(case, R):
    der, var = bool(case["sup"] & 1), bool(case["sup"] & 2)
    names = ("KRG", "QP", "IDW", "RMTC")
    protos = {n: MOE._surrogate_type[n]() for n in MOE_EXPERT_NAMES}
    cap = [n for n in MOE_EXPERT_NAMES if (not der or protos[n].supports["derivatives"]) and (not var or protos[n].supports["variances"])]
    subs = [[n for i, n in enumerate(names) if b >> i & 1] for b in range(16)]
    for al, de in itertools.product(subs, subs):
        want = [n for n in cap if (not al or n in al) and n not in de]
        r = attempt(lambda: MOE(derivatives_support=der, variances_support=var, allow=al, deny=de).enabled_experts)
        R.ev(), R.tr()
        R.state(case["sup"], tuple(al), tuple(de)), R.nt(case["sup"], tuple(al), tuple(de))
        ok = r == ("exc", "ValueError") if not want else r[0] == "ok" and sorted(r[1]) == sorted(want)
        R.check(ok, "%s %s/%s" % (case["key"], "-".join(al), "-".join(de)), "enabled experts", want=want, got=r)


def rdata(nx, s=0):
    Plan.K = 2
    x = points(2, nx, 24, 1 + s)
    return x, np.where(x[:, :1] < 2, np.sin(2 * x[:, :1]) + s, 3.0 + (x[:, :1] - 4) ** 2) + 0.3 * (x[:, 1:2] if nx > 1 else 0)


def trained(o, D, cls=MOE):
    m = cls(**o)
    if cls is MOESurrogateModel:
        m.options["print_global"] = False
    m.set_training_values(*D)
    m.train()
    return m


def run_real(case, R):
    nx = 2
    var = set(case["allow"]) <= {"KRG", "KPLS", "KPLSK"}
    o = dict(n_clusters=case["K"], smooth_recombination=bool(case["smooth"]), allow=case["allow"], variances_support=var)
    D, D2 = rdata(nx), rdata(nx, 3)
    q = np.concatenate([D[0][::3], np.array(list(itertools.product(np.linspace(-1, 5, 9), (-0.4, 0.3))))])
    a = attempt(lambda: trained(o, D))
    if not R.check(a[0] == "ok", case["key"] + " train", "training fails", got=a):
        return
    m = a[1]
    names = {MOE._surrogate_type[n]().name for n in case["allow"]}
    R.check(len(m._experts) == case["K"] and {e.name for e in m._experts} <= names, case["key"] + " experts", "experts used", got=[e.name for e in m._experts])
    W = weights(m, q, 1.0)
    if not case["smooth"]:
        W = np.eye(case["K"])[W.argmax(1)]
    F = np.array([np.concatenate([e.predict_values(q[i : i + 1]).ravel() for i in range(len(q))]) for e in m._experts]).T
    v = m.predict_values(q)
    sc = max(1, np.abs(F).max())
    R.ev(2), R.trace()
    R.state(case["key"]), R.nt(case["key"])
    R.check(v.shape == (len(q), 1) and np.abs(v.ravel() - (W * F).sum(1)).max() <= 1e-8 * sc, case["key"] + " values", "value is not the combination of the experts", diff=np.abs(v.ravel() - (W * F).sum(1)).max())
    if var:
        S = np.array([np.concatenate([np.ravel(e.predict_variances(q[i : i + 1])) for i in range(len(q))]) for e in m._experts]).T
        s = np.ravel(m.predict_variances(q))
        R.check(np.abs(s - (W ** 2 * S).sum(1)).max() <= 1e-8 * max(1e-6, S.max()), case["key"] + " variances", "variance is not the combination of the experts")
    else:
        R.check(attempt(lambda: m.predict_variances(q))[0] == "exc", case["key"] + " novariance", "variances without variances_support")
    # histories
    for what in ("again", "other", "options", "wrapper", "1d"):
        D3 = D
        if what == "again":
            m2 = trained(o, D)
            m2.train()
        elif what == "other":
            m2 = trained(o, D2)
            m2.set_training_values(*D)
            m2.train()
        elif what == "options":
            o2 = dict(o, n_clusters=3 - case["K"], smooth_recombination=not case["smooth"])
            m2 = trained(o2, D2)
            m2.options.update(o)
            m2.set_training_values(*D)
            m2.train()
        elif what == "wrapper":
            m2 = trained(o, D, MOESurrogateModel)
        else:
            m2 = trained(o, (D[0], D[1].ravel()))
        g = attempt(lambda: m2.predict_values(q))
        R.ev(2), R.tr(2), R.trace()
        R.state(case["key"], what), R.nt(case["key"], what)
        R.check(g[0] == "ok" and g[1].shape == v.shape and np.abs(g[1] - v).max() <= 1e-9 * sc, "%s %s" % (case["key"], what), "training history changes the mixture", got=g[1] if g[0] == "exc" else np.abs(g[1] - v).max())


def run_errors(case, R):
    D = rdata(2)
    x, y = D

    def rej(tag, f, kinds=("ValueError",)):
        r = attempt(f)
        R.ev(), R.tr()
        R.state(tag), R.nt(tag)
        R.check(r[0] == "exc" and (kinds is None or r[1] in kinds), "C25/errors " + tag, "must raise", got=r)

    rej("no data", lambda: MOE(allow=["LS"]).train())
    rej("lengths", lambda: trained(dict(allow=["LS"]), (x, y[:-1])))
    rej("criterion", lambda: trained(dict(allow=["LS"], ct=y[:-2]), D))
    for k in (7, 20):
        rej("clusters %d" % k, lambda: trained(dict(allow=["LS"], n_clusters=k), D))
    rej("no expert", lambda: trained(dict(allow=["nobody"]), D))
    rej("never trained", lambda: MOE(allow=["LS"]).predict_values(x), None)
    m = MOE(allow=["LS"])
    m.set_training_values(x, y)
    rej("not trained yet", lambda: m.predict_values(x), None)
    # one-dimensional inputs are documented
    x1, y1 = rdata(1)
    a = trained(dict(allow=["LS", "QP"]), (x1, y1)).predict_values(x1)
    for tag, d in (("x", (x1.ravel(), y1)), ("xy", (x1.ravel(), y1.ravel()))):
        r = attempt(lambda: trained(dict(allow=["LS", "QP"]), d))
        R.ev(2), R.tr()
        R.state("1d", tag), R.nt("1d", tag)
        if R.check(r[0] == "ok", "C25/errors 1d " + tag, "one-dimensional training arrays", got=r):
            for qq in (x1, x1.ravel()):
                g = attempt(lambda: r[1].predict_values(qq))
                R.check(g[0] == "ok" and g[1].shape == a.shape and np.abs(g[1] - a).max() <= 1e-9, "C25/errors 1d %s %d" % (tag, qq.ndim), "one-dimensional arrays change the predictions", got=g)
    # a training that fails half way
    for at in (0, 1):
        for cls in (MOE, MOESurrogateModel):
            for before in (0, 1):
                n = [0]
                old = LS._train

                def bad(self, *a, **k):
                    n[0] += 1
                    if n[0] > at + (2 if at else 0):
                        raise RuntimeError("scripted")
                    return old(self, *a, **k)

                m = cls(allow=["LS"], n_clusters=2)
                if cls is MOESurrogateModel:
                    m.options["print_global"] = False
                m.set_training_values(x, y)
                if before:
                    m.train()
                LS._train = bad
                try:
                    r = attempt(m.train)
                finally:
                    LS._train = old
                tag = "failed training %d %s %d" % (at, cls.__name__, before)
                R.check(r[0] == "exc", "C25/errors %s train" % tag, "the error of an expert is hidden", got=r)
                rej(tag, lambda: m.predict_values(x), None)
                r = attempt(lambda: (m.train(), m.predict_values(x)))
                R.check(r[0] == "ok", "C25/errors %s recover" % tag, "training again after a failure", got=r)

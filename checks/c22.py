"""C22: EGO's acquisition criteria, choice of the next point and virtual values."""
import itertools, math, warnings
import numpy as np
from vlib.smtlib import *
from vlib import egox
from checks import c21
from smt.applications import EGO

ID = "C22"
LEVEL = "model_checking"
RULE = ("(formula) EI, SBO and UCB of every batch of 1..3 (mean, deviation) pairs of a lattice including zero deviations, for several best values, against the closed forms: one value per point, finite, non-negative, batches equal single points; tunneling between zero and EI and equal to the documented penalised value away from data; "
        "(explore) under every sequence of answers of the internal optimizer, the function handed to it equals minus EI / SBO / UCB of the data known so far (virtual values included) at lattice points and at the data, the point added is the successful answer with the smallest objective, and the training data that follow hold exactly the virtual value of the qEI rule. Non-trivial: zero deviations, several successes, virtual points")
BOUNDS = {"quick": "formula: 36 pairs, all singles and pairs and a third of triples x 3 best values; explore: n_start<=3 (4 answers), (n_iter,n_parallel) in {(2,1),(1,2),(1,3),(2,2)} (3 answers) x 3 criteria x 5 rules x 4 spaces", "thorough": "all triples; 6 answers, 4 objectives"}
ASSUMPTIONS = ["cheap surrogate subclass of KRG, fixed sampling designs"]
TIMEOUT = 700

MEANS = (-2.0, -0.1, 0.0, 0.3, 1.0, 50.0)
SIGS = (0.0, 1e-9, 0.05, 0.3, 1.0, 10.0)


def cases(tier):
    th = tier == "thorough"
    out = []
    for f in (0.0, 0.3, -7.0):
        for part in range(8):
            out.append(dict(kind="formula", f=f, part=part, th=th, key="C22/formula/%s/%d" % (f, part)))
    for nx, npts in itertools.product((1, 2), (1, 2, 3, 5)):
        out.append(dict(kind="tunnel", nx=nx, npts=npts, key="C22/tunnel/%d-%d" % (nx, npts)))
    for ns, cr, sp in itertools.product((1, 2, 3), c21.CRIT, ("x1", "x2", "fe", "i1")):
        for ob in egox.OBJ if th else ("quad", "wave"):
            out.append(dict(kind="explore", space=sp, obj=ob, kinds=("a", "b", "hi", "failgood") if not th or ns == 3 else ("a", "b", "hi", "x0", "failgood", "raise"), opts=dict(n_start=ns, n_max_optim=2 if ns < 3 else 1, criterion=cr), key="C22/choice/%s/%s/%s/%d" % (cr, sp, ob, ns)))
    for (ni, npar), cr, q, sp in itertools.product(((2, 1), (1, 2), (1, 3), (2, 2)), c21.CRIT, c21.QEI, ("x1", "x2", "fe", "i1")):
        for tun in (False, True) if cr == "EI" else (False,):
            for improving in (False, True) if (ni, npar) == (2, 2) else (False,):
                # improving: the answers of the first iteration may be better than the whole design
                out.append(dict(kind="explore", space=sp, obj="dec" if improving else "quad" if npar % 2 else "wave", kinds=("a", "hi" if improving else "lo", "fail"), doe="xdoe" if npar > 1 else "n_doe", opts=dict(n_iter=ni, n_parallel=npar, criterion=cr, qEI=q, enable_tunneling=tun), key="C22/virtual/" + "improving/" * improving + "%s%s/%s/%s/%d-%d" % (cr, "t" if tun else "", q, sp, ni, npar)))
    return out


def run(case, R):
    globals()["run_" + case["kind"]](case, R)


class GP:
    def __init__(self, mean, sig):
        self.m, self.s = np.array(mean, float), np.array(sig, float)

    def predict_values(self, x):
        return self.m[np.asarray(x)[:, 0].astype(int)].reshape(-1, 1).copy()

    def predict_variances(self, x):
        return (self.s[np.asarray(x)[:, 0].astype(int)] ** 2).reshape(-1, 1)


def ei1(m, s, f):
    if s == 0:
        return 0.0
    z = (f - m) / s
    return max(0.0, (f - m) * 0.5 * math.erfc(-z / math.sqrt(2)) + s * math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi))


def new_ego(**o):
    return EGO(n_iter=1, xlimits=np.array([[0.0, 1.0]]), n_doe=3, criterion="EI", **o)


def run_formula(case, R):
    f, part = case["f"], case["part"]
    pairs = list(itertools.product(MEANS, SIGS))
    gp = GP([p[0] for p in pairs], [p[1] for p in pairs])
    ego = new_ego()
    ego.gpr = gp
    ydata = np.array([[f + 2.0], [f], [f + 0.5]])
    n = len(pairs)
    for k, combo in enumerate(itertools.chain(*(itertools.product(range(n), repeat=r) for r in (1, 2, 3)))):
        if len(combo) == 3 and not case["th"] and sum(combo) % 3:
            continue
        if k % 8 != part:
            continue
        x = np.array(combo, float).reshape(-1, 1)
        y0 = ydata.copy()
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            e, s, u = ego.EI(x, ydata), ego.SBO(x), ego.UCB(x)
        R.ev(3)
        R.state(f, combo)
        sigs = [pairs[i][1] for i in combo]
        if len(combo) > 1 and 0.0 in sigs:
            R.nt(f, combo)
        tag = case["key"] + " " + "-".join("%s,%s" % pairs[i] for i in combo)
        R.check(np.array_equal(ydata, y0), tag + " arg", "y_data modified")
        if not R.check(np.size(e) == len(combo), tag + " size", "one EI per point", got=np.shape(e)):
            continue
        e = np.ravel(np.asarray(e, float))
        for i, j in enumerate(combo):
            m, sg = pairs[j]
            w = ei1(m, sg, f)
            ok = np.isfinite(e[i]) and abs(e[i] - w) <= 1e-9 * max(1.0, abs(w), abs(f - m))
            R.check(ok, "C22/formula EI mean=%s sig=%s f=%s n=%d" % (m, sg, f, len(combo)), "expected improvement", expected=w, got=e[i], batch=combo)
        mm, ss = gp.m[list(combo)], gp.s[list(combo)]
        R.check(np.allclose(np.ravel(s), mm, rtol=1e-14, atol=0), tag + " SBO", "SBO is not the mean", got=s)
        R.check(np.allclose(np.ravel(u), mm - 3 * ss, rtol=1e-12, atol=1e-12), tag + " UCB", "UCB is not mean - 3 sigma", got=u)


class GPX:
    """stub surrogate over data"""

    def __init__(self, X, Y):
        self.X, self.Y = X, Y

    def predict_values(self, x):
        return egox.smean(self.X, self.Y, np.asarray(x, float))

    def predict_variances(self, x):
        return egox.ssig(self.X, np.asarray(x, float)) ** 2


def ei_data(X, Y, x):
    m, s = egox.smean(X, Y, x).ravel(), egox.ssig(X, x).ravel()
    return np.array([ei1(a, b, Y.min()) for a, b in zip(m, s)])


def tun_data(X, Y, x):
    base = ei_data(X, Y, x)
    eX = ei_data(X, Y, X)
    out = []
    for i in range(len(x)):
        d = np.linalg.norm(x[i] - X, axis=1)
        if (d == 0).any():
            out.append(None)
            continue
        out.append(max(0.0, base[i] - np.maximum((base[i] - eX) / d ** 4, 0).sum()))
    return base, out


def run_tunnel(case, R):
    nx = case["nx"]
    for skip in (1, 4):
        X = 3 * halton(4, nx, skip)
        for ob in egox.OBJ:
            Y = egox.OBJ[ob](X)
            ego = new_ego()
            ego.gpr = GPX(X, Y)
            cand = np.concatenate([np.array(list(itertools.product((0.0, 0.7, 1.4, 2.6, 30.0), repeat=nx))), X])
            for k in range(len(cand)):
                x = cand[(k + 3 * np.arange(case["npts"])) % len(cand)]
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    e = ego.EI(x.copy(), Y, True, X)
                R.ev()
                R.state(nx, skip, ob, k, case["npts"])
                e = np.ravel(np.asarray(e, float))
                base, want = tun_data(X, Y, x)
                tag = "%s %s/%d/%d" % (case["key"], ob, skip, k)
                if not R.check(len(e) == len(x) and np.all(np.isfinite(e)), tag + " finite", "penalised EI finite, one per point", got=e):
                    continue
                R.check(np.all(e >= 0) and np.all(e <= base * (1 + 1e-9) + 1e-12), tag + " bound", "0 <= penalised EI <= EI", got=e, ei=base)
                for i in range(len(x)):
                    if want[i] is None:
                        R.nt(nx, skip, ob, k, i)
                        continue
                    R.check(abs(e[i] - want[i]) <= 1e-7 * max(1.0, base[i]), tag + " value %d" % i, "penalised EI", got=e[i], want=want[i])


def run_explore(case, R):
    kinds = tuple(case["kinds"])
    sp, crit, q = case["space"], case["opts"]["criterion"], case["opts"].get("qEI", "KBLB")
    tun = case["opts"].get("enable_tunneling", False)
    confs = []

    def body(prefix):
        probes = []

        def capture(r, fun, x0, k):
            X, Y = r.stub.log[-1]
            U = r.U
            pts = [x0, X[-1], X[0], U[:, 0] + (U[:, 1] - U[:, 0]) * 0.37, U[:, 1]]
            i = len(r.taken)
            pts = pts[:2] if i % 2 else pts[2:]
            got = [float(np.ravel(fun(np.array(p, float)))[0]) for p in pts]
            probes.append((i, X, Y, pts, got))

        r = egox.Run(sp, case["obj"], kinds, prefix, doe=case.get("doe", "n_doe"), capture=capture, **case["opts"])
        hist = "".join(kinds[c][0] if kinds[c] != "failgood" else "g" for c in r.taken)
        key = case["key"] + ":" + hist
        R.ev()
        R.trace()
        R.tr(len(r.outs))
        R.state(case["key"], hist)
        for i, X, Y, pts, got in probes:
            for p, g in zip(pts, got):
                c = egox.unfold(sp, egox.cast(sp, np.atleast_2d(p)))
                if crit == "SBO":
                    w = egox.smean(X, Y, c)[0, 0]
                elif crit == "UCB":
                    w = (egox.smean(X, Y, c) - 3 * egox.ssig(X, c))[0, 0]
                elif not tun:
                    w = -ei_data(X, Y, c)[0]
                else:
                    b = ei_data(X, Y, c)[0]
                    R.check(np.isfinite(g) and -b * (1 + 1e-9) - 1e-12 <= g <= 0, key + " obj%d" % i, "penalised objective within bounds", got=g, ei=b)
                    if egox.SPACES[sp][0] is None:
                        _, ws = tun_data(X, Y, c)
                        if ws[0] is not None:
                            R.check(abs(g + ws[0]) <= 1e-7 * max(1.0, b), key + " tun%d" % i, "penalised objective", got=g, want=ws[0])
                    continue
                R.check(abs(g - w) <= 1e-9 * max(1.0, abs(w), np.abs(Y).max()), key + " obj%d" % i, "objective handed to the optimizer is not the criterion", got=g, want=w, x=p)
        # choice of the point and virtual value
        batches, _ = c21.model(r)
        Xd = r.res[3]
        known = 3
        t = 0
        for b in batches:
            Yk = None
            for p, good in enumerate(b):
                fs = np.array([a["fun"] for a in good])
                cands = [egox.unfold(sp, egox.cast(sp, a["x"]))[0] for a, f in zip(good, fs) if f <= fs.min() + 1e-12 * max(1.0, abs(fs.min()))]
                if len(good) > 1 or p:
                    R.nt(case["key"], hist)
                R.check(known + p < len(Xd) and any(np.array_equal(Xd[known + p], c) for c in cands), key + " choice", "the new point is not the best successful answer", got=Xd[known + p : known + p + 1], answers=[(a["x"], a["fun"]) for a in good])
                if t + 1 < len(r.stub.log) and p + 1 < r.o["n_parallel"]:
                    X, Y = r.stub.log[t]
                    x = Xd[known + p : known + p + 1]
                    m, s = egox.smean(X, Y, x)[0, 0], egox.ssig(X, x)[0, 0]
                    v = r.stub.log[t + 1][1].ravel()[-1]
                    R.check(np.array_equal(r.stub.log[t + 1][1].ravel()[:-1], Y.ravel()), key + " before", "known values changed by a virtual point")
                    want = {"KB": m, "KBLB": m - 3 * s, "KBUB": m + 3 * s, "CLmin": Y.min()}.get(q)
                    if want is not None:
                        R.check(abs(v - want) <= 1e-9 * max(1.0, abs(want)), key + " virtual%d" % p, "virtual value of rule %s" % q, got=v, want=want)
                    elif s > 1e-6:
                        confs.append((v - m) / s)
                        R.check(abs(confs[-1]) < 6, key + " virtual%d" % p, "random virtual value is far from the prediction", got=v, mean=m, sig=s)
                    elif s == 0:
                        R.check(abs(v - m) <= 1e-9 * max(1.0, abs(m)), key + " virtual%d" % p, "virtual value with zero deviation", got=v, mean=m)
                t += 1
            if len(b) < r.o["n_parallel"]:
                t += 1
            known += len(b)
        return r.taken

    R.count("schedules", egox.explore(body, len(kinds)))
    if q == "KBRand" and len(confs) > 2:
        R.check(case["opts"].get("n_parallel", 1) < 3 or len(set(np.round(confs, 9))) > 1, case["key"] + " random", "random virtual values do not vary", confs=confs[:10])

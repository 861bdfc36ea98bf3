"""C21: EGO's budget and bookkeeping under every pattern of answers of the internal optimizer."""
import itertools
import numpy as np
from vlib.smtlib import *
from vlib import egox
from smt.applications.ego import Evaluator

ID = "C21"
LEVEL = "model_checking"
RULE = ("EGO.optimize is run under every sequence of answers of the internal optimizer (success at distinct points, at bounds, at the starting point, on a duplicate of a known point; failure; failure reporting a better value; ValueError), for every small (iterations, batch, starts, retries), criterion, virtual-point rule, kind of initial design and space (1-2 continuous, integer, categorical, mixed). Against a model of the loop: number of optimizer calls, size of every batch, "
        "evaluated points in order, budget, starting points within limits, feasibility, training data free of stale virtual values, y_data[i]=fun(x_data[i]), optimum = best evaluated pair, initial design and given values kept and not modified, same run on the same object or a new one gives the same history. States: optimizer-answer histories; non-trivial: those with a failure")
BOUNDS = {"quick": "retries: n_start<=3, n_max_optim<=2, 4 answers, one iteration; loops: n_iter*n_parallel<=3, 4 answers; grid: 3 criteria x 5 rules x 3 designs x 6 spaces x 4 objectives x (2 iterations of 2 points), 2 answers", "thorough": "8 answers in retries (n_start<=2) and loops, n_iter*n_parallel<=4"}
ASSUMPTIONS = ["cheap surrogate subclass of KRG, fixed sampling designs (the real ones are decided by C01-C07, C17, C20)", "the objective is deterministic"]
TIMEOUT = 700

FOUR = ("a", "x0", "failgood", "raise")
CRIT = ("EI", "SBO", "UCB")
QEI = ("KB", "KBLB", "KBUB", "KBRand", "CLmin")


def cases(tier):
    th = tier == "thorough"
    out = []
    for ns, nm in itertools.product((1, 2, 3), (1, 2)):
        for sp in ("x1", "fe"):
            kinds = FOUR if ns == 3 or not th else egox.KINDS
            out.append(dict(kind="tree", space=sp, obj="quad", kinds=kinds, opts=dict(n_start=ns, n_max_optim=nm), key="C21/starts/%s/%d-%d" % (sp, ns, nm)))
    loops = [(0, 1), (1, 1), (2, 1), (1, 2), (3, 1), (1, 3)] + ([(2, 2), (4, 1), (1, 4)] if th else [(2, 2)])
    for (ni, npar), sp, ob in itertools.product(loops, ("x1", "x2", "fe", "i1"), ("quad", "dec", "const") if th else ("quad",)):
        kinds = ("a", "b", "fail", "raise") if not th or ni * npar > 3 else egox.KINDS
        out.append(dict(kind="tree", space=sp, obj=ob, kinds=kinds, opts=dict(n_iter=ni, n_parallel=npar), key="C21/loop/%s/%s/%d-%d" % (sp, ob, ni, npar)))
    for i, (cr, q, doe, sp, ob) in enumerate(itertools.product(CRIT, QEI, ("n_doe", "xdoe", "xydoe"), egox.SPACES, egox.OBJ)):
        if not th and i % 3 and ob != "wave":
            continue
        out.append(dict(kind="tree", space=sp, obj=ob, doe=doe, kinds=("b", "fail"), ev=i % 2 == 1, opts=dict(n_iter=2, n_parallel=2, criterion=cr, qEI=q, enable_tunneling=i % 4 == 2 and cr == "EI"), key="C21/grid/%s/%s/%s/%s/%s" % (cr, q, doe, sp, ob)))
    return out


class Rows(Evaluator):
    """user-defined evaluator: one point at a time, last first"""

    def __init__(self):
        self.runs = []

    def run(self, fun, x):
        self.runs.append(np.array(x, float))
        y = np.zeros((len(x), 1))
        for i in reversed(range(len(x))):
            y[i] = fun(x[i : i + 1])[0]
        return y


def model(r):
    """batches (list of lists of optimizer rounds) predicted from the optimizer's answers"""
    o, outs, pos = r.o, r.outs, 0
    batches = []
    for k in range(o["n_iter"]):
        batch = []
        for p in range(o["n_parallel"]):
            found = None
            for t in range(o["n_max_optim"]):
                rnd = outs[pos : pos + o["n_start"]]
                pos += o["n_start"]
                good = [a for a in rnd if a["ok"]]
                if good:
                    found = good
                    break
            if found is None:
                break
            batch.append(found)
        batches.append(batch)
    return batches, pos


def run(case, R):
    kinds = tuple(case["kinds"])
    key0 = case["key"]
    seen = {}

    def body(prefix):
        def capture(r, fun, x0, k):
            b = np.array([list(map(float, v)) for v in k["bounds"]]) if k.get("bounds") is not None else None
            r.starts.append((x0, b))

        ev = Rows() if case.get("ev") else None
        again = 1 if sum(prefix) % 3 == 1 else 0
        r = egox.Run(case["space"], case["obj"], kinds, prefix, doe=case.get("doe", "n_doe"), evaluator=ev, again=again, capture=capture, **case["opts"])
        R.ev(1 + again)
        R.tr(len(r.outs) + len(r.calls))
        R.trace()
        hist = "".join(kinds[c][0] if kinds[c] != "failgood" else "g" for c in r.taken)
        R.state(key0, hist)
        if any(not a["ok"] for a in r.outs):
            R.nt(key0, hist)
        judge(case, r, ev, again, key0 + ":" + hist, R)
        if again:
            r2 = egox.Run(case["space"], case["obj"], kinds, prefix, doe=case.get("doe", "n_doe"), **case["opts"])
            R.ev()
            R.check(all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(r.res, r2.res)), key0 + ":" + hist + " again", "optimize() twice on one object gives another history than on a new object", second=r.res, fresh=r2.res)
        return r.taken

    n = egox.explore(body, len(kinds))
    R.count("schedules", n)


def judge(case, r, ev, again, key, R):
    x_opt, y_opt, ind, X, Y = r.res
    sp, o = case["space"], r.o
    n0 = 3
    batches, pos = model(r)
    R.check(pos == len(r.outs), key + " calls", "number of internal optimizations", expected=pos, got=len(r.outs))
    want = n0 + sum(len(b) for b in batches)
    if not R.check(X.shape == (want, len(r.U)) and Y.shape == (want, 1), key + " size", "number of points in the data", expected=want, got=(X.shape, Y.shape)):
        return
    F = egox.fold(sp, X)
    R.check(np.array_equal(egox.unfold(sp, F), X) and np.all((X >= r.U[:, 0]) & (X <= r.U[:, 1])), key + " feasible", "evaluated points are feasible", X=X)
    for x0, b in r.starts:
        R.check(np.all((x0 >= r.U[:, 0]) & (x0 <= r.U[:, 1])) and b is not None and np.array_equal(b, r.U), key + " start", "starting points within limits and bounds = limits", x0=x0, b=b)
    if r.doe_x is not None:
        R.check(np.array_equal(F[:n0], r.doe_x), key + " doe", "given initial design kept", got=F[:n0])
        R.check(np.array_equal(o["xdoe"], r.doe_x) and ("ydoe" not in o or np.array_equal(o["ydoe"], r.f(r.doe_x))), key + " args", "the given initial design is modified")
    first = n0 if "ydoe" not in o else 0
    sizes = ([n0] if first else []) + [len(b) for b in batches if b]
    runs = r.calls
    if ev is not None:
        runs = ev.runs if not again else ev.runs[len(ev.runs) // 2 :]
        R.check(len(r.calls) == sum(sizes), key + " evaluator", "every evaluation goes through the evaluator, once", calls=len(r.calls), runs=[len(a) for a in runs])
    R.check([len(a) for a in runs] == sizes, key + " batches", "sizes of the evaluated batches", expected=sizes, got=[len(a) for a in runs])
    allp = np.concatenate(runs) if runs else np.zeros((0, F.shape[1]))
    R.check(allp.shape == F[n0 - first :].shape and np.array_equal(allp, F[n0 - first :]), key + " points", "evaluated points are the new points of the data, in order", evaluated=allp, data=F)
    R.check(np.array_equal(Y, r.f(F)), key + " y", "y_data is not the objective at x_data", Y=Y, f=r.f(F))
    m = Y.min()
    R.check(0 <= int(ind) < want and Y[int(ind), 0] == m and np.array_equal(np.ravel(y_opt), [m]) and np.array_equal(np.ravel(x_opt), F[int(ind)]), key + " opt", "the optimum is the best evaluated pair", res=r.res)
    # training data: real values for what has been evaluated
    known = n0
    t = 0
    logs = r.stub.log
    for b in batches:
        for p in range(o["n_parallel"] if len(b) == o["n_parallel"] else len(b) + 1):
            if t < len(logs):
                Xt, Yt = logs[t]
                R.check(len(Xt) == known + p and np.array_equal(Xt, X[: known + p]) and np.array_equal(Yt[:known], Y[:known]), key + " training", "training data of optimization %d" % t, Xt=Xt, Yt=Yt)
            t += 1
        known += len(b)
    R.check(t == len(logs), key + " trainings", "number of trainings", expected=t, got=len(logs))

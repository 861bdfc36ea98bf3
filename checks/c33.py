"""C33: several threads using SMT at the same time, under a controlled scheduler."""
import contextlib, io, itertools, os, shutil, sys, tempfile, threading
import numpy as np
from vlib.smtlib import *
from vlib import apps
from checks import c32
import smt
from smt.sampling_methods import LHS, FullFactorial, Random

ID = "C33"
LEVEL = "model_checking"
RULE = ("two threads under a scheduler that decides at every line of SMT code: (predict) every ordered pair of prediction operations on one trained model of every configuration, every schedule with one preemption (the first operation stopped before each of its lines, the second run to its end), and for the operations on values and derivatives every schedule with two preemptions over distinct lines; "
        "(train) the training of one object stopped before each distinct line while another object of the same or another class is built, trained and asked; (sample) the same for sampling methods with their own random state and for predictions during a training. Each result must be, bit for bit, the one that the operation gives alone. "
        "States: (pair, points of preemption); non-trivial: schedules in which both operations have run partly")
BOUNDS = {"quick": "one preemption everywhere; two preemptions for pairs of values/derivatives operations with at most 60 distinct lines", "thorough": "one preemption at every executed line; two preemptions for all pairs of predictions up to 120 distinct lines"}
ASSUMPTIONS = ["threads are switched at line boundaries of SMT code (library calls and compiled extensions run as units, as they do under the interpreter lock)", "the optimizer of the hyperparameters returns its starting point"]
TIMEOUT = 3600
HEAVY = ("RMT", "GENN")  # trainings stopped at the first line of each function in the quick tier
LIGHT = HEAVY + ("KRG", "KPLS", "GEKPLS", "MGP", "MFK")  # after their training only the values are asked in the quick tier
LONG = 1200  # line events of a pair above which only the first event of each line is a point of preemption
REPO = c32.REPO
TRAIN = ("LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KRG-noise", "KRG-het", "KPLS", "KPLSK", "GEKPLS", "MGP", "GENN", "MFK", "MFK2-opt", "MFK2-PLSK")


def cases(tier):
    out = []
    for n in list(ALL) + list(c32.MOES) + list(c32.VFMS) + list(c32.MIS):
        out.append(dict(kind="predict", name=n, nx=2, ny=1, h="again", tier=tier, key="C33/predict/%s" % n))
    for n in TRAIN + ("MI-KRG", "VFM-add"):
        out.append(dict(kind="train", name=n, nx=2, ny=1, h="first", tier=tier, key="C33/train/%s" % n))
    for n in ("IDW", "RBF", "RMTB", "RMTC"):
        for d in (0.0, 0.5):
            out.append(dict(kind="cache", name=n, nx=2, ny=1, h="first", d=d, tier=tier, key="C33/cache/%s/%s" % (n, d)))
    for s in sorted(SAMPLERS, key=lambda s: s != "LHS-ese"):
        out.append(dict(kind="sample", s=s, tier=tier, key="C33/sample/%s" % s))
    return sorted(out, key=lambda c: not c.get("name", "").startswith(("GENN", "RMT", "MOE")) and c.get("s") != "LHS-ese")


# ------------------------------------------------------------------ schedulers
class Lines:
    """calls visit(i) before the i-th line of SMT code that the observed thread executes"""

    TOOL = 3

    def __init__(self, visit):
        self.visit, self.n, self.on = visit, 0, True

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "smtverif-lines")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)
        return False

    def line(self, code, no):
        if not code.co_filename.startswith(REPO):
            return sys.monitoring.DISABLE
        if self.on:
            self.visit(code, no)


def places(op):
    """for each line event of the operation alone: file, line, function"""
    out = []
    with Lines(lambda code, no: out.append((code.co_filename[len(REPO):], no, code))):
        r = outcome(op)
    return r, out


def outcome(op):
    try:
        return ("ok", op())
    except Exception as e:
        return ("exc", "%s: %s" % (type(e).__name__, e))


def one_preemption(a, b, i):
    """a is stopped before its i-th line, b runs to its end, a goes on"""
    box = []
    count = [0]

    def visit(code, no):
        k, count[0] = count[0], count[0] + 1
        if k == i:
            L.on = False
            box.append(outcome(b))

    L = Lines(visit)
    with L:
        ra = outcome(a)
    return ra, box[0] if box else None


class Two:
    """a stopped before its i-th line, b stopped before its j-th, a to its end, b to its end: two real threads"""

    def __init__(self, a, b, i, j):
        self.stop = {0: i, 1: j}
        self.n = {0: 0, 1: 0}
        self.ids = {}
        self.go = {0: threading.Semaphore(0), 1: threading.Semaphore(0)}
        self.res = {0: None, 1: None}
        self.ops = (a, b)
        self.reached = {0: False, 1: False}

    def visit(self, code, no):
        w = self.ids.get(threading.get_ident())
        if w is None:
            return
        k, self.n[w] = self.n[w], self.n[w] + 1
        if k == self.stop[w] and not self.reached[w]:
            self.reached[w] = True
            self.go[1 - w].release()
            self.go[w].acquire()

    def work(self, w):
        self.go[w].acquire()
        self.ids[threading.get_ident()] = w
        self.res[w] = outcome(self.ops[w])
        self.go[1 - w].release()

    def run(self):
        t = [threading.Thread(target=self.work, args=(w,), daemon=True) for w in (0, 1)]
        with Lines(self.visit):
            for x in t:
                x.start()
            self.go[0].release()
            for x in t:
                x.join(60)
        if any(x.is_alive() for x in t):
            raise RuntimeError("the threads do not end")
        return self.res[0], self.res[1], self.reached[0] and self.reached[1]


def bits(r):
    """a result as something comparable bit for bit"""
    k, v = r
    if k == "exc":
        return r
    return k, flat(v)


def flat(v):
    if isinstance(v, np.ndarray):
        return v.shape, v.dtype.str, v.tobytes()
    if isinstance(v, dict):
        return tuple((repr(k), flat(v[k])) for k in sorted(v, key=repr))
    if isinstance(v, (tuple, list)):
        return tuple(flat(x) for x in v)
    return repr(v)


def distinct(pl, every=False):
    """indices of the first and the last event of each place"""
    if every:
        return list(range(len(pl)))
    first, last = {}, {}
    for i, c in enumerate(pl):
        first.setdefault(c, i)
        last[c] = i
    return sorted(set(first.values()) | set(last.values()))


def explore(key, names, a, b, two, R, every=False, coarse=False):
    """all schedules of the two operations; names for the messages; a and b give (fresh) closures"""
    ra, pa = places(a())
    rb, pb = places(b())
    base = bits(outcome(a())), bits(outcome(b()))
    if not R.check(bits(ra) == base[0] and bits(rb) == base[1], key + "/alone", "repeating an operation alone gives another result"):
        return
    fa = sorted({c: i for i, c in reversed(list(enumerate(pa)))}.values())
    fb = sorted({c: i for i, c in reversed(list(enumerate(pb)))}.values())
    ia = distinct(pa, every and len(pa) <= 600) if every or len(pa) + len(pb) <= LONG else fa
    if coarse:  # the first line of each function only
        ia = sorted({c[2]: i for i, c in reversed(list(enumerate(pa)))}.values())
    for i in ia:
        r, s = one_preemption(a(), b(), i)
        R.ev(2), R.tr(2), R.state(key, i), R.count("schedules"), R.trace()
        if i:
            R.nt(key, i)
        if s is None:
            R.skip("the sequence of lines is not repeatable")
            continue
        if s[0] == "exc" and s[1].startswith("ReentrancyError"):
            R.skip("the second thread would wait for a lock of scipy here")
            continue
        judge("%s/%d" % (key, i), names, "stopped at %s:%d" % pa[i][:2], base, r, s, R)
    if not two:
        return
    if len(set(pa)) > two or len(set(pb)) > two:
        R.count("pairs_with_one_preemption_only")
        return
    for i, j in itertools.product(fa, fb):
        if not i or not j:
            continue
        r, s, both = Two(a(), b(), i, j).run()
        R.ev(2), R.tr(3), R.state(key, i, j), R.nt(key, i, j), R.count("schedules"), R.trace()
        judge("%s/%d,%d" % (key, i, j), names, "stopped at %s:%d and %s:%d" % (pa[i][:2] + pb[j][:2]), base, r, s, R)


def judge(key, names, where, base, r, s, R):
    R.check(bits(r) == base[0], key + "/first", "%s with %s in between (%s) gives another result than alone: %s" % (names[0], names[1], where, r[1] if r[0] == "exc" else ""))
    R.check(bits(s) == base[1], key + "/second", "%s while %s is under way (%s) gives another result than alone: %s" % (names[1], names[0], where, s[1] if s[0] == "exc" else ""))


# ------------------------------------------------------------------ cases
def run(case, R):
    np.random.seed(7)
    with contextlib.redirect_stdout(io.StringIO()), seams.minimize_hook(seams.frozen):
        globals()["run_" + case["kind"]](case, R)


def operations(case, sm, xq):
    n = case["name"]
    out = {"values": lambda: sm.predict_values(xq.copy())}
    sup = getattr(sm, "supports", {})
    if n in c32.VFMS or n in ALL and sup.get("derivatives"):
        for k in range(xq.shape[1]):
            out["d%d" % k] = lambda k=k: sm.predict_derivatives(xq.copy(), k)
    if n == "MOE-var" or n not in c32.MOES and n not in c32.VFMS and sup.get("variances"):
        out["var"] = lambda: sm.predict_variances(xq.copy())
    if n in ALL and sup.get("variance_derivatives"):
        out["dvar"] = lambda: sm.predict_variance_derivatives(xq[:1].copy())
    if n in ALL and sup.get("output_derivatives"):
        out["dydt"] = lambda: sm.predict_output_derivatives(xq.copy())
    return {k: f for k, f in out.items() if outcome(f)[0] == "ok"}


def run_predict(case, R):
    th = case["tier"] == "thorough"
    sm = c32.prepare(case)
    q = c32.queries(case)
    A, B = operations(case, sm, q), operations(case, sm, q[1:3] * 0.9 if case["name"] not in c32.MIS else q[1:3])
    for m, n in itertools.product(A, B):
        if not th and (m == "d0" and len(A) > 2 or n in ("d1", "dvar") or "dydt" in (m, n) and {m, n} - {"dydt", "values"}):
            continue  # the other component goes through the same lines
        two = 120 if th else 60 if m in ("values", "d1") and n in ("values", "d0") else 0
        explore("%s/%s-%s" % (case["key"], m, n), ("predicting " + m, "predicting " + n), lambda: A[m], lambda: B[n], two, R, th, coarse=not th and case["name"].startswith("RMT") and "dydt" in (m, n))


def life(case, s, ddir=None):
    """build, train and ask an object of its own"""

    def f():
        sm = c32.build(case)
        if ddir:
            sm.options["data_dir"] = ddir
        c32.give(case, sm, s)
        sm._apply() if case["name"] in c32.VFMS else sm.train()
        xq = c32.queries(case)
        out = [sm.predict_values(xq)]
        if case["tier"] == "thorough" or not case["name"].startswith(LIGHT):
            for op, g in operations(case, sm, xq).items():
                out.append(g())
        return out

    return f


def run_train(case, R):
    th = case["tier"] == "thorough"
    others = [case["name"]] + (["KRG", "RMTB", "RBF", "MFK"] if th else ["KRG"] if case["name"] not in ("KRG",) else ["RMTC"])
    for o in others:
        c2 = dict(case, name=o)
        explore("%s/%s" % (case["key"], o), ("training a " + case["name"], "using another " + o), lambda: life(case, 0.0), lambda: life(c2, 0.5), 0, R, False, coarse=not th and case["name"].startswith(HEAVY))
    # predictions of a trained object while another one trains
    sm = c32.prepare(dict(case, h="again"))
    P = operations(case, sm, c32.queries(case))
    for m in P:
        explore("%s/ask-%s" % (case["key"], m), ("predicting " + m, "training another object"), lambda: P[m], lambda: life(case, 0.0), 0, R, coarse=not th and case["name"].startswith(HEAVY))


def run_cache(case, R):
    """two objects training with one data directory: the entry is absent at first"""
    coarse = case["tier"] != "thorough" and case["name"].startswith(HEAVY)
    tmp = tempfile.mkdtemp(prefix="smtverif_c33_")
    try:
        n = itertools.count()

        def pair(k, box={}):
            # the first operation of a pair makes the directory
            if k == 0 or "d" not in box:
                box["d"] = os.path.join(tmp, "d%d" % next(n))
                os.mkdir(box["d"])
            d = box["d"]
            return life(case, 0.0 if k == 0 else case["d"], d)

        explore(case["key"], ("training with a data directory", "training with the same data directory"), lambda: pair(0), lambda: pair(1), 0, R, coarse=coarse)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


XL = np.array([[0.0, 1.0], [-3.0, 5.0]])
SAMPLERS = {"LHS-%s" % c: (lambda c=c: LHS(xlimits=XL, criterion=c, random_state=3)(4)) for c in ("c", "m", "cm", "corr", "ese")}
SAMPLERS["FF"] = lambda: FullFactorial(xlimits=XL, weights=[0.3, 0.7])(9)
SAMPLERS["FF-clip"] = lambda: FullFactorial(xlimits=XL, clip=True)(7)


def run_sample(case, R):
    f = SAMPLERS[case["s"]]
    for o in SAMPLERS:
        if "ese" in (o[4:], case["s"][4:]) and o != case["s"] and o not in ("FF", "LHS-m"):
            continue
        explore("%s/%s" % (case["key"], o), ("sampling " + case["s"], "sampling " + o), lambda: f, lambda: SAMPLERS[o], 60 if o != "LHS-ese" and case["s"] != "LHS-ese" else 0, R)

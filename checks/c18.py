"""C18: seeded computations under every interleaving with users of the global random generator."""
import itertools, os, pickle, subprocess, sys, tempfile
import numpy as np
from vlib import c18targets as ct
from vlib.smtlib import unit
from smt.sampling_methods import LHS

ID = "C18"
LEVEL = "model_checking"
RULE = ("every seeded computation (LHS x criterion x size x seed, mixed-integer LHS, GENN topologies, EGO x criterion x qEI x surrogate) is run (before) after every sequence of disturbances of the process-wide generator (seeding, drawing, shuffling, other SMT components), (inside) with each disturbance at every evaluation of the objective, "
        "(preempt) with a disturbance at every function call of the computation, one at a time, (process) in other processes with other hash seeds and another order of the computations; each result must be bit-identical to the reference. LHS: np.random.get_state() is the same before and after, and every sequence of calls on one object gives, per size, the same design. Non-trivial: every run with a disturbance")
BOUNDS = {"quick": "sequences of length <=2 over 7 disturbances and of length 1 over 4 component runs (EGO: length 1), preemption at the first 100-150 calls (EGO: 40), sequences of 3 calls over 2-3 sizes; mixed-integer ese runs: length 1, 8 preemption points, 2 other processes", "thorough": "length 3 for LHS and GENN, 2 for EGO; preemption at the first 4000 calls (EGO: 400, mixed-integer: 40); 105 more EGO variants per seed, 4 other processes"}
ASSUMPTIONS = ["same machine, same BLAS and a single BLAS thread"]
TIMEOUT = 850
SKIP = {"EI", "SBO", "UCB", "<lambda>", "_PhiP_exchange", "<genexpr>", "<listcomp>"}


def cases(tier):
    T = ct.targets(tier)
    out = [dict(kind="target", name=n, th=tier == "thorough", key="C18/" + n) for n in T]
    out.sort(key=lambda c: not c["name"].startswith("EGO"))
    names = list(T)
    for h in range(1, 5 if tier == "thorough" else 3):
        for part in range(4):
            out.insert(0, dict(kind="process", h=h, names=(names if h % 2 else names[::-1])[part::4], noise=["draw", "reseed", "seed", "shuffle"][h - 1], tier=tier, key="C18/process/%d/%d" % (h, part)))
    for seed in (0, 1, 42, 2 ** 32 - 1):
        for crit in ct.CRIT:
            out.append(dict(kind="calls", seed=seed, crit=crit, key="C18/calls/%s/s%d" % (crit, seed)))
    return out


def run(case, R):
    globals()["run_" + case["kind"]](case, R)


def result(f, hook=None):
    try:
        return ("ok", f(hook))
    except Exception as e:
        return ("exc", "%s: %s" % (type(e).__name__, e))


def equal(a, b):
    return a[0] == b[0] and (np.array_equal(a[1], b[1]) if a[0] == "ok" else a[1] == b[1])


class Preempt:
    """runs the disturbance when the k-th function of the package is entered"""

    def __init__(self, k, wide):
        self.k, self.n, self.wide = k, 0, wide

    def __call__(self, frame, event, arg):
        if event != "call":
            return
        co = frame.f_code
        fn = co.co_filename
        if co.co_name in SKIP or not ("/smt/" in fn or "/pyDOE" in fn):
            return
        if not self.wide and ("/utils/" in fn or co.co_name in ("_reduced_likelihood_function", "_reduced_likelihood_gradient", "__getitem__", "_componentwise_distance")):
            return
        self.n += 1
        if self.n - 1 == self.k:
            sys.setprofile(None)
            ct.disturb("seed", self.k), ct.disturb("shuffle")
            sys.setprofile(self)


def run_target(case, R):
    group, f = ct.targets("thorough" if case["th"] else "quick")[case["name"]]
    th, key = case["th"], case["key"]
    np.random.seed(0)
    ref = result(f)
    R.ev(), R.trace(), R.state(key, "ref")
    if not R.check(ref[0] == "ok", key + "/raises", "the seeded computation raises %s" % (ref[1],)):
        return
    np.random.seed(99)
    probe = Preempt(-1, group != "ego")
    sys.setprofile(probe)
    r = result(f)
    sys.setprofile(None)
    R.check(equal(r, ref), key + "/seed", "another state of the global generator changes the result")

    def one(tag, before=(), hook=None, at=None):
        np.random.seed(5)
        for i, d in enumerate(before):
            ct.disturb(d, i)
        before_state = np.random.get_state()
        if at is not None:
            sys.setprofile(Preempt(at, group != "ego"))
        try:
            r = result(f, hook)
        finally:
            sys.setprofile(None)
        R.ev(), R.tr(len(before) + 1), R.trace(), R.state(key, tag), R.nt(key, tag)
        R.check(equal(r, ref), key + "/" + tag, "the result differs from the undisturbed one: %s" % (r[1] if r[0] == "exc" else "max difference %g" % np.max(np.abs(r[1] - ref[1])) if r[1].shape == ref[1].shape else "shapes",))
        if group == "lhs" and at is None:
            after = np.random.get_state()
            R.check(all(np.array_equal(a, b) for a, b in zip(before_state, after)), key + "/" + tag + "/stream", "sampling with a random_state changed the global random stream")

    heavy = "mixed" in key or "MILHS-ese" in key
    depth = {"lhs": 2, "genn": 2, "ego": 1}[group] + th
    if "ese" in key and group == "lhs" or heavy:
        depth = 1 + (th and not heavy)
    for d in ct.DEAR:
        one("before/" + d, (d,))
    for n in range(1, depth + 1):
        for seq in itertools.product(ct.CHEAP, repeat=n):
            one("before/" + "+".join(seq), seq)
    if group != "lhs":
        evals = []
        result(f, evals.append)
        for i in range(len(evals)):
            for d in ("seed", "draw", "reseed", "LHS7") if th or not heavy else ("seed",):
                one("inside/%d/%s" % (i, d), hook=lambda k, i=i, d=d: ct.disturb(d, i) if k == i else None)
        if evals:
            one("inside/all", hook=lambda k: ct.disturb("seed", k))
    lim = (400 if th else 40) if group == "ego" else (4000 if th else 100 if "ese" in key else 150)
    if heavy:
        lim = 40 if th else 8
    if probe.n > lim:
        R.count("computations with more calls than the preemption bound")
    for k in range(min(probe.n, lim)):
        one("preempt/%d" % k, at=k)


def run_process(case, R):
    with tempfile.TemporaryDirectory() as d:
        req, out = os.path.join(d, "req"), os.path.join(d, "out")
        with open(req, "wb") as f:
            pickle.dump((case["names"], out, case["tier"], case["noise"]), f)
        env = dict(os.environ, PYTHONHASHSEED=str(case["h"] * 7919))
        p = subprocess.run([sys.executable, "-m", "vlib.c18_child", req], env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True)
        if not os.path.exists(out):
            raise RuntimeError("the child process failed: %s" % p.stderr[-400:])
        with open(out, "rb") as f:
            res = pickle.load(f)
    T = ct.targets(case["tier"])
    for n in case["names"]:
        np.random.seed(3)
        ref = result(T[n][1])
        R.ev(), R.tr(), R.trace(), R.state(case["key"], n), R.nt(case["key"], n)
        R.check(equal(res[n], ref), "%s/%s" % (case["key"], n), "another process gives another result")


def run_calls(case, R):
    seed, crit = case["seed"], case["crit"]
    sizes = (2, 3, 5) if crit != "ese" else (1, 3)
    fresh = {}
    mk = lambda: LHS(xlimits=unit(2), criterion=crit, random_state=seed)
    for n in sizes:
        fresh[n] = mk()(n)
        via = LHS(xlimits=unit(2), criterion=crit, random_state=np.random.RandomState(seed))(n)
        R.check(np.array_equal(via, fresh[n]), "%s/object%d" % (case["key"], n), "a RandomState object with that seed gives another design")
    for seq in itertools.product(sizes, repeat=3):
        s, t = mk(), LHS(xlimits=unit(2), criterion=crit, random_state=seed + 1 if seed < 2 ** 32 - 1 else 5)
        for i, n in enumerate(seq):
            g = np.random.get_state()
            r = s(n)
            t(n)
            ct.disturb(ct.CHEAP[i])if i < 2 and n == 2 else None
            R.ev(), R.tr(), R.trace()
            R.check(np.array_equal(r, fresh[n]), "%s/%s/%d" % (case["key"], seq, i), "call %d of the sequence %s differs from the first call of a fresh object" % (i, seq))
        R.state(case["key"], seq), R.nt(case["key"], seq)

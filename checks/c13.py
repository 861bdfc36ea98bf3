"""C13: crash points, torn files, foreign entries and writer/reader interleavings of the training cache, on the real models."""
import builtins, contextlib, io, itertools, os, resource, shutil, signal, sys, tempfile
import numpy as np
from vlib.smtlib import *
from smt.utils.caching import cached_operation
from smt.utils.linear_solvers import DirectSolver, KrylovSolver, DenseLUSolver

ID = "C13"
LEVEL = "model_checking"
RULE = ("crash: a real writer process is stopped by the kernel at every number of bytes written (RLIMIT_FSIZE; both as process death and as a write error) and the next training in the same directory is compared with an uncached one; torn: every truncation, zero-filled tail and byte change of every cache file; "
        "pairs: every ordered pair of configurations (one option, datum or name apart) sharing a directory; races: a reader stopped at each of its file accesses while a writer runs to each of its byte positions; nodir: every file access of a training without data_dir is monitored. Non-trivial: states whose directory holds a file when training starts")
BOUNDS = {"quick": "all crash points and truncations of each file with a stride on the larger files, 256 byte values at utility level", "thorough": "all byte positions of all files"}
ASSUMPTIONS = ["POSIX semantics of rename and of writes to a regular file; files are read by the training that runs in the same directory"]
TIMEOUT = 800
Q2 = halton(5, 2, 40)


def _limit():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, hard))  # a corrupted length must not exhaust the machine


def _cfg():
    rb = dict(xlimits=unit(2), approx_order=2, solver="dense-lu", derivative_solver="dense-lu", nonlinear_maxiter=2)
    C = {
        "LS": (LS, {}), "QP": (QP, {}), "IDW": (IDW, {}), "IDW2": (IDW, dict(p=2)),
        "RBF": (RBF, {}), "RBFd": (RBF, dict(d0=0.7)), "RBFr": (RBF, dict(reg=1e-3)), "RBFp": (RBF, dict(poly_degree=1)),
        "RMTB": (RMTB, dict(rb, num_ctrl_pts=4, order=3)), "RMTBe": (RMTB, dict(rb, num_ctrl_pts=4, order=3, save_energy_terms=True)),
        "RMTBl": (RMTB, dict(rb, xlimits=np.array([[0.0, 2.0], [-1.0, 1.0]]), num_ctrl_pts=4, order=3, save_energy_terms=True)),
        "RMTBo": (RMTB, dict(rb, num_ctrl_pts=4, order=2, save_energy_terms=True)), "RMTBo2": (RMTB, dict(rb, num_ctrl_pts=[5, 4], order=[4, 3], save_energy_terms=True)), "RMTBo3": (RMTB, dict(rb, num_ctrl_pts=[4, 5], order=[3, 4], save_energy_terms=True)),
        "RMTBs": (RMTB, dict(rb, num_ctrl_pts=4, order=3, smoothness=[3.0, 0.1], save_energy_terms=True)), "RMTBw": (RMTB, dict(rb, num_ctrl_pts=4, order=3, energy_weight=0.3, save_energy_terms=True)),
        "RMTBn": (RMTB, dict(rb, num_ctrl_pts=4, order=3, min_energy=False, regularization_weight=1e-3)),
        "RMTC": (RMTC, dict(rb, num_elements=1)), "RMTCe": (RMTC, dict(rb, num_elements=1, save_energy_terms=True)), "RMTC12": (RMTC, dict(rb, num_elements=[1, 2], save_energy_terms=True)), "RMTC21": (RMTC, dict(rb, num_elements=[2, 1], save_energy_terms=True)),
        "RMTCl": (RMTC, dict(rb, xlimits=np.array([[0.0, 2.0], [-1.0, 1.0]]), num_elements=1, save_energy_terms=True)), "RMTCx": (RMTC, dict(rb, num_elements=1, extrapolate=True, save_energy_terms=True)),
        "RMTCg": (RMTC, dict(rb, num_elements=1, grad_weight=2.0)), "RMTBp": (RMTB, dict(rb, num_ctrl_pts=4, order=3, approx_order=4)),
    }
    return C


CFG = _cfg()
DATA = {
    "a": lambda: (halton(7, 2, 1), fun(halton(7, 2, 1)), None),
    "one": lambda: (halton(7, 2, 1), fun(halton(7, 2, 1)) + np.eye(7)[:, 3:4] * 0.2, None),
    "x": lambda: (halton(7, 2, 2), fun(halton(7, 2, 1)), None),
    "perm": lambda: (halton(7, 2, 1), fun(halton(7, 2, 1))[::-1].copy(), None),
    "two": lambda: (halton(7, 2, 1), fun(halton(7, 2, 1), 2), None),
    "dv": lambda: (halton(7, 2, 1), fun(halton(7, 2, 1)), 0.3),
    "dv2": lambda: (halton(7, 2, 1), fun(halton(7, 2, 1)), 0.9),
}


def model(name, data, ddir, **extra):
    cls, o = CFG[name]
    sm = cls(print_global=False, **dict({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in o.items()}, **extra))
    if ddir is not None:
        sm.options["data_dir"] = ddir
    load(sm, data)
    return sm


def load(sm, data):
    x, y, d = DATA[data]()
    sm.set_training_values(x, y)
    if d is not None and sm.supports["training_derivatives"]:
        for k in range(2):
            sm.set_training_derivatives(x, dfun(x, k, y.shape[1]) * d, k)


def ans(sm):
    return answers(sm, Q2, ("v", "d", "o"))


_REF = {}


def reference(name, data, **extra):
    if not extra:
        if (name, data) not in _REF:
            sm = model(name, data, None)
            sm.train()
            _REF[name, data] = ans(sm)
        return _REF[name, data]
    sm = model(name, data, None, **extra)
    sm.train()
    return ans(sm)


def cases(tier):
    out = []
    th = tier == "thorough"
    for n in range(8):
        out.append(dict(kind="util", part=n, key="C13/util/%d" % n))
    for name, data, part in itertools.product(("LS", "IDW", "QP", "RBF", "RMTB", "RMTBe", "RMTC", "RMTCe"), ("a", "dv"), range(8 if th else 4)):
        if data == "dv" and not name.startswith("RMT"):
            continue
        out.append(dict(kind="torn", name=name, data=data, part=part, parts=8 if th else 4, stride=1 if th else 0, key="C13/torn/%s/%s/%d" % (name, data, part)))
        out.append(dict(kind="crash", name=name, data=data, part=part, parts=8 if th else 4, stride=1 if th else 0, key="C13/crash/%s/%s/%d" % (name, data, part)))
    for a in CFG:
        out.append(dict(kind="pairs", name=a, key="C13/pairs/%s" % a))
        out.append(dict(kind="nodir", name=a, key="C13/nodir/%s" % a))
    for a in ("IDW", "RBF", "RMTB", "RMTBe", "RMTC"):
        out.append(dict(kind="race", name=a, key="C13/race/%s" % a))
        out.append(dict(kind="reuse", name=a, key="C13/reuse/%s" % a))
    for a in ("LS", "QP"):
        out.append(dict(kind="reuse", name=a, key="C13/reuse/%s" % a))
    for s, w in itertools.product(("lu", "ilu", "krylov-lu", "dense"), ("RMTB", "RMTC")):
        out.append(dict(kind="solver", s=s, name=w, key="C13/solver/%s/%s" % (s, w)))
    return sorted(out, key=lambda c: {"crash": 0, "torn": 1}.get(c["kind"], 2))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(d, files):
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    for f, b in files.items():
        with open(os.path.join(d, f), "wb") as g:
            g.write(b)


def snap(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def judge(R, key, name, data, d, ref, what, **extra):
    sm = model(name, data, d, **extra)
    r = attempt(sm.train)
    R.ev(), R.tr()
    if not R.check(r[0] == "ok", key + "/raises", "%s: training raises %s" % (what, r[1])):
        return False
    return same_answers(R, key, ref, ans(sm), what)


def same_answers(R, key, ref, got, what):
    bad = diff(ref, got, 1e-9, 1e-11)
    R.trace()
    return R.check(not bad, key + "/answers", "%s: answers differ from an uncached training: %s" % (what, [(b, ref[b], got[b]) for b in bad[:1]]))


def positions(n, stride, limit=120):
    if stride == 1:
        return list(range(n))
    s = max(1, n // limit)
    return sorted(set(range(0, n, s)) | set(range(min(n, 40))) | set(range(max(0, n - 40), n)))


def run(case, R):
    _limit()
    with contextlib.redirect_stdout(io.StringIO()), scratch() as d:
        globals()["do_" + case["kind"]](case, R, d)


def do_util(case, R, d):
    """the cache utility itself: every byte position x every byte value / truncation / zeroed range"""
    key = case["key"]
    val = {"sol": [1.5, -2.25], "n": 7}

    def op():
        with cached_operation({"in": (1, 2.5, "z")}, d, "t") as out:
            hit = bool(out)
            if not hit:
                out.update(val)
            return dict(out), hit

    put(d, {})
    with cached_operation({"in": (1, 2.5, "z")}, d, "t") as out:
        out.update(val)
    files = snap(d)
    with cached_operation({"in": (1, 2.5, "z")}, d, "t") as out:
        R.check(dict(out) == val, key + "/hit", "the stored outputs are not returned: %r" % (dict(out),))
    for other in ({"in": (1, 2.5, "y")}, {"in": (1, 2.4, "z")}, {"in": (2.5, 1, "z")}, {"on": (1, 2.5, "z")}):
        with cached_operation(other, d, "t") as out:
            R.check(not out, key + "/foreign", "outputs of other inputs are returned for %r" % (other,))
    put(d, files)
    fn = sorted(files)[0]
    b = files[fn]
    muts = []
    for i in range(len(b)):
        for v in range(256):
            if v != b[i] and (i + v) % 8 == case["part"]:
                muts.append(("byte %d=%d" % (i, v), b[:i] + bytes([v]) + b[i + 1 :]))
        if i % 8 == case["part"]:
            muts.append(("truncate %d" % i, b[:i]))
            muts.append(("zero tail %d" % i, b[:i] + bytes(len(b) - i)))
            muts.append(("garbage after %d" % i, b[:i] + b))
            muts.append(("doubled tail %d" % i, b + b[i:]))
    for what, m in muts:
        put(d, {fn: m})
        R.ev(), R.tr(), R.nt(what), R.state(what)
        r = attempt(op)
        R.check(r[0] == "ok" and r[1][0] == val, key + "/corrupt", "%s: %r" % (what, r[1]))
        R.trace()
    put(d, {fn: b})
    # an operation that fails is not stored
    put(d, {})
    try:
        with cached_operation({"in": 3}, d, "t") as out:
            out["sol"] = 1
            raise KeyError("x")
    except KeyError:
        pass
    with cached_operation({"in": 3}, d, "t") as out:
        R.check(not out, key + "/failed", "outputs of a failed operation are returned")


def produced(case, d):
    put(d, {})
    sm = model(case["name"], case["data"], d)
    sm.train()
    return snap(d)


def do_torn(case, R, d):
    key, name, data = case["key"], case["name"], case["data"]
    ref = reference(name, data)
    files = produced(case, d)
    judge(R, key + "/hit", name, data, d, ref, "second training with the stored files")
    for fn in files:
        b = files[fn]
        n = 0
        for i in positions(len(b), case["stride"]):
            for what, m in (("truncated at %d" % i, b[:i]), ("zeros from %d" % i, b[:i] + bytes(len(b) - i)), ("bit flipped at %d" % i, b[:i] + bytes([b[i] ^ (1 << (i % 8))]) + b[i + 1 :]), ("empty page at %d" % i, b[:i] + bytes(min(64, len(b) - i)) + b[i + 64 :])):
                n += 1
                if n % case["parts"] != case["part"]:
                    continue
                put(d, dict(files, **{fn: m}))
                R.nt(key, fn, what), R.state(key, fn, what)
                if not judge(R, key, name, data, d, ref, "%s of %d bytes, %s" % ("cache file", len(b), what)):
                    return


def stopped_writer(name, data, d, limit, die):
    """real training in a child process that may write at most `limit` bytes to any one file"""
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
            sm = model(name, data, d)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            r = attempt(sm.train)
            os._exit(0 if r[0] == "ok" else 3)
        finally:
            os._exit(4)
    return os.waitpid(pid, 0)[1]


def do_crash(case, R, d):
    key, name, data = case["key"], case["name"], case["data"]
    ref = reference(name, data)
    files = produced(case, d)
    top = max([len(b) for b in files.values()] or [0]) + 2
    n = 0
    for i in positions(top, case["stride"], 60):
        for die in (True, False):
            n += 1
            if n % case["parts"] != case["part"]:
                continue
            put(d, {})
            st = stopped_writer(name, data, d, i, die)
            R.count("crash_points")
            R.state(key, i, die)
            if os.listdir(d):
                R.nt(key, i, die)
            if not judge(R, key, name, data, d, ref, "after a writer stopped at byte %d (%s)" % (i, "killed" if die else "write error")):
                return
            if not judge(R, key + "/again", name, data, d, ref, "second training after a writer stopped at byte %d" % i):
                return


def do_pairs(case, R, d):
    a, key = case["name"], case["key"]
    for b in [c for c in CFG if c[:3] == a[:3] or c in ("RBF", "RMTBe", "RMTCe")]:
        for da, db in [("a", "a")] + ([("a", o) for o in DATA if o != "a"] + [("dv", "dv2"), ("dv", "a"), ("two", "a")] if a == b else [("dv", "dv")]):
            put(d, {})
            extra = {}
            s1 = model(a, da, d)
            if attempt(s1.train)[0] == "exc":
                R.fail(key + "/first", "training %s/%s with an empty cache directory raises" % (a, da))
                continue
            k = "%s/%s-%s-%s" % (key, b, da, db)
            R.state(k), R.nt(k)
            judge(R, k, b, db, d, reference(b, db), "directory filled by %s/%s" % (a, da))
            judge(R, k + "/back", a, da, d, reference(a, da), "directory filled by %s/%s then %s/%s" % (a, da, b, db))


def do_reuse(case, R, d):
    """one object trained repeatedly with the cache"""
    name, key = case["name"], case["key"]
    for seq in itertools.product(("a", "one", "two", "T"), repeat=4):
        if seq[0] == "T":
            continue
        put(d, {})
        sm = model(name, seq[0], d)
        cur = None
        for i, op in enumerate(seq):
            if op != "T":
                load(sm, op)
                cur = op
            r = attempt(sm.train)
            R.ev(), R.tr()
            k = "%s/%s" % (key, "".join(s[0] for s in seq[: i + 1]))
            R.state(k), R.nt(k)
            if not R.check(r[0] == "ok", k + "/raises", "training raises %s" % r[1]):
                break
            same_answers(R, k, reference(name, cur), ans(sm), "trained with the history %s" % (seq[: i + 1],))


def do_solver(case, R, d):
    name, key = case["name"], case["key"]
    mk = {"lu": lambda: DirectSolver(alg="lu"), "ilu": lambda: DirectSolver(alg="ilu"), "krylov-lu": lambda: KrylovSolver(pc="lu"), "dense": lambda: DenseLUSolver()}[case["s"]]
    ref = reference(name, "a", solver=mk())
    for ddir in (None, d):
        shared = mk()
        for n, data in enumerate(("a", "a", "one", "a")):
            k = "%s/%s/%d" % (key, "dir" if ddir else "nodir", n)
            R.state(k), R.nt(k)
            judge(R, k, name, data, ddir, reference(name, data, solver=mk()), "solver object used for training number %d" % n, solver=shared)
        sm = model(name, "a", ddir, solver=shared)
        for n in range(3):
            r = attempt(sm.train)
            R.ev(), R.tr()
            if R.check(r[0] == "ok", "%s/same/%d" % (key, n), "training number %d raises %s" % (n, r[1])):
                same_answers(R, "%s/same/%d" % (key, n), ref, ans(sm), "training number %d of one object" % n)


ACTIVE = []
_installed = [False]


def _hook(ev, args):
    if ACTIVE and ev in ("open", "os.rename", "os.remove", "os.mkdir", "os.listdir", "os.scandir"):
        ACTIVE[0](ev, args)


def watch(f):
    if not _installed[0]:
        sys.addaudithook(_hook)
        _installed[0] = True
    return f


def do_nodir(case, R, d):
    name, key = case["name"], case["key"]
    ref = reference(name, "a")
    real = produced(dict(name=name, data="a"), d)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        put(d, {})
        # hostile entries under every name a missing directory could turn into
        sm0 = model(name, "a", None)
        for sub in ("None", "False", "_", "smt"):
            os.mkdir(sub)
            for fn, b in real.items():
                open(os.path.join(sub, fn), "wb").write(b)
        for val in (None,):
            seen = []
            watch(None)
            sm = model(name, "a", None)
            ACTIVE.append(lambda ev, args: seen.append((ev, str(args[0]))))
            try:
                r = attempt(sm.train)
                got = ans(sm)
            finally:
                ACTIVE.clear()
            R.ev(), R.tr(), R.state(key), R.nt(key)
            bad = [s for s in seen if not (s[1].startswith(("/opt/", "/usr/", "/repo/", sys.prefix)) or s[1].endswith((".py", ".pyc", ".so")) or s[1].startswith("/proc/") or "site-packages" in s[1] or "__pycache__" in s[1])]
            R.check(not bad, key + "/files", "files accessed without data_dir: %s" % bad[:4])
            R.check(r[0] == "ok", key + "/train", "raises")
            same_answers(R, key, ref, got, "no data_dir")
            R.check(sorted(os.listdir(".")) == ["False", "None", "_", "smt"], key + "/left", "files left in the working directory: %s" % os.listdir("."))
    finally:
        os.chdir(cwd)
        for sub in ("None", "False", "_", "smt"):
            shutil.rmtree(os.path.join(d, sub), ignore_errors=True)


def do_race(case, R, d):
    """reader stopped before each file access (open and each read); the directory then goes through every intermediate state of a writer"""
    name, key = case["name"], case["key"]
    ref = reference(name, "a")
    files = produced(dict(name=name, data="a"), d)
    acc = [0]
    plan = [None, None]
    real_open = builtins.open

    def step():
        if acc[0] == plan[0]:
            plan[1]()
        acc[0] += 1

    class F:
        def __init__(self, f):
            self.__dict__["f"] = f

        def __getattr__(self, k):
            v = getattr(self.f, k)
            if k in ("read", "readline", "readinto", "write", "close", "flush"):
                def g(*a, **kw):
                    step()
                    return v(*a, **kw)
                return g
            return v

        def __enter__(self):
            self.f.__enter__()
            return self

        def __exit__(self, *a):
            step()
            return self.f.__exit__(*a)

        def __iter__(self):
            return iter(self.f)

    def my_open(p, *a, **kw):
        if isinstance(p, str) and p.startswith(d):
            step()
            return F(real_open(p, *a, **kw))
        return real_open(p, *a, **kw)

    def states():
        yield "removed", lambda: put(d, {})
        yield "complete", lambda: put(d, files)
        for fn, b in files.items():
            for i in sorted({0, 1, 16, 31, 32, 33, 40, len(b) // 2, len(b) - 1}):
                def tr(fn=fn, b=b, i=i):
                    # in place: the same inode is truncated and rewritten
                    with real_open(os.path.join(d, fn), "wb") as g:
                        g.write(b[:i])
                yield "rewritten up to %d" % i, tr

        def other():
            pid = os.fork()
            if pid == 0:
                try:
                    builtins.open = real_open
                    plan[0] = None
                    os._exit(0 if attempt(model(name, "a", d).train)[0] == "ok" else 1)
                finally:
                    os._exit(2)
            os.waitpid(pid, 0)

        yield "other process trains", other

    for start in ({}, files):
        for what, act in states():
            for at in range(14):
                put(d, start)
                acc[0] = 0
                plan[:] = [at, act]
                builtins.open = my_open
                try:
                    sm = model(name, "a", d)
                    r = attempt(sm.train)
                finally:
                    builtins.open = real_open
                R.ev(), R.tr(), R.count("schedules")
                if acc[0] <= at:
                    break
                k = "%s/%s/%s" % (key, "warm" if start else "cold", what.split(" ")[0])
                R.state(key, bool(start), what, at), R.nt(key, bool(start), what, at)
                if what == "removed" and r[0] == "exc":
                    R.skip("cache directory emptied under a writer: error")
                    continue
                if not R.check(r[0] == "ok", k + "/raises", "%s before file access %d: training raises %s" % (what, at, r[1])):
                    break
                if not same_answers(R, k, ref, ans(sm), "%s before file access %d" % (what, at)):
                    break
                if what != "removed":
                    judge(R, k + "/next", name, "a", d, ref, "training after a race: %s at %d" % (what, at))

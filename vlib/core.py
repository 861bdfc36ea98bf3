"""Exhaustive case runner: enumerates a finite case space in crash-isolated workers, counts what was
explored, compares failures with the known-findings file and writes evidence."""
import fnmatch, hashlib, json, os, select, signal, sys, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rec:
    """Recorder handed to run(case, R)."""

    def __init__(self):
        self.n = {}
        self.fails = []
        self.states = set()
        self.nontrivial = set()
        self.sample = None
        self.skipped = {}

    def count(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def ev(self, v=1):
        """one execution of the real code"""
        self.count("evaluations", v)

    def tr(self, v=1):
        """one operation (transition) executed on the implementation"""
        self.count("transitions", v)

    def trace(self, v=1):
        """one model trace replayed against the implementation and compared"""
        self.count("traces_validated_against_impl", v)

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def nt(self, *key):
        self.nontrivial.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def fail(self, key, msg, **kw):
        if len(self.fails) < 50:
            self.fails.append({"key": key, "msg": str(msg)[:1500], "detail": {k: repr(v)[:600] for k, v in kw.items()}})

    def check(self, ok, key, msg="", **kw):
        self.count("comparisons")
        if not ok:
            self.fail(key, msg, **kw)
        return bool(ok)

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1


def _seed(case, seed):
    import random
    import numpy as np

    h = int(hashlib.md5((json.dumps(case, sort_keys=True, default=repr) + str(seed)).encode()).hexdigest()[:8], 16)
    np.random.seed(h)
    random.seed(h)


def run_case(mod, case, seed):
    R = Rec()
    _seed(case, seed)
    t = time.time()
    try:
        mod.run(case, R)
    except Exception as e:
        tb = traceback.format_exc()
        R.fail("%s exception %s" % (casekey(case), type(e).__name__), "unexpected exception: %s" % e, traceback=tb[-1200:])
    R.n["case_s"] = time.time() - t
    return R


def casekey(case):
    if isinstance(case, dict) and "key" in case:
        return case["key"]
    return json.dumps(case, sort_keys=True, default=repr)


def _worker(conn, mod, cases, seed, quiet):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get("SMTVERIF_STDERR"):
            os.dup2(dn, 2)
    while True:
        i = conn.recv()
        if i is None:
            break
        R = run_case(mod, cases[i], seed)
        conn.send((i, R.__dict__))
    os._exit(0)


def explore(mod, cases, seed, jobs, timeout, verbose=False):
    """Run every case; returns merged Rec plus the list of (case index, failure)."""
    tot = Rec()
    failures = []
    ctx = mp.get_context("fork")
    todo = list(range(len(cases)))[::-1]
    live = {}
    times = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, mod, cases, seed, True), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0]

    def give(w):
        if todo:
            w[2] = todo.pop()
            w[3] = time.time()
            w[1].send(w[2])
        else:
            w[2] = None
            try:
                w[1].send(None)
            except OSError:
                pass
            live.pop(w[1].fileno(), None)
            w[0].join(5)
            w[1].close()

    for _ in range(min(jobs, len(cases))):
        w = spawn()
        live[w[1].fileno()] = w
        give(w)
    while live:
        r, _, _ = select.select([w[1] for w in live.values()], [], [], 1.0)
        now = time.time()
        for w in list(live.values()):
            if w[1] in r:
                try:
                    i, d = w[1].recv()
                except (EOFError, OSError):
                    w[0].join(5)
                    code = w[0].exitcode
                    failures.append((w[2], {"key": "%s crash" % casekey(cases[w[2]]), "msg": "process died (exit code %s) while running this case" % code, "detail": {}}))
                    live.pop(w[1].fileno())
                    w[1].close()
                    if todo:
                        w = spawn()
                        live[w[1].fileno()] = w
                        give(w)
                    continue
                for k, v in d["n"].items():
                    tot.n[k] = tot.n.get(k, 0) + v
                tot.states |= d["states"]
                tot.nontrivial |= d["nontrivial"]
                for k, v in d["skipped"].items():
                    tot.skipped[k] = tot.skipped.get(k, 0) + v
                times.append((d["n"]["case_s"], casekey(cases[i])))
                for f in d["fails"]:
                    failures.append((i, f))
                give(w)
            elif now - w[3] > timeout:
                w[0].kill()
                w[0].join(5)
                failures.append((w[2], {"key": "%s hang" % casekey(cases[w[2]]), "msg": "no result within %d s" % timeout, "detail": {}}))
                live.pop(w[1].fileno())
                w[1].close()
                if todo:
                    w = spawn()
                    live[w[1].fileno()] = w
                    give(w)
    if verbose:
        for t in sorted(times)[-8:]:
            print("   slow %.2fs %s" % (t[0], t[1][:150]))
    return tot, failures


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f).get("findings", []):
                if e["property"] == pid:
                    out.append(e)
    return out


def match_known(known, key):
    for e in known:
        for k in e["keys"]:
            if k == key or (("*" in k) and fnmatch.fnmatchcase(key, k)):
                return e
    return None

"""C28: printing, timing and silencing against an independent printer model, with failures at every point."""
import itertools
import io
import os
import re
import sys
import contextlib
import numpy as np
from vlib.smtlib import *
from vlib import smtlib
from smt.utils.printer import Printer
from smt.utils.silence import Silence
from smt.utils import linear_solvers as lsol

ID = "C28"
LEVEL = "model_checking"
RULE = ("every program of nested timed operations, prints, failures and handlers up to a size x active x maximal depth: the lines, the recorded times and the state afterwards are those of a printer model; every nesting of silenced sections with failures at every place, over every kind of standard output; every linear solver x print options x failing at every call it makes; "
        "every surrogate x all combinations of the print switches: results bitwise those of the quiet model and text exactly the sections switched on; every surrogate x every single write of its report failing (as an error and as an interrupt), in training and in prediction: afterwards the model trains, predicts and prints as a fresh one; every maximal depth. States: (program or configuration, place of failure); non-trivial: nested or failing")
BOUNDS = {"quick": "programs of up to 5 nodes; silence nests of up to 3; 32 switch combinations, 18 surrogates, every write", "thorough": "programs of up to 6 nodes, all configurations"}
ASSUMPTIONS = ["times are masked", "what a linear solver prints are the lines naming the size of its matrix"]
TIMEOUT = 700

NAMES = ("LS", "QP", "IDW", "RBF", "RBF-p1", "RMTB", "RMTC", "KRG", "KRG-noise", "KPLS", "KPLSK", "GEKPLS", "MGP", "GENN", "MFK", "RMTB-krylov", "RMTB-mg", "KRG-dup")
SW = ("print_global", "print_training", "print_prediction", "print_problem", "print_solver")


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(0, 7 if th else 6):
        for part in range(1 if n < 4 else 16):
            out.append(dict(kind="nest", n=n, part=part, parts=1 if n < 4 else 16, key="C28/nest/%d/%d" % (n, part)))
    out.append(dict(kind="silence", key="C28/silence"))
    for s in SOLVERS:
        out.append(dict(kind="solver", s=s, key="C28/solver/" + s))
    for n in NAMES:
        out.append(dict(kind="switch", name=n, key="C28/switch/" + n))
        out.append(dict(kind="fault", name=n, key="C28/fault/" + n))
        out.append(dict(kind="depth", name=n, key="C28/depth/" + n))
    return out


# ---------------------------------------------------------------- programs of the printer
class Boom(Exception):
    pass


def progs(n):
    """blocks (tuples of nodes) of n nodes in all"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for head in nodes(k):
            for rest in progs(n - k):
                if head[0] == "raise" and rest:
                    continue
                yield (head,) + rest


def nodes(n):
    if n == 1:
        yield ("print", False)
        yield ("print", True)
        yield ("title",)
        yield ("raise",)
    for b in progs(n - 1):
        yield ("timed", "op", None, b)
        yield ("timed", None, "k", b)
        if n > 1 and n < 4:
            yield ("timed", "op", "k", b)
        if n > 1:
            yield ("try", b)


class Model:
    def __init__(self, active, maxd):
        self.a, self.m, self.d, self.out, self.times = active, maxd, 1, [], {}

    def p(self, s="", noindent=False):
        if self.a and self.d <= self.m:
            self.out.append(s if noindent else "   " * self.d + s)

    def run(self, b):
        for n in b:
            if n[0] == "print":
                self.p("x", n[1])
            elif n[0] == "title":
                self.p("_" * 75, True)
                self.p()
                self.p(" t", True)
                self.p()
            elif n[0] == "raise":
                raise Boom
            elif n[0] == "try":
                try:
                    self.run(n[1])
                except Boom:
                    self.p("caught")
            else:
                _, s, k, body = n
                if s:
                    self.p(s + " ...")
                self.d += 1
                try:
                    self.run(body)
                finally:
                    self.d -= 1
                if s:
                    self.p(s + " - done. Time (sec): T")
                if k:
                    self.times[k] = self.times.get(k, 0) + 1


def impl(P, b):
    for n in b:
        if n[0] == "print":
            P("x", noindent=n[1])
        elif n[0] == "title":
            P._title("t")
        elif n[0] == "raise":
            raise Boom
        elif n[0] == "try":
            try:
                impl(P, n[1])
            except Boom:
                P("caught")
        else:
            with P._timed_context(n[1], n[2]):
                impl(P, n[3])


def mask(s):
    return re.sub(r"(Time \(sec\):|pt\. \(sec\) :) *[\d.eE+-]+", r"\1 T", s)


def run_nest(case, R):
    for i, b in enumerate(progs(case["n"])):
        if i % case["parts"] != case["part"]:
            continue
        for active, maxd in ((True, 100), (True, 2), (True, 0), (False, 100)):
            P = Printer()
            P.active, P.max_print_depth = active, maxd
            m = Model(active, maxd)
            buf = io.StringIO()
            r1 = r2 = None
            with contextlib.redirect_stdout(buf):
                try:
                    impl(P, b)
                except Boom:
                    r1 = "boom"
            try:
                m.run(b)
            except Boom:
                r2 = "boom"
            R.ev()
            R.tr(case["n"])
            key = "%s/%d/%d%d" % (case["key"], i, active, maxd)
            R.state(key)
            if "raise" in repr(b):
                R.nt(key)
            got = mask(buf.getvalue()).split("\n")[:-1]
            ok = r1 == r2 and got == m.out and (P.depth, P.active, P.max_print_depth) == (1, active, maxd) and {k: len(v) for k, v in P.times.items()} == m.times
            if not ok:
                R.check(False, key, "printer differs from its model", prog=b, got=got, want=m.out, state=(P.depth, P.active), times=P.times, raised=(r1, r2))
            ok = all(np.isfinite(v).all() and min(v) >= 0 for v in P.times.values())
            R.check(ok, key + " times", "recorded times")


# ---------------------------------------------------------------- silence
def run_silence(case, R):
    class Tee(io.StringIO):
        pass

    # a nest is a list of levels; each may raise before or after its inner one, and be caught outside
    real = sys.stdout
    outs = {"real": lambda: sys.__stdout__, "buffer": lambda: Tee(), "file": lambda: open(os.devnull, "w")}
    for kind, depth in itertools.product(outs, (1, 2, 3)):
        for plan in itertools.product(("", "before", "after"), repeat=depth):
            for catch in itertools.product((False, True), repeat=depth):
                for reuse in (False, True):
                    o = outs[kind]()
                    sys.stdout = o
                    seen = []
                    one = Silence()

                    def level(k):
                        if k == depth:
                            print("inner")
                            return
                        outer = sys.stdout
                        try:
                            with (one if reuse and k == 0 else Silence()):
                                if sys.stdout is outer:
                                    seen.append("not silenced")
                                print("hidden", k)
                                if plan[k] == "before":
                                    raise Boom
                                level(k + 1)
                                print("hidden", k)
                                if plan[k] == "after":
                                    raise Boom
                        except Boom:
                            if sys.stdout is not outer or sys.stdout.closed:
                                seen.append("not restored after an error at level %d" % k)
                            if not catch[k]:
                                raise
                        if sys.stdout is not outer:
                            seen.append("not restored at level %d" % k)

                    try:
                        for rep in range(2 if reuse else 1):
                            try:
                                level(0)
                            except Boom:
                                pass
                        end = sys.stdout
                    except Exception as e:
                        end = repr(e)
                    finally:
                        sys.stdout = real
                    key = "%s/%s/%s/%s/%d" % (case["key"], kind, ",".join(plan), "".join("%d" % c for c in catch), reuse)
                    R.ev()
                    R.state(key)
                    R.nt(key)
                    R.check(end is o and not seen, key, "standard output is not what it was", end=end, seen=seen)
                    if kind == "buffer":
                        R.check(o.getvalue() == "", key + " text", "silenced text was written", got=o.getvalue())
                    if kind == "file":
                        o.close()


# ---------------------------------------------------------------- linear solvers
SOLVERS = ["dense-chol", "dense-lu", "lu", "ilu", "krylov-dense", "krylov-lu", "krylov-mg", "krylov", "gs", "jacobi", "mg", "null"]


def run_solver(case, R):
    import scipy.sparse as sp

    n = 5
    A = np.eye(n) * 4 - np.eye(n, k=1) - np.eye(n, k=-1)
    rhs = 1.0 + np.arange(n)
    dense = case["s"].startswith("dense")
    M = A if dense else sp.csc_matrix(A)

    def go(s, P, boom_at=None, init=True, solve=True, mode="io"):
        """one use of the solver; the boom_at-th line it prints fails"""
        s.options["print_init"] = init
        s.options["print_solve"] = solve
        buf = Broken(boom_at) if boom_at is not None else io.StringIO()
        res = None
        with contextlib.redirect_stdout(buf):
            try:
                s._setup(M, P)
                sol = np.zeros(n)
                res = s._solve(rhs, sol)
                res = sol
            except OSError as e:
                res = "boom"
        return res, buf.getvalue() if boom_at is None else None

    def solver():
        try:
            return lsol.get_solver(case["s"])
        except Exception:
            return None

    if solver() is None:
        R.skip("no such solver")
        return
    quiet = Printer()
    st, base = attempt(go, solver(), quiet)
    if st == "exc":
        R.skip("does not solve a bare matrix")
        return
    R.check(base[1] == "", case["key"] + " inactive", "an inactive printer prints", got=base[1])
    P = Printer()
    P.active = True
    full = go(solver(), P)
    part = {}
    for a, i, s in itertools.product((True, False), (True, False), (True, False)):
        P = Printer()
        P.active = a
        r, text = go(solver(), P, None, i, s)
        key = "%s/%d%d%d" % (case["key"], a, i, s)
        R.ev()
        R.state(key)
        R.check(np.array_equal(r, base[0]), key + " result", "printing changes the solution", got=r, want=base[0])
        R.check(P.active is a and P.depth == 1, key + " state", "the printer is not as before", got=(P.active, P.depth))
        want = mask(full[1]) if a and i and s else "" if not a or not (i or s) else None
        if want is not None:
            R.check(mask(text) == want, key + " text", "text", got=text, want=want)
        else:
            R.check(len(text) <= len(full[1]), key + " less", "an option to print less prints more", got=text)
            part[i, s, a] = mask(text)
    R.check(part[True, False, True] + part[False, True, True] == mask(full[1]), case["key"] + " parts", "the two parts are not the whole", parts=part, whole=full[1])
    nw = len(full[1].split("\n"))
    for k in range(2 * nw):
        P = Printer()
        P.active = True
        s = solver()
        r, _ = go(s, P, k)
        key = "%s/fail%d" % (case["key"], k)
        R.ev()
        R.state(key)
        R.nt(key)
        R.check(P.active is True and P.depth == 1, key + " state", "a failure leaves the printer changed", got=(P.active, P.depth))
        r, text = go(s, P)
        R.check(np.array_equal(r, base[0]) and mask(text) == mask(full[1]), key + " next", "after a failure the solver differs from a fresh one", got=(r, text), want=(base[0], full[1]))


# ---------------------------------------------------------------- surrogates
class Broken(io.StringIO):
    """a standard output whose k-th write fails"""

    def __init__(self, k, exc=OSError):
        super().__init__()
        self.k, self.exc, self.hit = k, exc, False

    def write(self, s):
        if self.k == 0:
            self.k = -1
            self.hit = True
            raise self.exc("write")
        self.k -= 1
        return super().write(s)


def build(name, **o):
    kw = {}
    if name == "RMTB-krylov":
        kw, name = dict(solver="krylov", nonlinear_maxiter=2), "RMTB"
    elif name == "RMTB-mg":
        kw, name = dict(solver="krylov-mg", nonlinear_maxiter=2, num_ctrl_pts=8), "RMTB"
    dup = name == "KRG-dup"
    if dup:
        kw, name = dict(nugget=1e-6, theta0=[1e3]), "KRG"
    if name == "GENN":
        kw = dict(num_epochs=2, num_iterations=2, mini_batch_size=1, is_print=True)
    if name.startswith("RMT") and not kw:
        kw = dict(nonlinear_maxiter=2)
    kw.update(o)
    nx = 2
    x, y = dataset(7, nx)[:2]
    if dup:
        x = np.vstack([x, x[:1]])
        y = np.vstack([y, y[:1]])
    pr = {k: kw.pop(k) for k in SW if k in kw}
    sm = make(name, nx, **kw)
    for k, v in pr.items():
        sm.options[k] = v
    feed(name, sm, x, y)
    return sm


Q = np.array([[0.21, 0.34], [0.8, 0.55], [0.5, 0.11]])


def calls(sm):
    """the calls that report, in order"""
    L = [("train", sm.train), ("values", lambda: sm.predict_values(Q.copy()))]
    if sm.supports["derivatives"]:
        L.append(("derivs", lambda: sm.predict_derivatives(Q.copy(), 1)))
    if sm.supports["variances"]:
        L.append(("var", lambda: sm.predict_variances(Q.copy())))
    if sm.supports.get("output_derivatives"):
        L.append(("out", lambda: sm.predict_output_derivatives(Q.copy())))
    return L


def session(sm, calls=calls):
    """texts and results of every reporting call"""
    T, A = [], []
    for n, f in calls(sm):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            r = attempt(f)
        T.append(mask(buf.getvalue()))
        r = (r[0], {k: np.array(v) for k, v in r[1].items()} if isinstance(r[1], dict) else np.array(r[1]) if n != "train" and r[0] == "ok" else r[1])
        A.append((n, r))
    return T, A


def eq(a, b):
    if len(a) != len(b):
        return False
    for (n1, (s1, v1)), (n2, (s2, v2)) in zip(a, b):
        if n1 != n2 or s1 != s2:
            return False
        if isinstance(v1, dict):
            if not all(np.array_equal(v1[k], v2[k], equal_nan=True) for k in v1):
                return False
        elif isinstance(v1, np.ndarray):
            if not np.array_equal(v1, v2, equal_nan=True):
                return False
        elif v1 != v2:
            return False
    return True


def sections(text):
    """(kind, lines) of a report; a section starts with a rule"""
    out = []
    for l in text.split("\n")[:-1]:
        if l == "_" * 75:
            out.append([])
        (out[-1] if out else out.append([]) or out[-1]).append(l)
    res = []
    for s in out:
        t = [l.strip() for l in s]
        k = "head"
        if "Problem size" in t:
            k = "print_problem"
        elif any(l.startswith("Training") for l in t):
            k = "print_training"
        elif any(l.startswith("Evaluation") for l in t):
            k = "print_prediction"
        res.append((k, s))
    return res


WARN = ("Warning:", "exception :", "Optimization failed", "fmin_cobyla")


def run_switch(case, R):
    name = case["name"]
    quiet = session(build(name, print_global=False))
    R.check(all(t == "" for t in quiet[0]), case["key"] + " quiet", "something is printed with print_global off", got=quiet[0])
    full = session(build(name, print_global=True))
    if name != "KRG-dup":
        R.check(quiet[1][0][1][0] == "ok", case["key"] + " train", "training fails", got=quiet[1][0])
    for combo in itertools.product((True, False), repeat=5):
        o = dict(zip(SW, combo))
        key = "%s/%s" % (case["key"], "".join("%d" % c for c in combo))
        sm = build(name, **o)
        opts = repr(sorted((k, repr(v)) for k, v in sm.options._dict.items()))
        T, A = session(sm)
        R.ev()
        R.trace()
        R.state(key)
        if 0 < sum(combo) < 5:
            R.nt(key)
        R.check(eq(A, quiet[1]), key + " results", "print options change the results", got=A, want=quiet[1])
        R.check(opts == repr(sorted((k, repr(v)) for k, v in sm.options._dict.items())), key + " options", "reporting changes options")
        for (n, _), t, f in zip(A, T, full[0]):
            want = []
            if o["print_global"]:
                for k, ls in sections(f):
                    if n == "out":
                        k = "print_prediction"
                    if k == "head" or o[k]:
                        want += [l for l in ls if o["print_solver"] or not re.search(r"\(\d+ x \d+ mtx\)", l)]
            got = t.split("\n")[:-1]
            # warnings are not part of a section
            g2, w2 = ([l for l in ls if not l.startswith(WARN)] for ls in (got, want))
            R.check(g2 == w2, "%s text %s" % (key, n), "the report is not made of the sections switched on", got=got, want=want)
            R.check(o["print_global"] or t == "", "%s global %s" % (key, n), "printed although print_global is off", got=t)
    # toggled between calls, on one model
    sm = build(name, print_global=True)
    for combo in ((0, 1, 1, 1, 1), (1, 0, 1, 1, 1), (1, 1, 0, 0, 1), (1, 1, 1, 1, 0), (1, 1, 1, 1, 1)):
        for k, v in zip(SW, combo):
            sm.options[k] = bool(v)
        T, A = session(sm)
        ref = session(build(name, **{k: bool(v) for k, v in zip(SW, combo)}))
        R.ev()
        R.check(T == ref[0] and eq(A, ref[1]), "%s/toggle/%s" % (case["key"], "".join(map(str, combo))), "a model whose switches were changed reports differently", got=T, want=ref[0])
    # switched between two calls: a call reports by the switches at its time, not by those of the call before
    n = len(full[0])
    for i in range(1, n):
        for sw in ("print_global", "print_prediction"):
            for v in (False, True):
                sm = build(name, print_global=True)
                sm.options[sw] = not v
                L = calls(sm)
                with contextlib.redirect_stdout(io.StringIO()):
                    for _, f in L[:i]:
                        attempt(f)
                sm.options[sw] = v
                T, A = session(sm, lambda s: L[i : i + 1])
                key = "%s/flip/%d/%s/%d" % (case["key"], i, sw, v)
                R.ev()
                R.state(key)
                R.nt(key)
                R.check(T[0] == (full[0][i] if v else "") and eq(A, quiet[1][i : i + 1]), key, "a call reports by older switches", got=T[0], want=full[0][i] if v else "")


def run_fault(case, R):
    name = case["name"]
    fresh = session(build(name, print_global=True))
    names = [n for n, _ in fresh[1]]
    for ci, cn in enumerate(names):
        nw = 2 * fresh[0][ci].count("\n") + 2
        for k in range(nw):
            for exc in (OSError, KeyboardInterrupt):
                if exc is KeyboardInterrupt and nw > 60 and k % 5:
                    continue
                sm = build(name, print_global=True)
                L = calls(sm)
                for n, f in L[:ci]:
                    with contextlib.redirect_stdout(io.StringIO()):
                        attempt(f)
                b = Broken(k, exc)
                with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        L[ci][1]()
                    except BaseException as e:
                        if isinstance(e, SystemExit):
                            raise
                if not b.hit:
                    continue
                key = "%s/%s/%d/%s" % (case["key"], cn, k, exc.__name__)
                R.ev()
                R.trace()
                R.state(key)
                R.nt(key)
                out = sys.stdout
                R.check(sm.printer.depth == 1, key + " depth", "a failing report leaves the printer indented", got=sm.printer.depth)
                if ci:
                    # predictions go on
                    T, A = session(sm, lambda s: calls(s)[1:])
                    R.check(eq(A, fresh[1][1:]) and T == fresh[0][1:], key + " next", "after a failing report predictions or their reports differ", got=T, want=fresh[0][1:])
                T, A = session(sm)
                R.check(eq(A, fresh[1]) and T == fresh[0], key + " again", "after a failing report the model does not train, predict and report like a fresh one", got=T, want=fresh[0])


def run_depth(case, R):
    name = case["name"]
    full = session(build(name, print_global=True))
    sm = build(name)
    if sm.options.is_declared("max_print_depth"):
        big = session(build(name, print_global=True, max_print_depth=50))
        for d in range(0, 12):
            sm = build(name, print_global=True, max_print_depth=d)
            T, A = session(sm)
            key = "%s/%d" % (case["key"], d)
            R.ev()
            R.state(key)
            R.check(eq(A, full[1]), key + " results", "the depth of the report changes the results")
            for i, (t, f) in enumerate(zip(T, big[0])):
                want = []
                for kind, ls in sections(f):
                    for l in ls:
                        kind = "" if A[i][0] == "out" else kind
                        ind = (len(l) - len(l.lstrip(" "))) // 3
                        if l.strip() == "" or "_" * 75 == l or kind == "head" or l.strip() in ("Training", "Evaluation", "Problem size") or "# training points" in l or "# eval points" in l:
                            ind = 1
                        if ind <= d:
                            want.append(l)
                if i:  # the first report starts before the depth is known
                    R.check(t.split("\n")[:-1] == want, "%s text %d" % (key, i), "lines are not those up to the depth", got=t, want=want)
                else:
                    k = next((j for j, l in enumerate(big[0][0].split("\n")) if "Training ..." in l), 0) + 1
                    R.check([l for l in t.split("\n")[k:-1]] == want[len([l for l in big[0][0].split("\n")[:k]]):] if d >= 1 else True, "%s text %d" % (key, i), "lines are not those up to the depth", got=t, want=want)
    # predicting nothing
    sm = build(name, print_global=True)
    with contextlib.redirect_stdout(io.StringIO()):
        attempt(sm.train)
    for fn in ("predict_values", "predict_variances"):
        if fn == "predict_variances" and not sm.supports["variances"]:
            continue
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            st, r = attempt(getattr(sm, fn), np.zeros((0, 2)))
        R.ev()
        R.check(st == "ok" and np.shape(r)[0] == 0 or st == "exc" and r != "ZeroDivisionError", "%s %s empty" % (case["key"], fn), "reporting fails on no points", got=r)
    if sm.supports["derivatives"]:
        with contextlib.redirect_stdout(io.StringIO()):
            st, r = attempt(sm.predict_derivatives, np.zeros((0, 2)), 0)
        R.check(st == "ok" or r != "ZeroDivisionError", "%s derivatives empty" % case["key"], "reporting fails on no points", got=r)


def run(case, R):
    globals()["run_" + case["kind"]](case, R)

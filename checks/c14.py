"""C14: bounded API histories of the native models under AddressSanitizer and under two heap fill patterns."""
import contextlib, ctypes, io, itertools, json, os, subprocess, sys, tempfile
import numpy as np
from vlib.smtlib import *

ID = "C14"
LEVEL = "model_checking"
RULE = ("every history set A, [derivatives], train, all predictions, set B | change option | nothing, all predictions, train, all predictions, for every ordered pair of data shapes x every option combination (valid, boundary and invalid values, wrong lengths) of the native models; queries of every batch size with NaN, infinities, huge, "
        "denormal and boundary coordinates in every column, every input index from -2 to nx+1. Each history runs (1) with the native code instrumented by AddressSanitizer and (2) twice with different heap fill patterns, results compared bit for bit. Non-trivial: histories in which at least one training succeeded")
BOUNDS = {"quick": "nx<=3, nt<=9, ny<=2, 5 shapes, every option variant with 5-6 of the 25 shape pairs (every first shape, rotating second shape) and with all 6 intermediate steps for one shape", "thorough": "all shape pairs for all option variants"}
ASSUMPTIONS = ["uninitialised reads are observed through results that depend on the fill pattern of fresh memory; reads whose value cannot influence any result are not seen"]
TIMEOUT = 850
SHAPES = [(1, 1, 1), (6, 1, 2), (5, 2, 1), (9, 2, 2), (4, 3, 1)]


def L(*rows):
    return ["arr"] + [list(r) for r in rows]


def variants(th):
    u3 = L((0.0, 1.0), (0.0, 1.0), (0.0, 1.0))
    out = []
    for p in (2.5, 0.0, -1.0, 40.0, float("nan")):
        out.append(("IDW", dict(p=p)))
    for pd in (-1, 0, 1):
        for d0 in (0.7, [0.5], [0.5, 0.6], [0.5, 0.6, 0.7], [0.5] * 4, 0.0):
            out.append(("RBF", dict(d0=d0, poly_degree=pd)))
    base = dict(approx_order=2, nonlinear_maxiter=1, solver="dense-lu", derivative_solver="dense-lu", energy_weight=1e-2, regularization_weight=1e-3)
    xl = ["nx", u3, L((0.0, 1.0)), L((0.0, 1.0), (0.0, 1.0)), L((1.0, 0.0), (1.0, 0.0), (1.0, 0.0)), L((0.0, 0.0), (0.0, 0.0), (0.0, 0.0)), L((float("nan"), 1.0), (0.0, 1.0), (0.0, 1.0)), L((-1e300, 1e300), (0.0, 1.0), (0.0, 1.0)), ["arr", 0.0, 1.0], "nx+1", "nxint", "tight"]
    for ex, o in itertools.product((False, True), (1, 2, 3, 4, 5)):
        for ncp in (o - 2, o - 1, o, o + 1, 5):
            out.append(("RMTB", dict(base, xlimits="nx", order=o, num_ctrl_pts=ncp, extrapolate=ex)))
    for x in xl:
        out.append(("RMTB", dict(base, xlimits=x, order=3, num_ctrl_pts=4, extrapolate=True)))
        out.append(("RMTC", dict(base, xlimits=x, num_elements=2, extrapolate=True)))
    for o, n in (([3, 2], [3, 5]), ([2], [4]), ([2, 3, 4], [4, 4, 4]), ([2, 3], [4]), ([3, 3, 3, 3], 4), (3, [2, 4]), ([4, 2], 4), (0, 3), (-1, 3), ([0, 3], 4)):
        out.append(("RMTB", dict(base, xlimits="nx", order=o, num_ctrl_pts=n)))
    for ex, n in itertools.product((False, True), (0, -1, 1, 2, 3, [1], [1, 2], [2, 1], [1, 2, 1], [0, 1], [2, 1, 1, 1])):
        out.append(("RMTC", dict(base, xlimits="nx", num_elements=n, extrapolate=ex)))
    for p in (4,):
        out.append(("RMTB", dict(base, xlimits="nx", order=3, num_ctrl_pts=4, approx_order=p, min_energy=False, solver="krylov", derivative_solver="krylov")))
        out.append(("RMTC", dict(base, xlimits="nx", num_elements=1, approx_order=p, min_energy=False, solver="krylov", derivative_solver="krylov")))
    return out


MIDS = ["set", "xlimits", "sizes", "none", "update", "extrapolate"]


def histories(tier):
    th = tier == "thorough"
    out = []
    for vi, (m, o) in enumerate(variants(th)):
        for si, (a, b) in enumerate(itertools.product(range(len(SHAPES)), repeat=2)):
            if not th and not (a == b == vi % 5 or (a + vi) % 5 == b):
                continue
            mids = ["set"] if a != b else MIDS if th or a == vi % 5 else ["set", MIDS[1 + (vi + a) % 5]]
            for mid in mids:
                if m in ("IDW", "RBF") and mid in ("xlimits", "extrapolate"):
                    continue
                for dv in ((0,) if not m.startswith("RMT") else (0, 1, 2, 3) if a == b and mid == "set" and (th or a == vi % 5) else ((vi + si) % 2,)):
                    out.append(dict(m=m, o=o, a=a, b=b, mid=mid, dv=dv))
    return out


NCHUNK = 16


def cases(tier):
    return [dict(kind=k, part=i, tier=tier, key="C14/%s/%d" % (k, i)) for i in range(NCHUNK) for k in ("asan", "fill")]


def hkey(h):
    return "C14/%s/%s/a%d/b%d/%s/dv%d" % (h["m"], ",".join("%s=%s" % (k, h["o"][k]) for k in h["o"] if k in ("p", "d0", "poly_degree", "xlimits", "order", "num_ctrl_pts", "num_elements", "extrapolate", "approx_order")), h["a"], h["b"], h["mid"], h["dv"])


def xlim(v, nx):
    if v == "nx":
        return unit(nx)
    if v == "nxint":
        return np.array([[0, 1]] * nx)
    if v == "nx+1":
        return unit(nx + 1)
    if v == "tight":
        return np.array([[0.3, 0.4]] * nx)
    return np.array(v[1:], dtype=float)


def specials(nx):
    rows = [np.full(nx, 0.37), np.zeros(nx), np.ones(nx)]
    for k in range(nx):
        for v in (float("nan"), float("inf"), -float("inf"), 1e308, -1e308, 1e12, 5e-324, -0.0, 1.0, 0.5, -0.3, 1.7):
            r = np.full(nx, 0.41)
            r[k] = v
            rows.append(r)
    return np.array(rows)


def give(sm, sh, dv):
    nt, nx, ny = sh
    x = halton(nt, nx, 2)
    sm.set_training_values(x, fun(x, ny))
    if dv:
        for k in range(nx):
            if dv == 1:
                attempt(sm.set_training_derivatives, x, dfun(x, k, ny), k)
        if dv == 2:  # derivative data at other points, of another width
            x2 = halton(3, max(1, nx - 1), 9)
            attempt(sm.set_training_derivatives, x2, np.ones((3, ny)), 0)
        if dv == 3:
            for k in (-1, nx, nx + 3):
                attempt(sm.set_training_derivatives, x, np.ones((nt, ny)), k)


def predictions(sm, nx, out):
    S = specials(nx)
    qs = [S, S[:1], halton(7, nx, 50), np.asfortranarray(S[:4]), S[::2], halton(4, nx + 1, 3), halton(3, max(1, nx - 1), 3), S[:0]]
    for q in qs:
        out.append(attempt(sm.predict_values, q))
    for k in range(-2, nx + 2):
        out.append(attempt(sm.predict_derivatives, S, k))
        out.append(attempt(sm.predict_derivatives, S[1:3], k))
    r = attempt(sm.predict_output_derivatives, S[:9])
    out.append(r if r[0] == "exc" else ("ok", np.concatenate([np.asarray(r[1][k]).ravel() for k in sorted(r[1], key=repr)])))


def history(h):
    cls = {"IDW": IDW, "RBF": RBF, "RMTB": RMTB, "RMTC": RMTC}[h["m"]]
    out = []
    nx = SHAPES[h["a"]][1]
    o = dict(h["o"])
    if "xlimits" in o:
        o["xlimits"] = xlim(o["xlimits"], nx)
    try:
        sm = cls(print_global=False, **o)
    except Exception as e:
        return [("exc", type(e).__name__)], 0
    n = 0
    predictions(sm, nx, out)
    give(sm, SHAPES[h["a"]], h["dv"])
    out.append(attempt(sm.train))
    n += out[-1][0] == "ok"
    predictions(sm, nx, out)
    mid = h["mid"]
    if mid == "set":
        nx = SHAPES[h["b"]][1]
        give(sm, SHAPES[h["b"]], h["dv"])
    elif mid == "update":
        nt, _, ny = SHAPES[h["a"]]
        sm.update_training_values(np.ones((nt, 3 - ny)))
    elif mid == "xlimits":
        attempt(sm.options.__setitem__, "xlimits", unit(nx + 1) if nx == 1 else unit(nx - 1))
    elif mid == "extrapolate":
        attempt(sm.options.__setitem__, "extrapolate", not sm.options["extrapolate"])
    elif mid == "sizes":
        for k, v in (("num_ctrl_pts", 7), ("order", 2), ("num_elements", 4), ("d0", [0.3] * (nx + 1)), ("poly_degree", 1), ("p", 3.0)):
            if k in sm.options._declared_entries if hasattr(sm.options, "_declared_entries") else True:
                attempt(sm.options.__setitem__, k, v)
    predictions(sm, nx, out)
    if mid == "set" and "xlimits" in o and isinstance(h["o"]["xlimits"], str):
        sm.options["xlimits"] = xlim(h["o"]["xlimits"], nx)
    out.append(attempt(sm.train))
    n += out[-1][0] == "ok"
    predictions(sm, nx, out)
    return out, n


def run(case, R):
    hs = histories(case["tier"])[case["part"] :: NCHUNK]
    if case["kind"] == "asan":
        asan(case, R, hs)
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            fill(case, R, hs)


def fill(case, R, hs):
    libc = ctypes.CDLL(None)
    for h in hs:
        res = []
        for pat, f in ((0x5A, 1e30), (0xFF, -3.0)):
            libc.mallopt(-6, pat)
            junk = [np.full(n, f) for n in range(1, 129) for _ in range(3)] + [np.full(n, 1 << 20, dtype=np.int32) for n in range(1, 257)]
            del junk
            out, n = history(h)
            res.append(out)
        libc.mallopt(-6, 0)
        R.ev(2), R.tr(2 * len(res[0])), R.trace(), R.state(hkey(h))
        if n:
            R.nt(hkey(h))
        for i, (p, q) in enumerate(zip(*res)):
            ok = p[0] == q[0] and (p[1] == q[1] if p[0] == "exc" else (p[1] is None or (np.asarray(p[1]).shape == np.asarray(q[1]).shape and np.array_equal(np.asarray(p[1], float), np.asarray(q[1], float), equal_nan=True))))
            if not R.check(ok, hkey(h) + "/uninitialised", "answer %d depends on the content of fresh memory: %r / %r" % (i, p, q)):
                break
        R.check(len(res[0]) == len(res[1]), hkey(h) + "/length", "the histories differ")


def asan(case, R, hs):
    env = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix="c14_") as d:
        log = os.path.join(d, "asan")
        prog = os.path.join(d, "progress")
        env.update(LD_PRELOAD=os.environ["SMTVERIF_ASANLIB"], SMTVERIF_EXTDIR=os.environ["SMTVERIF_ASANDIR"], SMTVERIF_PREDONE="1", PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=77:log_path=%s:malloc_fill_byte=255:max_malloc_fill_size=65536:free_fill_byte=253:max_free_fill_size=65536:allocator_may_return_null=1" % log)
        todo = list(range(len(hs)))
        for _ in range(12):
            with open(os.path.join(d, "in.json"), "w") as f:
                json.dump([[i, hs[i]] for i in todo], f)
            open(prog, "w").close()
            r = subprocess.run([sys.executable, "-m", "vlib.asan_child", os.path.join(d, "in.json"), prog], env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True)
            lines = open(prog).read().split("\n")
            began = [int(l.split()[1]) for l in lines if l.startswith("b ")]
            done = [l.split() for l in lines if l.startswith("e ")]
            for l in done:
                i = int(l[1])
                R.ev(), R.tr(int(l[3])), R.trace(), R.state("asan", hkey(hs[i]))
                if int(l[2]):
                    R.nt("asan", hkey(hs[i]))
                R.check(True, "x")
            if r.returncode == 0 and len(done) == len(todo):
                return
            if not began:
                R.fail("C14/asan/start", "the instrumented process does not start: %s" % r.stderr[-600:])
                return
            bad = began[-1]
            rep = ""
            for f in sorted(os.listdir(d)):
                if f.startswith("asan."):
                    rep += open(os.path.join(d, f)).read()
                    os.remove(os.path.join(d, f))
            err = [l for l in rep.split("\n") if "ERROR: AddressSanitizer" in l][:1]
            frames = [l.strip() for l in rep.split("\n") if l.strip().startswith("#") and "smt" in l or "clib" in l][:3]
            R.fail(hkey(hs[bad]) + "/memory", "%s %s" % (err or "process died with status %s" % r.returncode, frames))
            todo = [i for i in todo if i > bad]
            if not todo:
                return

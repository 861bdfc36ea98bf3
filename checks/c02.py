"""C02: exhaustive enumeration of query batches (all row arrangements, block boundaries, memory layouts) and of
prediction-call sequences on one trained object; reference = single-row predictions of a pristine twin."""
import itertools
import numpy as np
from vlib.smtlib import *
from vlib import apps

ID = "C02"
LEVEL = "model_checking"
RULE = ("(a) every sequence of length 1..L over 4 query rows (all orders, duplications), (b) batch sizes on both sides of the kernel block limits, (c) memory layouts and dtypes, "
        "(d) every interleaving of prediction calls up to the depth bound; each answer compared with the pristine single-row answer. Non-trivial: batches of more than one row or sequences of more than one call")
BOUNDS = {"quick": "L=3 (4+16+64 batches), call sequences of length 2, block sizes 999..2001 (nt=10)", "thorough": "L=4 (340 batches), call sequences of length 3, block sizes to 3001"}
ASSUMPTIONS = ["row-wise equality is up to 1e-7 relative to the largest answer (BLAS may sum in another order for another batch size)"]
TIMEOUT = 600

MOE_ = dict(n_clusters=2)
APPS = {
    "MFK2": lambda: apps.build_mf(MFK, 2), "MFK3lin": lambda: apps.build_mf(MFK, 3, poly="linear", rho_regr="linear", nh=9),
    "MFKPLS2": lambda: apps.build_mf(MFKPLS, 2), "MFKPLSK2": lambda: apps.build_mf(MFKPLSK, 2),
    "VFM-add": lambda: apps.build_vfm("QP", "KRG"), "VFM-mul": lambda: apps.build_vfm("LS", "RBF", "Multiplicative"),
    "MOE-s": lambda: apps.build_moe(variances_support=True, allow=["KRG"], **MOE_), "MOE-h": lambda: apps.build_moe(smooth_recombination=False, **MOE_), "MOE-1": lambda: apps.build_moe(n_clusters=1),
    "MOESM": lambda: apps.build_moe(cls=apps.MOESurrogateModel, **MOE_),
    "MI-KRG": lambda: apps.build_mi("KRG"), "MI-KPLS": lambda: apps.build_mi("KPLS"), "MI-RBF-u": lambda: apps.build_mi("RBF", False), "MI-QP": lambda: apps.build_mi("LS"),
}


def build(case):
    name = case["model"]
    if name in APPS:
        return APPS[name]()
    nx, ny = case["nx"], case["ny"]
    x, y = dataset(10, nx, ny, 1)
    sm = make(name, nx, **({"nugget": 1e-6} if name in ("MGP", "GEKPLS") else {}))
    np.random.seed(3)
    feed(name, sm, x, y)
    sm.train()
    return sm


def cases(tier):
    out = []
    for name in CONFIGS:
        for nx in (1, 2, 3):
            if nx == 3 and name in ("RMTB", "RMTC", "RMTB-lin", "RMTC-ex") and tier == "quick":
                continue
            ny = 2 if CONFIGS[name][3] else 1
            out.append({"model": name, "nx": nx, "ny": ny, "tier": tier, "key": "C02/%s/nx%d" % (name, nx)})
    for name in APPS:
        out.append({"model": name, "nx": 3 if name.startswith("MI") else 2, "ny": 1, "tier": tier, "key": "C02/%s" % name})
    out.sort(key=lambda c: c["model"] not in APPS and not c["model"].startswith(("RMT", "MFK", "KRG")))
    return out


def rows(case, sm):
    n, name = case["nx"], case["model"]
    if name.startswith("MI"):
        xf = np.array([[0.2, -1, 0], [0.55, 1, 2], [0.9, 2, 1], [0.1 + 0.05 * -1, -1, 0]])  # last is a training point
        return apps.MixedIntegerContext(apps.XT, apps.XL).unfold_with_enum_mask(xf) if "-u" in name else xf
    x = np.array([[0.31, 0.62, 0.2], [0.83, 0.17, 0.9], [0.5, 0.4, 0.7], halton(1, 3)[0]])[:, :n]
    x[3] = halton(1, n)[0]  # a training point (kink of distances)
    if not (name.startswith("RMT") and "lin" not in name and "ex" not in name) and not name.startswith(("VFM", "MOE")):
        x[2, 0] = 1.3  # outside the training box
    return x


def calls(sm, nx):
    c = {"v": lambda x: sm.predict_values(x)}
    if hasattr(sm, "predict_derivatives") and sm_supports(sm, "derivatives"):
        for k in range(nx):
            c["d%d" % k] = lambda x, k=k: sm.predict_derivatives(x, k)
    if sm_supports(sm, "variances"):
        c["s"] = lambda x: sm.predict_variances(x)
    if sm_supports(sm, "output_derivatives"):
        c["o"] = lambda x: sm.predict_output_derivatives(x)[None]
    if sm_supports(sm, "variance_derivatives"):
        c["sd"] = lambda x: np.vstack([sm.predict_variance_derivatives(x[i : i + 1]) for i in range(len(x))])
    return c


def sm_supports(sm, what):
    if what == "derivatives" and isinstance(sm, apps.VFM):
        return "predict_derivatives" in sm.sm_HF
    if isinstance(sm, apps.MOE):
        return what == "variances" and sm.options["variances_support"]
    if isinstance(sm, apps.MixedIntegerSurrogateModel):
        return what == "variances" and sm.supports[what]
    return bool(getattr(sm, "supports", {}).get(what))


def run(case, R):
    ny, key, thorough = case["ny"], case["key"], case["tier"] == "thorough"
    sm = build(case)
    nx = case["nx"]
    X = rows(case, sm)
    if case["model"].startswith("MI") and "-u" in case["model"]:
        nx = 5
    nd = {"MFKPLS2": 2}.get(case["model"], nx)
    C = calls(sm, nd)
    ref = {}
    for c in C:
        for i in range(4):
            ref[c, i] = attempt(C[c], X[i : i + 1].copy())
            R.ev()
    def expected(c, idx):
        rs = [ref[c, i] for i in idx]
        if any(r[0] == "exc" for r in rs):
            return ("exc", next(r[1] for r in rs if r[0] == "exc"))
        return ("ok", np.concatenate([np.asarray(r[1]) for r in rs], axis=0))

    if "s" in C:  # process variance scale: far from the data
        far = attempt(C["s"], X[:1] + 7.0) if not case["model"].startswith(("MI", "RMT")) else ("exc", 0)
        yscale = max(1e-6, float(np.max(np.abs(far[1]))) if far[0] == "ok" and np.all(np.isfinite(far[1])) else 1e-3)
    scale = {c: max([1e-6] + [np.max(np.abs(ref[c, i][1])) for i in range(4) if ref[c, i][0] == "ok"] + ([yscale] if c == "s" else [])) for c in C}

    def agree(c, got, want):
        if got[0] != want[0]:
            return False
        if got[0] == "exc":
            return True
        a, b = np.asarray(got[1]), np.asarray(want[1])
        return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=1e-7, atol=1e-7 * scale[c], equal_nan=True)))

    # shapes of single answers
    for c in C:
        for i in range(4):
            r = ref[c, i]
            want = {"o": None, "sd": (ny, nd)}.get(c, (1, ny))
            if r[0] == "ok" and want:
                R.check(np.asarray(r[1]).shape == want, key + "/shape/" + c, "shape %s instead of %s" % (np.asarray(r[1]).shape, want))
    # (a) arrangements
    L = 4 if thorough else 3
    slow = case["model"].startswith(("MOE",)) and not thorough
    for n in range(1, (2 if slow else L) + 1):
        for idx in itertools.product(range(4), repeat=n):
            for c in C:
                x = X[list(idx)].copy()
                got = attempt(C[c], x)
                R.ev(), R.tr()
                if n > 1:
                    R.nt("a", case["key"], idx, c)
                R.check(agree(c, got, expected(c, idx)), "%s/batch/%s" % (key, c), "rows %s: %s" % (idx, got[1] if got[0] == "exc" else maxdiff(got[1], expected(c, idx)[1]) if expected(c, idx)[0] == "ok" else "no exception"))
            R.trace()
    # (b) block boundaries
    if not case["model"].startswith(("MI", "MOE", "RMT")) or thorough:
        for n in (999, 1000, 1001, 2000, 2001) + ((3000, 3001) if thorough else ()):
            if case["model"].startswith("MFK") and n == 2000:
                continue
            idx = np.arange(n) * 7 % 4
            for c in [k for k in C if k in ("v", "s", "d0")]:
                got = attempt(C[c], X[idx].copy())
                R.ev(), R.tr(), R.nt("b", key, n, c)
                R.check(agree(c, got, expected(c, list(idx))), "%s/block%d/%s" % (key, n, c), "batch of %d rows differs from single rows" % n)
    # (c) layouts: Fortran order, strided views, reversed, float32-exact, 1-D for nx=1
    XX = np.round(X[[0, 1, 3]] * 256) / 256 if not case["model"].startswith("MI") else X[[0, 1, 2]]
    base = {c: attempt(C[c], np.ascontiguousarray(XX)) for c in C}
    wide = np.zeros((6, 2 * XX.shape[1]))
    wide[::2, ::2] = XX
    lay = {"F": np.asfortranarray(XX), "strided": wide[::2, ::2], "rev": np.ascontiguousarray(XX[::-1])[::-1], "f4": XX.astype(np.float32) if not case["model"].startswith("MI") else XX.copy()}
    ro = XX.copy()
    ro.setflags(write=False)
    lay["readonly"] = ro
    if XX.shape[1] == 1:
        lay["1d"] = XX[:, 0]
    for l, xx in lay.items():
        for c in C:
            if l == "1d" and (c == "sd" or isinstance(sm, (apps.MOE, apps.VFM))):
                continue
            got = attempt(C[c], xx)
            if l == "f4" and got[0] == "exc":
                R.skip("float32 query rejected")
                continue
            R.ev(), R.tr(), R.nt("c", key, l, c)
            R.check(agree(c, got, base[c]), "%s/layout-%s/%s" % (key, l, c), "layout changes the answer: %s" % (got[1] if got[0] == "exc" else maxdiff(got[1], base[c][1]) if base[c][0] == "ok" else ""))
    # (d) call sequences
    probes = [X[:1], X[1:3], X[[3, 0, 3]]]
    alpha = [(c, p) for c in C for p in range(len(probes))]
    if len(alpha) > 12:
        alpha = [(c, p) for c, p in alpha if p != 2 or c == "v"]
    want = {(c, p): expected(c, [[0], [1, 2], [3, 0, 3]][p]) for c, p in alpha}
    for seq in itertools.product(alpha, repeat=3 if thorough and len(alpha) <= 9 else 2):
        if slow and len({s[1] for s in seq}) == 1:
            continue
        for c, p in seq:
            got = attempt(C[c], probes[p].copy())
            R.ev(), R.tr()
            R.state(key, c, p)
            if not R.check(agree(c, got, want[c, p]), "%s/seq/%s" % (key, c), "sequence %s: answer changed at %s" % (seq, (c, p))):
                break
        R.nt("d", key, seq)
        R.trace()

"""C03: explicit-state exploration of "train, then change the training data without training, then predict"."""
import itertools
import numpy as np
from vlib.smtlib import *
from vlib import apps

ID = "C03"
LEVEL = "model_checking"
RULE = ("every sequence of length 1..L over the data-changing operations {set same shape, set more/fewer points, set another number of inputs/outputs, update values, set/update derivatives, set another level name} "
        "after a training, followed by every prediction kind on query batches of several sizes; the model state is (trained data, pending data); the specification says the answers are those of the trained data or an exception. "
        "Non-trivial: the pending data differ in shape from the trained data")
BOUNDS = {"quick": "L=2, 28 configurations x (nt, nx, ny) = (8, 2, 1|2), then retraining on the pending data", "thorough": "L=3, also nx=1 and 3"}
ASSUMPTIONS = ["memory errors that leave the process alive and the answer intact are left to C14"]
TIMEOUT = 600


def cases(tier):
    out = []
    for name in CONFIGS:
        for nx in ((2,) if tier == "quick" else (1, 2, 3)):
            for ny in ((1, 2) if CONFIGS[name][3] else (1,)):
                out.append({"model": name, "nx": nx, "ny": ny, "tier": tier, "key": "C03/%s/nx%d/ny%d" % (name, nx, ny)})
    slow = ("RMT", "GENN", "MFK", "MGP")
    out.sort(key=lambda c: not c["model"].startswith(slow))
    return out


def ops(name, nx, ny):
    def s(nt, nx2, ny2, skip=5):
        def f(sm):
            x, y = dataset(nt, nx2, ny2, skip, 0.4)
            sm.set_training_values(x, y)
        return f

    o = {"same": s(8, nx, ny), "more": s(23, nx, ny), "fewer": s(4, nx, ny), "one": s(1, nx, ny), "nx+": s(8, nx + 1, ny), "ny+": s(8, nx, ny + 1),
         "nx+more": s(16, nx + 1, ny), "upd": lambda sm: sm.update_training_values(np.cos(7 * np.arange(float(sm.nt * sm.ny))).reshape(sm.nt, sm.ny)),
         "upd-ny+": lambda sm: sm.update_training_values(np.cos(7 * np.arange(float(sm.nt * (sm.ny + 1)))).reshape(sm.nt, sm.ny + 1))}
    if nx > 1:
        o["nx-"] = s(8, nx - 1, ny)
    if ny > 1:
        o["ny-"] = s(8, nx, ny - 1)
    if CONFIGS[name][2]:
        o["deriv"] = lambda sm: sm.set_training_derivatives(halton(8, nx, 9), -np.ones((8, ny)), 0)
        o["updderiv"] = lambda sm: sm.update_training_derivatives(-np.ones((sm.training_points[None][0][0].shape[0], ny)), 0)
    if name.startswith("MFK"):
        o["level"] = lambda sm: sm.set_training_values(halton(12, nx, 2), fun(halton(12, nx, 2)), name=0)
    return o


def run(case, R):
    name, nx, ny, key = case["model"], case["nx"], case["ny"], case["key"]
    x, y = dataset(8 if nx < 3 else 11, nx, ny, 1)
    O = ops(name, nx, ny)
    L = 3 if case["tier"] == "thorough" and name.split("-")[0] in ("LS", "QP", "IDW", "RBF") else 2
    seqs = [q for n in range(1, L + 1) for q in itertools.product(O, repeat=n)]
    small = CONFIGS[name][0] in (GENN, MGP)
    qs = [halton(n, nx, 40) * 0.9 + 0.05 for n in (1, 3, 8, 23)]
    extra = {d: halton(3, d, 40) for d in (nx - 1, nx + 1) if d > 0 and not (name == "MGP" and d < nx)}  # MGP takes points of its embedding
    base = None
    if small and case["tier"] == "quick":
        seqs = [q for q in seqs if len(q) == 1]

    def fresh():
        sm = make(name, nx)
        np.random.seed(3)
        feed(name, sm, x, y)
        sm.train()
        return sm

    import copy
    proto = fresh()
    for seq in seqs:
        # a deep copy is not possible with native objects: train again where the model holds one
        try:
            sm = copy.deepcopy(proto)
        except Exception:
            sm = fresh()
        if base is None:
            base = [answers(sm, q) for q in qs]
        done = []
        for op in seq:
            r = attempt(O[op], sm)
            R.tr()
            done.append(op)
        R.state(key, seq)
        if any(o not in ("same", "upd", "deriv", "updderiv") for o in seq):
            R.nt(key, seq)
        for qi, q in enumerate(qs):
            now = answers(sm, q)
            R.ev(len(now))
            for k, v in now.items():
                ok = v[0] == "exc" or same(v, base[qi][k], 1e-9, 1e-10)
                if not ok and k == "var" and base[qi][k][0] == "ok":
                    ok = np.shape(v[1]) == np.shape(base[qi][k][1]) and np.allclose(v[1], base[qi][k][1], rtol=1e-6, atol=1e-8)
                R.check(ok, "%s/%s/%s" % (key, seq[-1], k), "after %s, %s on %d rows: %s but the trained model said %s" % (seq, k, len(q), np.asarray(v[1]).ravel()[:4], np.asarray(base[qi][k][1]).ravel()[:4]))
        for d, q in extra.items():
            for k, v in answers(sm, q).items():
                R.ev()
                R.check(v[0] == "exc", "%s/%s/%s/otherdim" % (key, seq[-1], k), "after %s a query with %d inputs was answered by a model trained on %d inputs: %s" % (seq, d, nx, np.asarray(v[1]).ravel()[:4]))
        R.trace()

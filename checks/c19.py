"""C19: mixed-integer encodings over every type list and a lattice of points."""
import itertools
import numpy as np
from vlib.smtlib import *
from smt.applications.mixed_integer import (
    FLOAT, INT, ENUM, MixedIntegerContext, check_xspec_consistency, unfold_xlimits_with_continuous_limits, compute_unfolded_dimension,
    cast_to_discrete_values, fold_with_enum_index, unfold_with_enum_mask, cast_to_enum_value, cast_to_mixed_integer)

ID = "C19"
LEVEL = "model_checking"
RULE = ("every list of variable types (float, two integer ranges, categorical with 1..4 levels) up to a length x every lattice point of the relaxed box (bounds, halves, ties between levels, tiny differences) and every folded feasible point: cast result against a per-variable oracle (float unchanged; nearest integer, within limits; exactly one maximal component set to one), feasible, idempotent, "
        "fold o unfold and unfold o fold are the identity on feasible points, fold commutes with cast, labels and mixed-integer conversion exact, batches equal rows, arguments left alone, context methods equal the module functions; inconsistent specifications raise ValueError. States: distinct lattice points; non-trivial: points that are not already feasible")
BOUNDS = {"quick": "lists of length <=3 (399 of 7 types), up to 1500 lattice points each (the full lattice when smaller, else a full lattice per pair of variables)", "thorough": "length <=4 (2800 lists), full lattice up to 20000 points"}
ASSUMPTIONS = ["limits of integer variables are integers; points lie within the relaxed limits"]
TIMEOUT = 700

KINDS = {"F": (FLOAT, [-1.5, 2.25]), "I": (INT, [-2, 3]), "J": (INT, [0, 1]), "1": ((ENUM, 1), ["a"]), "2": ((ENUM, 2), ["b", "c"]), "3": ((ENUM, 3), ["d", "e", "f"]), "4": ((ENUM, 4), ["7", "8", "9", "10"])}
WIDTH = {"F": 1, "I": 1, "J": 1, "1": 1, "2": 2, "3": 3, "4": 4}
E = 1e-12
LAT = {
    "F": [(-1.5,), (0.3,), (2.25,)],
    "I": [(v,) for v in (-2.0, -1.51, -1.5, -0.5, -0.49, 0.5, 1.5, 2.0, 2.5, 3.0 - E, 3.0)],
    "J": [(v,) for v in (0.0, 0.5 - E, 0.5, 0.5 + E, 1.0)],
    "1": [(0.0,), (0.4,), (1.0,)],
    "2": list(itertools.product((0.0, 0.4, 0.4 + E, 1.0), repeat=2)),
    "3": list(itertools.product((0.0, 0.3, 1.0), repeat=3)),
    "4": list(itertools.product((0.2, 0.7), repeat=4)) + [(0, 0, 0, 0), (1, 1, 1, 1), (0, 1, 1, 0.99)],
}
LEVELS = {"F": [-1.5, 0.3, 2.25], "I": [-2, -1, 0, 1, 2, 3], "J": [0, 1], "1": [0], "2": [0, 1], "3": [0, 1, 2], "4": [0, 1, 2, 3]}


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 5 if th else 4):
        for t in itertools.product("FIJ1234", repeat=n):
            out.append(dict(kind="list", t="".join(t), cap=20000 if th else 1500, key="C19/" + "".join(t)))
    out.append(dict(kind="spec", key="C19/spec"))
    return out


def lattice(t, cap):
    size = 1
    for k in t:
        size *= len(LAT[k])
    if size <= cap:
        return np.array([sum(p, ()) for p in itertools.product(*(LAT[k] for k in t))], float)
    base = [LAT[k][len(LAT[k]) // 2] for k in t]
    pts = {}
    for i, j in itertools.combinations(range(len(t)), 2):
        for a in LAT[t[i]]:
            for b in LAT[t[j]]:
                p = list(base)
                p[i], p[j] = a, b
                pts[sum(p, ())] = 1
    return np.array(list(pts), float)


def folded(t, cap):
    size = 1
    for k in t:
        size *= len(LEVELS[k])
    return np.array(list(itertools.islice(itertools.product(*(LEVELS[k] for k in t)), cap)), float)


def ref_unfold(t, f):
    rows = []
    for r in f:
        v = []
        for k, x in zip(t, r):
            v += [x] if k in "FIJ" else [1.0 if i == x else 0.0 for i in range(WIDTH[k])]
        rows.append(v)
    return np.array(rows)


def run(case, R):
    if case["kind"] == "spec":
        return run_spec(case, R)
    t, key = case["t"], case["key"]
    xt = [KINDS[k][0] for k in t]
    xl = [list(KINDS[k][1]) for k in t]
    dim = sum(WIDTH[k] for k in t)
    R.check(compute_unfolded_dimension(xt) == dim, key + "/dim", "unfolded dimension")
    for form in ("list", "array"):
        if form == "array":
            a = np.empty(len(xl), dtype=object)
            a[:] = xl
            limits = a
        else:
            limits = xl
        ctx = MixedIntegerContext(xt, limits)
        ul = np.array(sum(([[float(v) for v in KINDS[k][1]]] if k in "FIJ" else [[0.0, 1.0]] * WIDTH[k] for k in t), []))
        for nm, u in (("module", unfold_xlimits_with_continuous_limits(xt, limits)), ("context", ctx.get_unfolded_xlimits())):
            R.check(np.shape(u) == (dim, 2) and np.array_equal(np.asarray(u, float), ul), "%s/limits/%s/%s" % (key, form, nm), "relaxed limits %s" % (np.asarray(u).tolist(),))
        R.check(ctx.get_unfolded_dimension() == dim, key + "/ctxdim/" + form, "dimension of the context")
        R.ev()
    X = lattice(t, case["cap"])
    R.ev(len(X)), R.trace(len(X))
    X0 = X.copy()
    C = ctx.cast_to_discrete_values(X)
    R.check(np.array_equal(X, X0), key + "/argument", "cast_to_discrete_values modified its argument")
    if not R.check(np.shape(C) == X.shape, key + "/shape", "shape of the cast"):
        return
    j = 0
    for i, k in enumerate(t):
        w = WIDTH[k]
        x, c = X[:, j : j + w], C[:, j : j + w]
        kk = "%s/var%d" % (key, i)
        R.tr(len(X))
        if k == "F":
            bad = np.flatnonzero((x != c)[:, 0])
            R.check(not len(bad), kk, "float changed: %s -> %s" % (x[bad[:1]].tolist(), c[bad[:1]].tolist()))
        elif k in "IJ":
            lo_, hi_ = KINDS[k][1]
            bad = np.flatnonzero(((c != np.round(c)) | (c < lo_) | (c > hi_) | (np.abs(c - x) > 0.5))[:, 0])
            R.check(not len(bad), kk, "integer variable: %s -> %s" % (x[bad[:1]].tolist(), c[bad[:1]].tolist()))
        else:
            one = (c == 1).sum(1) == 1
            zero = (c == 0).sum(1) == w - 1
            maximal = (x * (c == 1)).sum(1) >= x.max(1)
            bad = np.flatnonzero(~(one & zero & maximal))
            R.check(not len(bad), kk, "categorical variable: %s -> %s" % (x[bad[:1]].tolist(), c[bad[:1]].tolist()))
        j += w
    for p, c in zip(X, C):
        R.state(t, tuple(p))
        if not np.array_equal(p, c):
            R.nt(t, tuple(p))
    R.check(np.array_equal(ctx.cast_to_discrete_values(C), C), key + "/idempotent", "casting twice differs from casting once")
    R.check(np.array_equal(cast_to_discrete_values(xt, X), C), key + "/module", "module function differs from the context method")
    for i in range(0, len(X), max(1, len(X) // 7)):
        R.check(np.array_equal(ctx.cast_to_discrete_values(X[i : i + 1]), C[i : i + 1]), "%s/row%d" % (key, i), "the cast of a row depends on the other rows")
    FX, j = ctx.fold_with_enum_index(X), 0
    if R.check(np.shape(FX) == (len(X), len(t)), key + "/foldrelaxed", "shape of folded relaxed points"):
        for i, k in enumerate(t):
            w = WIDTH[k]
            x = X[:, j : j + w]
            ok = FX[:, i] == x[:, 0] if k in "FIJ" else x[np.arange(len(X)), FX[:, i].astype(int)] >= x.max(1)
            R.check(np.all(ok), "%s/foldrelaxed%d" % (key, i), "folding a relaxed point does not select a largest level")
            j += w
    F = ctx.fold_with_enum_index(C)
    if R.check(np.shape(F) == (len(C), len(t)), key + "/foldshape", "shape of the folded points"):
        R.check(np.array_equal(ref_unfold(t, F), C), key + "/fold", "folding a feasible point loses information")
        R.check(np.array_equal(ctx.unfold_with_enum_mask(F), C), key + "/unfold-fold", "unfolding a folded feasible point does not give it back")
    # folded feasible points
    G = folded(t, case["cap"])
    R.ev(len(G)), R.trace(len(G)), R.tr(len(G) * len(t))
    for p in G:
        R.state(t, "f", tuple(p))
    G0 = G.copy()
    U = ctx.unfold_with_enum_mask(G)
    R.check(np.array_equal(G, G0), key + "/argument2", "unfold_with_enum_mask modified its argument")
    R.check(np.shape(U) == (len(G), dim) and np.array_equal(U, ref_unfold(t, G)), key + "/unfold", "wrong mask")
    R.check(np.array_equal(unfold_with_enum_mask(xt, G), U) and np.array_equal(fold_with_enum_index(xt, U), G) and np.array_equal(ctx.fold_with_enum_index(U), G), key + "/fold-unfold", "folding an unfolded point does not give it back")
    R.check(np.array_equal(ctx.cast_to_discrete_values(U), U), key + "/feasible-fixed", "casting changes a feasible point")
    if not any(k == "F" for k in t):
        Gi = G.astype(int)
        R.check(np.array_equal(ctx.unfold_with_enum_mask(Gi), U) and np.array_equal(ctx.fold_with_enum_index(U.astype(int)), G), key + "/ints", "integer arrays are handled differently")
        R.check(np.array_equal(ctx.cast_to_discrete_values(U.astype(int)), U), key + "/castints", "integer arrays are cast differently")
    for r in G[:: max(1, len(G) // 60)]:
        want = [KINDS[k][1][int(v)] if k in "1234" else int(v) if k in "IJ" else v for k, v in zip(t, r)]
        for got in (ctx.cast_to_mixed_integer(r), cast_to_mixed_integer(xt, xl, list(r))):
            R.check(list(got) == want, "%s/labels/%s" % (key, r.tolist()), "cast_to_mixed_integer gives %s" % (got,))
        R.check(np.array_equal(ctx.fold_with_enum_index(ctx.unfold_with_enum_mask(list(r))), [r]), "%s/point/%s" % (key, r.tolist()), "a single point given as a list is not recovered")
    for i, k in enumerate(t):
        if k in "1234":
            idx = list(range(WIDTH[k])) + [0, WIDTH[k] - 1]
            want = [KINDS[k][1][q] for q in idx]
            R.check(list(ctx.cast_to_enum_value(i, idx)) == want and list(cast_to_enum_value(xl, i, idx)) == want, "%s/values%d" % (key, i), "cast_to_enum_value")


def run_spec(case, R):
    """every list of <=2 types against every list of limits of <=3 entries: accepted exactly when consistent"""
    lims = {"F": [0.0, 1.0], "1": ["a"], "2": ["a", "b"], "3": ["a", "b", "c"], "0": []}
    types = {"F": FLOAT, "I": INT, "2": (ENUM, 2), "3": (ENUM, 3), "bad": "ord", "badt": ("x", 2), "none": None}
    for n in (1, 2):
        for ts in itertools.product(types, repeat=n):
            for m in (0, 1, 2, 3):
                for ls in itertools.product(lims, repeat=m):
                    ok = n == m
                    for a, b in zip(ts, ls):
                        size = len(lims[b])
                        ok = ok and a in ("F", "I", "2", "3") and size == {"F": 2, "I": 2, "2": 2, "3": 3}.get(a)
                    for f in (check_xspec_consistency, MixedIntegerContext):
                        try:
                            f([types[a] for a in ts], [["0", "1"] if False else list(lims[b]) if b != "F" else [0.0, 1.0] for b in ls])
                            got = "accepted"
                        except ValueError:
                            got = "ValueError"
                        except Exception as e:
                            got = type(e).__name__
                        if ok and f is MixedIntegerContext and any(a in "FI" and b == "2" for a, b in zip(ts, ls)):
                            continue  # labels as limits of a numeric variable
                        R.ev(), R.tr(), R.trace(), R.state(f.__name__, ts, ls)
                        if not ok:
                            R.nt(f.__name__, ts, ls)
                        R.check(got == ("accepted" if ok else "ValueError"), "C19/spec/%s/%s/%s" % (f.__name__, "+".join(ts), "+".join(ls)), "%s where %s is expected" % (got, "acceptance" if ok else "ValueError"))

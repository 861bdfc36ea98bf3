"""C17: every sampling method under exhaustively scripted random generators."""
import itertools
import math
import numpy as np
from scipy.spatial.distance import pdist, cdist
from pyDOE2 import lhs
from vlib import boot, rng
from vlib.rng import Script
from smt.sampling_methods import LHS, FullFactorial, Random
from smt.applications.mfk import NestedLHS
from vlib.smtlib import attempt

ID = "C17"
LEVEL = "model_checking"
RULE = ("(lhs) every criterion x size x dimension x box: every schedule of the random generator that deviates from the default stream in at most K draws, each draw taking its extreme outcomes (0, the largest double below 1, mirrored; first, second, last index; identity, reversed, rotated permutation), plus all permutations for tiny sizes; (full) every nt x dimension x weight vector x clip; "
        "(random) scripted extremes; (nested) every number of levels x size x dimension x schedule. Each returned design is checked against the definition. Non-trivial: schedules with at least one deviation, and every full-factorial size")
BOUNDS = {"quick": "LHS nt<=9, nx<=4, 7 boxes, deviations K=2 (K=1 above 3 points and for the long criterion names) for the cheap criteria, K=1 over the first and last 40/6/2/1 draws for ese in 1/2/3/4 dimensions; full factorial nt<=130, nx<=4, 9 weight vectors; nested <=4 levels, and every combination of Latin permutations for 3 high / 6 low-fidelity points and 1/2/4 points in 2 dimensions, and every order of the rows of 6 high-fidelity points for 9 pairs of designs", "thorough": "ese: ten times as many draws and pairs over the first 24 draws; full factorial nt<=400; nested permutations for 4/8 points"}
ASSUMPTIONS = ["exactly collinear jitter (probability zero) is not scripted for the correlation criterion (pyDOE2 itself fails there)"]
TIMEOUT = 800
CRIT = ["center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"]
BOXES = {1: [[[0.0, 1.0]], [[-3.0, 0.1]], [[0.1, 0.7]]], 2: [[[0.0, 1.0], [0.0, 1.0]], [[-1.0, 0.3], [1e3, 1e6]], [[0.1, 0.3], [-0.7, -0.1]]], 3: [[[0, 1], [-5, 5], [2, 3]], [[0.1, 0.3], [1e-9, 3e-9], [-0.3, 0.6]]], 4: [[[0.0, 1.0]] * 4]}


def cases(tier):
    th = tier == "thorough"
    out = []
    for nx in (1, 2, 3, 4):
        for b in range(len(BOXES[nx])):
            for c in CRIT:
                for nt in (1, 2, 3, 4, 5, 7, 9):
                    if b and nt not in (1, 2, 5):
                        continue
                    if not th and c == "ese" and nx >= 3 and nt not in (1, 2, 5):
                        continue
                    out.append(dict(kind="lhs", nx=nx, nt=nt, c=c, b=b, th=th, key="C17/lhs/%s/nx%d/nt%d/b%d" % (c, nx, nt, b)))
    for nx in (1, 2):
        for nt in (1, 2, 3) + ((4,) if nx == 1 else ()):
            out.append(dict(kind="perms", nx=nx, nt=nt, key="C17/perms/nx%d/nt%d" % (nx, nt)))
    for nx in (1, 2, 3, 4):
        for part in range(4):
            out.append(dict(kind="full", nx=nx, part=part, top=400 if th else 130, key="C17/full/nx%d/%d" % (nx, part)))
        out.append(dict(kind="random", nx=nx, key="C17/random/nx%d" % nx))
    for L in (1, 2, 3, 4):
        for nx in (1, 2, 3):
            for nb in (1, 2, 3, 5):
                if nb * 2 ** L <= (24 if nx < 3 or th else 12):
                    out.append(dict(kind="nested", L=L, nx=nx, nb=nb, th=th, key="C17/nested/L%d/nx%d/nb%d" % (L, nx, nb)))
    for nb, L in ((3, 2), (4, 2), (1, 3)) if th else ((3, 2), (1, 3)):
        for hi in range(math.factorial(nb)):
            out.append(dict(kind="nestperms", nb=nb, L=L, hi=hi, key="C17/nestperms/L%d/nb%d/hi%d" % (L, nb, hi)))
    for hi in range(3):
        out.append(dict(kind="nestrows", hi=hi, key="C17/nestrows/%d" % hi))
    return out


def run(case, R):
    globals()["run_" + case["kind"]](case, R)


def box(nx, b):
    return np.array(BOXES[nx][b], dtype=float)


def inside(x, xl):
    return bool(np.all(x >= xl[:, 0]) and np.all(x <= xl[:, 1]))


def is_lhs(x, xl, n):
    """one point in each of the n slices of every dimension (a value on a boundary may count for either side)"""
    w = xl[:, 1] - xl[:, 0]
    s = np.sort((x - xl[:, 0]) / w, axis=0)
    e = 1e-12 + 4e-16 * np.max(np.abs(xl) / w[:, None])
    i = np.arange(n)[:, None]
    return x.shape[0] == n and bool(np.all(s >= i / n - e) and np.all(s <= (i + 1) / n + e))


def phip(x, p=10):
    return (pdist(x) ** (-p)).sum() ** (1.0 / p)


def schedules(gen, maxdev, window, variants=3, collinear=True):
    """deviation-bounded exploration: runs gen(dev); draws discovered by running"""
    s0 = gen({})
    yield {}, s0
    n, kinds = s0[1].n, s0[1].kinds
    idx = [i for i in range(n) if i < window or i >= n - window]
    ok = lambda i, v: collinear or not (kinds[i] == "rand" and v < 2)
    for i in idx:
        for v in range(variants):
            if ok(i, v):
                yield {i: v}, gen({i: v})
    if maxdev > 1:
        for i, j in itertools.combinations([i for i in idx if i < 24], 2):
            for v, w in itertools.product(range(variants), repeat=2):
                if ok(i, v) and ok(j, w):
                    yield {i: v, j: w}, gen({i: v, j: w})


def run_lhs(case, R):
    nx, nt, c = case["nx"], case["nt"], case["c"]
    xl = box(nx, case["b"])
    ese = c == "ese"

    seen = []

    def gen(dev):
        s = Script(5 + nt, dev)
        try:
            obj = LHS(xlimits=xl.copy(), criterion=c, random_state=s)
            # the criterion that the search maintains, where it can be observed
            real = getattr(obj, "_PhiP_exchange", None)
            del seen[:]
            if ese and real is not None:

                def spy(X, *a, **k):
                    v = real(X, *a, **k)
                    seen.append((v, phip(X)))
                    return v

                obj._PhiP_exchange = spy
            return ("ok", obj(nt)), s
        except Exception as e:
            return ("exc", "%s: %s" % (type(e).__name__, e)), s

    th = case["th"]
    if ese:
        w = {1: 40, 2: 6, 3: 2, 4: 1}[nx] * (10 if th else 1)
        mk = (2 if th and nx <= 2 else 1, w if case["b"] == 0 and nt <= 5 else min(w, 3))
    else:
        mk = (2 if th or (nt <= 3 and len(c) <= 4) else 1, 10**9)
    for dev, (r, s) in schedules(gen, *mk, collinear=c not in ("corr", "correlation")):
        kk = case["key"] + ("/" + ",".join("%d:%d" % d for d in sorted(dev.items())) if dev else "")
        R.ev(), R.tr(s.n), R.trace(), R.state(kk)
        if dev:
            R.nt(kk)
        if not R.check(r[0] == "ok", kk + "/raises", "sampling raises %s" % (r[1],)):
            if len(dev) == 0:
                return
            continue
        x = r[1]
        R.check(isinstance(x, np.ndarray) and x.shape == (nt, nx), kk + "/shape", "design of shape %s" % (np.shape(x),))
        R.check(inside(x, xl), kk + "/inside", "points outside the box: %s" % (x.tolist(),))
        R.check(is_lhs(x, xl, nt), kk + "/slices", "not one point per slice: %s" % (np.sort((x - xl[:, 0]) / (xl[:, 1] - xl[:, 0]), axis=0).tolist(),))
        if c in ("c", "center", "cm", "centermaximin"):
            u = np.sort((x - xl[:, 0]) / (xl[:, 1] - xl[:, 0]), axis=0)
            R.check(np.allclose(u, (np.arange(nt)[:, None] + 0.5) / nt, rtol=0, atol=1e-9), kk + "/center", "criterion %s: coordinates are not the slice centres" % c)
        if ese and nt > 2 and case["b"] == 0:
            x0 = lhs(nx, nt, criterion=None, random_state=Script(5 + nt, dev))
            u = (x - xl[:, 0]) / (xl[:, 1] - xl[:, 0])
            R.check(np.allclose(np.sort(u, axis=0), np.sort(x0, axis=0), atol=1e-9), kk + "/multiset", "ese does not permute the coordinates of its start")
            R.check(phip(u) <= phip(x0) * (1 + 1e-6) or not np.isfinite(phip(x0)), kk + "/phip", "ese returns a design with PhiP %r, worse than its start %r" % (phip(u), phip(x0)))
            if seen and np.isfinite(phip(x0)):
                v = np.array([p for p in seen if np.isfinite(p).all()])
                if len(v):
                    R.count("exchanges_checked", len(v))
                    e = np.abs(v[:, 0] / v[:, 1] - 1).max()
                    R.check(e < 1e-3, kk + "/exchange", "the criterion of an exchange differs from the criterion of the exchanged design by %.2g relative" % e)
                    R.check(phip(u) <= v[:, 1].min() * (1 + 1e-3), kk + "/best", "ese returns a design with PhiP %r although it met one with %r" % (phip(u), v[:, 1].min()))


class Perm(Script):
    """permutation() outcomes prescribed one by one"""

    def __init__(self, perms, u):
        super().__init__(3)
        self.perms, self.u, self.i = perms, u, 0

    def permutation(self, x):
        y = np.array(list(x))
        p = self.perms[self.i % len(self.perms)]
        self.i += 1
        return y[list(p)]

    def rand(self, *shape):
        return np.full(shape, self.u) if shape and shape[0] > 1 else rng.REAL.random_sample(self, shape)


def run_perms(case, R):
    nx, nt = case["nx"], case["nt"]
    xl = box(nx, 0)
    for ps in itertools.product(list(itertools.permutations(range(nt))), repeat=nx):
        for u in (0.0, 0.25, rng.HI):
            for c in ("c", "m", "cm", "ese", "corr"):
                if c == "ese" and nx == 2 and u != 0.25:
                    continue
                if c == "corr" and nt > 2 and nx > 1:
                    continue  # collinear designs, see ASSUMPTIONS
                kk = "%s/%s/u%s/%s" % (case["key"], ps, u, c)
                R.ev(), R.tr(), R.trace(), R.state(kk), R.nt(kk)
                try:
                    x = LHS(xlimits=xl.copy(), criterion=c, random_state=Perm(ps, u))(nt)
                except Exception as e:
                    R.fail(kk, "sampling raises %s: %s" % (type(e).__name__, e))
                    continue
                R.check(x.shape == (nt, nx) and inside(x, xl) and is_lhs(x, xl, nt), kk, "not a Latin hypercube in the box: %s" % x.tolist())


WEIGHTS = [None, [1.0], [2.0, 1.0], [0.2, 0.8], [1, 10], [1, 1, 1], [3, 1, 2], [0.5, 0.25, 0.25], [1, 2, 3, 4], [10, 1, 1, 1], [0.25] * 4]


def run_full(case, R):
    nx = case["nx"]
    for w in WEIGHTS:
        if w is not None and len(w) != nx:
            continue
        for b in range(len(BOXES[nx])):
            xl = box(nx, b)
            for nt in range(1 + case["part"], case["top"] + 1, 4):
                sizes = {}
                for clip in (False, True):
                    for wa in (w, None if w is None else np.array(w)):
                        kk = "%s/w%s/b%d/nt%d/%s/%s" % (case["key"], w, b, nt, clip, type(wa).__name__)
                        R.ev(), R.tr(), R.trace(), R.state(kk), R.nt(kk)
                        o = dict(xlimits=xl.copy(), clip=clip)
                        if wa is not None:
                            o["weights"] = wa
                        x = FullFactorial(**o)(nt)
                        R.check(inside(x, xl), kk + "/inside", "grid points outside the box: %s" % (x[np.any((x < xl[:, 0]) | (x > xl[:, 1]), axis=1)][:3].tolist(),))
                        R.check(len({tuple(r) for r in x.tolist()}) == len(x), kk + "/distinct", "repeated grid points")
                        lev = [np.unique(x[:, j]) for j in range(nx)]
                        m = [len(l) for l in lev]
                        if clip:
                            R.check(len(x) == int(np.prod(m)) >= nt, kk + "/grid", "%d points, levels %s, for nt=%d" % (len(x), m, nt))
                            sizes[clip] = (m, {tuple(r) for r in x.tolist()})
                            for j in range(nx):
                                ref = np.linspace(xl[j, 0], xl[j, 1], m[j]) if m[j] > 1 else xl[j, :1]
                                R.check(np.allclose(lev[j], ref, rtol=1e-12, atol=1e-12 * np.max(np.abs(xl[j]))), kk + "/levels", "levels %s of dimension %d are not equally spaced over its limits" % (lev[j].tolist(), j))
                                if m[j] > 1:
                                    R.check(lev[j][0] == xl[j, 0] and lev[j][-1] == xl[j, 1], kk + "/corner", "the grid misses the limits of dimension %d: %r..%r" % (j, lev[j][0], lev[j][-1]))
                            mm = sorted(m)
                            R.check(int(np.prod(m)) == nt or any((m[j] - 1) * int(np.prod(m)) // m[j] < nt for j in range(nx)), kk + "/minimal", "the grid %s is larger than needed for nt=%d" % (m, nt))
                            if w is None:
                                R.check(max(m) - min(m) <= 1, kk + "/balanced", "equal weights, but levels %s" % m)
                            else:
                                R.check(all(m[i] >= m[j] for i in range(nx) for j in range(nx) if w[i] > w[j]), kk + "/weights", "weights %s give levels %s" % (w, m))
                        else:
                            R.check(x.shape == (nt, nx), kk + "/count", "%s instead of %d points" % (x.shape, nt))
                            sizes[clip] = (m, {tuple(r) for r in x.tolist()})
                R.check(sizes[False][1] <= sizes[True][1], "%s/w%s/b%d/nt%d/subset" % (case["key"], w, b, nt), "the unclipped points are not points of the full grid")


def run_random(case, R):
    nx = case["nx"]
    real = np.random.rand
    for b in range(len(BOXES[nx])):
        xl = box(nx, b)
        for nt in (1, 2, 3, 10):
            pats = [None] + list(itertools.product((0.0, 0.5, rng.HI, 2.0 ** -53), repeat=min(nx * nt, 3)))
            for pi, pat in enumerate(pats):
                kk = "%s/b%d/nt%d/%d" % (case["key"], b, nt, pi)
                R.ev(), R.tr(), R.trace(), R.state(kk), R.nt(kk)
                if pat is not None:
                    np.random.rand = lambda *s: np.resize(np.array(pat), s)
                try:
                    x = Random(xlimits=xl.copy())(nt)
                finally:
                    np.random.rand = real
                R.check(x.shape == (nt, nx), kk + "/shape", "shape %s" % (x.shape,))
                R.check(inside(x, xl), kk + "/inside", "points outside the box: %s" % x.tolist())
        # the limits of every dimension are reached by its own column
        np.random.seed(4)
        x = Random(xlimits=xl.copy())(4000)
        u = (x - xl[:, 0]) / (xl[:, 1] - xl[:, 0])
        R.check(np.all(u.min(axis=0) < 0.05) and np.all(u.max(axis=0) > 0.95), case["key"] + "/b%d/cover" % b, "4000 points do not cover the box: %s %s" % (u.min(axis=0), u.max(axis=0)))


def run_nested(case, R):
    L, nx, nb = case["L"], case["nx"], case["nb"]
    for b in range(len(BOXES[nx]) if case["th"] else 1):
        xl = box(nx, b)

        def gen(dev):
            made = []
            rec = []
            orig = LHS.__call__

            def wrap(self, nt):
                r = orig(self, nt)
                rec.append(r.copy())
                return r

            def factory(*a, **k):
                s = Script(17 + len(made) + 100 * b, dev if len(made) == 0 else {i - 1000 * len(made): v for i, v in dev.items()})
                made.append(s)
                return s

            LHS.__call__ = wrap
            try:
                with rng.patched(factory):
                    r = ("ok", NestedLHS(nlevel=L, xlimits=xl.copy())(nb))
            except Exception as e:
                r = ("exc", "%s: %s" % (type(e).__name__, e))
            finally:
                LHS.__call__ = orig
            s = made[0] if made else Script(0)
            return r, s, rec

        def it():
            r, s, rec = gen({})
            yield {}, r, s, rec
            for lvl in range(L):
                for i in (0, 1, 2, 3, 5, 9) if case["th"] or nx == 1 else (0, 1, 5) if nx == 2 else (0, 1):
                    for v in range(3) if nx == 1 or case["th"] else (0, 2) if nx == 2 else (2,):
                        d = {1000 * lvl + i: v}
                        yield (d,) + gen(d)

        for dev, r, s, rec in it():
            kk = "%s/b%d%s" % (case["key"], b, "/%s" % dev if dev else "")
            R.ev(), R.tr(L), R.trace(), R.state(kk)
            if dev:
                R.nt(kk)
            if not R.check(r[0] == "ok", kk + "/raises", "NestedLHS raises %s" % (r[1],)):
                continue
            judge_nested(r[1], rec, xl, L, nx, nb, kk, R)


def run_nestperms(case, R):
    """The designs of the levels are every combination of Latin permutations (two inputs)"""
    nb, L, nx = case["nb"], case["L"], 2
    xl = box(nx, 0)
    sizes = [nb * 2 ** (L - 1 - i) for i in range(L)]
    hi = list(itertools.permutations(range(nb)))[case["hi"]]
    for combo in itertools.product(*(itertools.permutations(range(n)) for n in sizes[:-1])):
        designs = {}
        for n, perm in zip(sizes, combo + (hi,)):
            # off-centre by amounts that differ from point to point: no tie between distances
            u = np.array([[(i + 0.5 + 0.013 * ((i * 7 + n) % 11 - 5)) / n, (q + 0.5 + 0.011 * ((i * 5 + n) % 13 - 6)) / n] for i, q in enumerate(perm)])
            designs[n] = xl[:, 0] + u * (xl[:, 1] - xl[:, 0])
        rec = []
        orig = LHS.__call__

        def wrap(self, nt):
            if nt not in designs:
                return orig(self, nt)
            rec.append(designs[nt].copy())
            return designs[nt].copy()

        LHS.__call__ = wrap
        try:
            r = ("ok", NestedLHS(nlevel=L, xlimits=xl.copy())(nb))
        except Exception as e:
            r = ("exc", "%s: %s" % (type(e).__name__, e))
        finally:
            LHS.__call__ = orig
        kk = "%s/%s" % (case["key"], "+".join("".join(map(str, p)) for p in combo))
        R.ev(), R.tr(L), R.trace(), R.state(kk), R.nt(kk)
        if R.check(r[0] == "ok", kk + "/raises", "NestedLHS raises %s" % (r[1],)):
            judge_nested(r[1], rec, xl, L, nx, nb, kk, R)


def run_nestrows(case, R):
    """every order of the rows of a high-fidelity design two points of which compete for a low-fidelity point"""
    nb, L, nx = 6, 2, 2
    xl = box(nx, 0)
    hi = [[0, 1, 2, 3, 4, 5], [1, 0, 3, 2, 5, 4], [2, 1, 0, 5, 4, 3]][case["hi"]]
    for lo, order in itertools.product(([11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0], [0, 11, 2, 9, 4, 7, 6, 5, 8, 3, 10, 1], [3, 8, 1, 6, 11, 4, 9, 2, 7, 0, 5, 10]), itertools.permutations(range(nb))):
        designs = {}
        for n, perm in ((12, lo), (6, hi)):
            u = np.array([[(i + 0.5 + 0.013 * ((i * 7 + n) % 11 - 5)) / n, (q + 0.5 + 0.011 * ((i * 5 + n) % 13 - 6)) / n] for i, q in enumerate(perm)])
            designs[n] = xl[:, 0] + u * (xl[:, 1] - xl[:, 0])
        designs[6] = designs[6][list(order)]
        rec = []
        orig = LHS.__call__

        def wrap(self, nt):
            if nt not in designs:
                return orig(self, nt)
            rec.append(designs[nt].copy())
            return designs[nt].copy()

        LHS.__call__ = wrap
        try:
            r = attempt(lambda: NestedLHS(nlevel=L, xlimits=xl.copy())(nb))
        finally:
            LHS.__call__ = orig
        near = np.argmin(cdist(designs[6], designs[12]), axis=1)
        kk = "%s/%d/%s" % (case["key"], lo[0], "".join(map(str, order)))
        R.ev(), R.tr(L), R.trace(), R.state(kk)
        if len(set(near)) < nb:
            R.nt(kk)
        if R.check(r[0] == "ok", kk + "/raises", "NestedLHS raises %s" % (r[1],)):
            judge_nested(r[1], rec, xl, L, nx, nb, kk, R)


def judge_nested(D, rec, xl, L, nx, nb, kk, R):
    ns = [nb * 2 ** (L - 1 - i) for i in range(L)]
    if not R.check(isinstance(D, list) and [np.shape(x) for x in D] == [(n, nx) for n in ns], kk + "/sizes", "levels of shapes %s, expected %s" % ([np.shape(x) for x in D], ns)):
        return
    R.check(all(inside(x, xl) for x in D), kk + "/inside", "points outside the box")
    R.check(is_lhs(D[-1], xl, nb), kk + "/top", "the highest level is not a Latin hypercube")
    S = [{tuple(p) for p in x.tolist()} for x in D]
    R.check(all(len(S[i]) == ns[i] for i in range(L)), kk + "/distinct", "repeated points in a level")
    R.check(all(S[i + 1] <= S[i] for i in range(L - 1)), kk + "/nested", "a level is not contained in the level below")
    bysize = {len(x): x for x in rec}
    for i in range(L - 1):
        own = np.array([p for p in D[i].tolist() if tuple(p) not in S[i + 1]])
        if ns[i] not in bysize:
            R.count("levels whose own design was not observed")
            continue
        low = bysize[ns[i]]
        R.check({tuple(p) for p in own.tolist()} <= {tuple(p) for p in low.tolist()}, kk + "/own%d" % i, "level %d has points that are neither of its own design nor of the next level" % i)
        R.check(is_lhs(low, xl, ns[i]), kk + "/ownlhs%d" % i, "the design of level %d is not a Latin hypercube" % i)
        d = cdist(D[i + 1], low)
        near = {tuple(low[k].tolist()) for k in np.argmin(d, axis=1)}
        kept = {tuple(p) for p in own.tolist()}
        R.check(not (near & kept), kk + "/nearest%d" % i, "the nearest neighbour of a higher-level point was kept in level %d" % i)

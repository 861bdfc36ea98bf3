"""Seeded computations and disturbances of the global random generator (C18)."""
import contextlib, io, os, random, sys, threading
import numpy as np
from vlib.smtlib import *
from vlib import apps
from smt.sampling_methods import LHS, Random
from smt.applications import EGO
from smt.applications.mixed_integer import FLOAT, INT, ENUM, MixedIntegerContext

CRIT = ["c", "m", "cm", "corr", "center", "maximin", "centermaximin", "correlation", "ese"]


@contextlib.contextmanager
def hushed():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def disturb(kind, k=0):
    """what another component may do to the process-wide random state"""
    if kind == "seed":
        np.random.seed(1234 + k)
    elif kind == "draw":
        np.random.rand(3 + k), np.random.randn(1)
    elif kind == "shuffle":
        np.random.shuffle(np.arange(7)), np.random.permutation(5), random.random()
    elif kind == "reseed":
        np.random.seed(None)
    elif kind == "Random":
        Random(xlimits=unit(2))(4)
    elif kind == "LHS":
        LHS(xlimits=unit(2), criterion="m")(4)
    elif kind == "LHS7":
        LHS(xlimits=unit(2), criterion="m", random_state=7)(4)
    elif kind == "KRG":
        x, y = dataset(6, 1)
        m = make("KRG", 1, hyper_opt="TNC", theta0=[1e3])
        m.set_training_values(x, y)
        with hushed():
            m.train()
    elif kind == "GENN":
        genn(None)
    elif kind == "GENN5":
        genn(5)
    elif kind == "MOE":
        with hushed():
            apps.build_moe(n=16, allow=["LS", "RBF"])
    else:
        raise KeyError(kind)


CHEAP = ["seed", "draw", "shuffle", "reseed", "Random", "LHS", "LHS7"]
DEAR = ["KRG", "GENN", "GENN5", "MOE"]


def lhs(nx, nt, crit, seed, obj=False):
    o = dict(xlimits=np.array([[-1.0, 2.0]] * nx), random_state=np.random.RandomState(seed) if obj else seed)
    if crit:
        o["criterion"] = crit
    return LHS(**o)(nt)


def milhs(nt, crit, seed):
    return MixedIntegerContext(apps.XT, apps.XL, work_in_folded_space=False).build_sampling_method(LHS, criterion=crit, random_state=seed)(nt)


def genn(seed, m=5, nx=1, ny=1, mb=2, deep=1, wide=2, ep=2, it=3, twice=False, hook=None):
    x, y = dataset(m, nx, ny)
    sm = GENN(num_iterations=it, num_epochs=ep, mini_batch_size=mb, deep=deep, wide=wide, is_print=False, print_global=False)
    if seed is not None:
        sm.options["seed"] = seed
    sm.set_training_values(x, y)
    for k in range(nx):
        sm.set_training_derivatives(x, dfun(x, k, ny), k)
    q = halton(3, nx, 30)
    sm.train()
    if twice:
        if hook:
            hook(0)
        sm.train()
    return np.concatenate([sm.predict_values(q).ravel()] + [sm.predict_derivatives(q, k).ravel() for k in range(nx)])


SURR = {
    "KRG": lambda nx: KRG(print_global=False, theta0=[0.1]),
    "KRG-tnc": lambda nx: KRG(print_global=False, theta0=[0.1], hyper_opt="TNC"),
    "KRG-out": lambda nx: KRG(print_global=False, theta0=[1e3]),
    "KRG-noise": lambda nx: KRG(print_global=False, eval_noise=True, noise0=[1e-3]),
    "KPLS": lambda nx: KPLS(print_global=False, n_comp=1),
    "KPLSK": lambda nx: KPLSK(print_global=False, n_comp=1),
    "MGP": lambda nx: MGP(print_global=False, n_comp=1),
}


def ego(crit, qei, surr, seed, n_par=2, n_iter=1, nx=1, mixed=False, doe=True, tunnel=False, hook=None, obj=False, n_start=2):
    """the whole history of one optimisation; hook(i) runs inside the objective at its i-th evaluation"""
    count = [0]

    def f(x):
        if hook:
            hook(count[0])
        count[0] += 1
        x = np.asarray(x, float)
        return apps.mi_fun(x) if mixed else fun(2 * x) if nx > 1 else np.sin(7 * x[:, :1]) + x[:, :1]

    o = dict(n_iter=n_iter, criterion=crit, qEI=qei, n_parallel=n_par, n_start=n_start, n_max_optim=2, random_state=np.random.RandomState(seed) if obj else seed, surrogate=SURR[surr](nx), enable_tunneling=tunnel)
    if mixed:
        o.update(xlimits=np.array(apps.XL, dtype=object), xtypes=apps.XT, n_doe=6)
    else:
        o["xlimits"] = unit(nx)
        if doe:
            o["n_doe"] = 4 if nx == 1 else 5
        else:
            o["xdoe"] = halton(4, nx)
    with hushed():
        r = EGO(**o).optimize(f)
    return np.concatenate([np.asarray(v, float).ravel() for v in r])


def targets(tier):
    """name -> (group, callable(hook))"""
    th = tier == "thorough"
    T = {}
    for seed in (0, 1, 42, 2 ** 32 - 1):
        for crit in [None] + CRIT:
            for nx, nt in ((1, 4), (2, 3), (2, 1), (3, 5)) if crit not in ("ese",) or th else ((1, 4), (2, 3)):
                if seed not in (0, 42) and ((nx, nt) != (2, 3) or crit == "ese"):
                    continue
                if crit == "ese" and not th and seed and nx > 1:
                    continue
                T["LHS/%s/nx%d/nt%d/s%d" % (crit, nx, nt, seed)] = ("lhs", lambda hook, a=(nx, nt, crit, seed): lhs(*a))
        T["MILHS/s%d" % seed] = ("lhs", lambda hook, s=seed: milhs(4, "m", s))
        if seed == 0 or th:
            T["MILHS-ese/s%d" % seed] = ("lhs", lambda hook, s=seed: milhs(3, "ese", s))
        for i, o in enumerate([dict(), dict(mb=64), dict(mb=1, deep=2), dict(nx=2, ny=2, wide=3), dict(twice=True), dict(ep=1, it=1)]):
            if seed not in (0, 42) and i and not th:
                continue
            T["GENN/%d/s%d" % (i, seed)] = ("genn", lambda hook, s=seed, o=o: genn(s, hook=hook, **o))
    E = []
    for seed in (0, 42):
        if seed and not th:
            E.append(("EI", "KBRand", "KRG", seed, {}))
            continue
        for q in ("KB", "KBLB", "KBUB", "KBRand", "CLmin"):
            E.append(("EI", q, "KRG", seed, {}))
        for c in ("SBO", "UCB"):
            E.append((c, "KBRand", "KRG", seed, {}))
        for s in SURR:
            E.append(("EI", "KBRand", s, seed, dict(nx=2) if s in ("MGP", "KPLS", "KPLSK") else {}))
        E.append(("EI", "KBRand", "KRG", seed, dict(mixed=True)))
        E.append(("UCB", "KBRand", "KRG-tnc", seed, dict(doe=False)))
        E.append(("EI", "KBRand", "KRG", seed, dict(tunnel=True, n_par=3)))
        E.append(("SBO", "KBRand", "KRG", seed, dict(n_iter=2)))
        if th:
            for c in ("EI", "SBO", "UCB"):
                for q in ("KB", "KBLB", "KBUB", "KBRand", "CLmin"):
                    for s in SURR:
                        E.append((c, q, s, seed, dict(nx=2, n_iter=2)))
    for c, q, s, seed, o in E:
        name = "EGO/%s/%s/%s%s/s%d" % (c, q, s, "".join("/%s=%s" % kv for kv in sorted(o.items())), seed)
        T[name] = ("ego", lambda hook, a=(c, q, s, seed), o=o: ego(*a, hook=hook, **o))
    return T

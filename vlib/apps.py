"""Multi-model applications in the same shape as the plain surrogates: build(name, nx) -> trained object."""
import contextlib, io
import numpy as np
from vlib.smtlib import *
from smt.applications import VFM, MOE
from smt.applications.moe import MOESurrogateModel
from smt.applications.mixed_integer import FLOAT, INT, ENUM, MixedIntegerContext, MixedIntegerSurrogateModel


def lo(x):
    return 0.7 * fun(x, 1) + 0.4 * x[:, :1] - 0.2


def build_mf(cls, nlev=2, nx=2, nh=7, **o):
    o.update(QUIET)
    if cls is not MFK:
        o.setdefault("n_comp", 1)
    o.setdefault("theta0", np.ones((nlev, o.get("n_comp", 0) if cls is not MFK and cls.__name__ == "MFKPLS" else (o.get("n_comp", nx) if cls is not MFK else nx))) * 0.1)
    o.setdefault("noise0", [[0.0]] * nlev)
    sm = cls(**o)
    for l in range(nlev - 1):
        xl = halton(nh + 5 - 2 * l, nx, 4 + 3 * l)
        sm.set_training_values(xl, lo(xl) if l == 0 else 0.5 * lo(xl) + 0.5 * fun(xl), name=l)
    xh = halton(nh, nx, 1)
    sm.set_training_values(xh, fun(xh))
    sm.train()
    return sm


def build_vfm(lf="LS", br="RBF", typ="Additive", nx=2, nh=9, olf=None, obr=None, **kw):
    sm = VFM(type_bridge=typ, name_model_LF=lf, name_model_bridge=br, X_LF=halton(14, nx, 3), y_LF=lo(halton(14, nx, 3)) + 2.0, X_HF=halton(nh, nx, 1), y_HF=fun(halton(nh, nx, 1)) + 2.0,
             options_LF=dict(olf or {}, print_global=False), options_bridge=dict(obr or {}, print_global=False), **kw)
    sm._apply()
    return sm


def moe_data(nx=2, n=24):
    x = halton(n, nx, 1)
    y = np.where(x[:, :1] < 0.5, np.sin(6 * x[:, :1]), 2.5 + 3 * (x[:, :1] - 0.5) ** 2) + (x[:, 1:2] if nx > 1 else 0)
    return x, y


def build_moe(nx=2, n=24, cls=MOE, **o):
    x, y = moe_data(nx, n)
    np.random.seed(11)
    o.setdefault("allow", ["LS", "QP", "KRG", "RBF"])
    m = cls(**o)
    if cls is MOESurrogateModel:
        m.options["print_global"] = False
    m.set_training_values(x, y)
    with contextlib.redirect_stdout(io.StringIO()):
        m.train()
    return m


XT = [FLOAT, INT, (ENUM, 3)]
XL = [[0.0, 1.0], [-1, 2], ["a", "b", "c"]]


def mi_fun(xf):
    return (np.sin(3 * xf[:, :1]) + 0.3 * xf[:, 1:2] ** 2 + np.array([0.0, 1.0, -0.7])[xf[:, 2].astype(int)][:, None] * (1 + xf[:, :1]))


def mi_grid():
    return np.array([[f, i, e] for i in (-1, 0, 2) for e in (0, 1, 2) for f in (0.1 + 0.05 * i, 0.9 - 0.1 * e)])


def build_mi(name="KRG", folded=True, **o):
    ctx = MixedIntegerContext(XT, XL, work_in_folded_space=folded)
    sm = ctx.build_surrogate_model(make(name, 5, **o))
    xf = mi_grid()
    sm.set_training_values(xf if folded else ctx.unfold_with_enum_mask(xf), mi_fun(xf))
    sm.train()
    return sm

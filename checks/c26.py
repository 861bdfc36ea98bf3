"""C26: GENN (loss, its gradient, mini-batches, normalisation, optimizer, predictions) against an independent network."""
import itertools
import contextlib, io
import numpy as np
from vlib.smtlib import *
from smt.surrogate_models.genn import load_smt_data
from smt.utils.neural_net.model import Model
from smt.utils.neural_net.optimizer import Adam, GD

ID = "C26"
LEVEL = "model_checking"
RULE = ("every network (inputs, outputs, hidden layers, width) x lambd x gamma x sample count x parameter set x with or without derivatives: the loss equals an independent one and every component of its gradient the complex-step derivative of that; every (samples, batch size, seed): the batches of an epoch are a partition of the data, inputs, outputs and Jacobians together; "
        "every (network, batch size, epochs, iterations, data incl. constant columns): recorded histories never increase inside a batch, start from the loss of the parameters the batch starts from and end with the loss of the trained parameters, predictions and derivatives equal the independent network with the trained parameters and the scaling of the data, also far away; every (beta1, beta2, alpha) within reach of full steps: the iterates are those of Adam; data without derivatives train like gamma=0; derivatives at other points are refused. States: (configuration, component); non-trivial: hidden layers of two or more nodes or several batches")
BOUNDS = {"quick": "inputs 1..3, outputs 1..2, deep 0..3, wide 1..3, 4 lambd, 5 gamma, samples 1,2,5; batches: samples 1..9, sizes 1..11, 4 seeds; training: 1..3 epochs, 0..6 iterations", "thorough": "inputs 1..4, outputs 1..3, wide 1..4; samples to 16"}
ASSUMPTIONS = ["the fraction of the learning rate the line search starts with is read off the first step"]
TIMEOUT = 700


def cases(tier):
    th = tier == "thorough"
    out = []
    for nx, ny, deep, wide in itertools.product((1, 2, 3, 4) if th else (1, 2, 3), (1, 2, 3) if th else (1, 2), (0, 1, 2, 3), (1, 2, 3, 4) if th else (1, 2, 3)):
        if deep == 0 and wide > 1:
            continue
        out.append(dict(kind="loss", net=(nx, ny, deep, wide), key="C26/loss/%d/%d/%d/%d" % (nx, ny, deep, wide)))
        if deep == 0 or not th and wide == 2:
            continue
        for data in ("plain", "constx", "consty"):
            out.append(dict(kind="train", net=(nx, ny, deep, wide), data=data, th=th, key="C26/train/%d/%d/%d/%d/%s" % (nx, ny, deep, wide, data)))
    for m in range(1, 17 if th else 10):
        out.append(dict(kind="batches", m=m, key="C26/batches/%d" % m))
    for nx, ny in itertools.product((1, 2), (1, 2)):
        out.append(dict(kind="adam", net=(nx, ny, 2, 2), key="C26/adam/%d/%d" % (nx, ny)))
        out.append(dict(kind="api", net=(nx, ny, 2, 3), key="C26/api/%d/%d" % (nx, ny)))
    return out


# the independent network; W, b per layer; x (m, nx); returns values (m, ny) and Jacobian (m, ny, nx)
def net(P, x):
    L = len(P) // 2
    a = x.T
    d = np.repeat(np.eye(x.shape[1])[:, :, None], len(x), 2)  # (node, input, sample)
    for l in range(1, L + 1):
        W, b = P["W%d" % l], P["b%d" % l]
        z = W @ a + b
        d = np.einsum("ij,jkm->ikm", W, d)
        if l < L:
            a = np.tanh(z)
            d = (1 - a ** 2)[:, None, :] * d
        else:
            a = z
    return a.T, np.moveaxis(d, 2, 0)


def loss(P, x, y, J, lambd, gamma):
    f, d = net(P, x)
    c = 0.5 * ((f - y) ** 2).sum() + 0.5 * lambd * sum((P[k] ** 2).sum() for k in P if k[0] == "W")
    if J is not None:
        c = c + 0.5 * gamma * ((d - J) ** 2).sum()
    return c / len(x)


def params(nx, ny, deep, wide, s):
    dims = [nx] + [wide] * deep + [ny]
    P, c = {}, 0
    for l in range(1, len(dims)):
        for n, shp in (("W", (dims[l], dims[l - 1])), ("b", (dims[l], 1))):
            k = np.arange(shp[0] * shp[1]) + c + 7 * s
            c += len(k)
            P["%s%d" % (n, l)] = (np.sin(1.7 * k + 0.3) * (1.0 + 0.6 * s)).reshape(shp)
    return P


def smp(m, nx, ny):
    x = halton(m, nx, 3)
    y = np.hstack([fun(x) * (1 + k) + 0.3 * k * x[:, :1] ** 2 for k in range(ny)])
    D = np.hstack([dfun(x, k).reshape(-1, 1) for k in range(nx)])
    J = np.stack([D * (1 + k) for k in range(ny)], 1)  # (m, ny, nx)
    for k in range(ny):
        J[:, k, 0] += 0.6 * k * x[:, 0]
    return x, y, J


def acts(deep):
    return Model.initialize(1, 1, deep, 1, 0).activations


def run_loss(case, R):
    nx, ny, deep, wide = case["net"]
    M = Model.initialize(nx, ny, deep, wide, 0)
    for m, lam, gam, s, hasj in itertools.product((1, 2, 5), (0.0, 0.1, 2.0, -0.5), (0.0, 0.5, 1.0, 3.0, -1.0), (0, 1), (True, False)):
        P = params(nx, ny, deep, wide, s)
        x, y, J = smp(m, nx, ny)
        if not hasj and gam not in (0.0, 1.0):
            continue
        JJ = J if hasj else None
        args = (M.activations, x.T, y.T, np.moveaxis(J, 0, 2) if hasj else None, lam, gam)
        key = "%s/m%d/l%g/g%g/s%d/%d" % (case["key"], m, lam, gam, s, hasj)
        keep = {k: v.copy() for k, v in P.items()}
        st, c = attempt(lambda: float(np.squeeze(M.cost(P, *args))))
        R.ev()
        R.state(key, (m, lam, gam, s, hasj))
        if wide > 1 and deep:
            R.nt(key)
        la, ga = max(0.0, lam), min(max(0.0, gam), 1.0)
        ref = loss(P, x, y, JJ, la, ga)
        if not R.check(st == "ok" and abs(c - ref) <= 1e-10 * max(1, abs(ref)), key + " loss", "loss differs from its definition", got=c, want=ref):
            continue
        st, g = attempt(lambda: M.grad(P, *args))
        if not R.check(st == "ok", key + " grad", "gradient fails", got=g):
            continue
        R.check(set(g) == set(P), key + " grad keys", "gradient lacks parameters", got=sorted(g))
        for k in P:
            want = np.zeros(P[k].shape)
            for i in np.ndindex(*P[k].shape):
                Q = {n: v.astype(complex) for n, v in P.items()}
                Q[k][i] += 1e-30j
                want[i] = loss(Q, x, y, JJ, la, ga).imag / 1e-30
                R.tr()
            R.check(k in g and g[k].shape == want.shape and np.abs(g[k] - want).max() <= 1e-9 * max(1, np.abs(want).max()), key + " grad " + k, "gradient of the loss with respect to %s is not its derivative" % k, got=g.get(k), want=want)
        R.check(all(np.array_equal(P[k], keep[k]) for k in P), key + " untouched", "evaluating changes the parameters")


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def run_batches(case, R):
    """Observed through training with zero iterations: every history is then one loss, of a known number of samples."""
    m = case["m"]
    # outputs are such that each set of samples has a loss of its own
    x = np.linspace(-1, 1, m).reshape(1, -1) if m > 1 else np.zeros((1, 1))
    y = (2.0 ** np.arange(m)).reshape(1, -1)
    from smt.utils.neural_net import data

    for size, seed, hasj, ep in itertools.product(list(range(1, m + 3)) + [None], (None, 0, 1, 2), (True, False), (1, 2, 3)):
        J = (1.0 + np.arange(m)).reshape(1, 1, m) if hasj else None
        key = "%s/b%s/s%s/%d/e%d" % (case["key"], size, seed, hasj, ep)
        M = Model.initialize(1, 1, 1, 2, 0)
        st, r = attempt(lambda: quiet(lambda: M.train(x, y, J, num_iterations=0, mini_batch_size=size, num_epochs=ep, gamma=1.0 if hasj else 0.0, seed=seed, silent=True)))
        R.ev()
        R.trace()
        if not R.check(st == "ok", key + " train", "training fails", got=r):
            continue
        mu, sd = x.mean(), x.std() if m > 1 else 1.0
        my, sy = y.mean(), y.std() if m > 1 else 1.0
        f, d = net(M.parameters, ((x - mu) / sd).T)
        e = 0.5 * (f[:, 0] - (y[0] - my) / sy) ** 2
        if hasj:
            e = e + 0.5 * (d[:, 0, 0] - J[0, 0] * sd / sy) ** 2
        n = min(size or m, m)
        sizes = [n] * (m // n) + ([m % n] if m % n else [])
        R.check(sorted(M.training_history) == sorted("epoch_%d" % k for k in range(ep)), key + " epochs", "epochs recorded", got=sorted(M.training_history))
        for k in range(ep):
            H = M.training_history.get("epoch_%d" % k, {})
            hs = [H["batch_%d" % b] for b in range(len(H)) if "batch_%d" % b in H]
            R.state(key, k)
            if len(sizes) > 1:
                R.nt(key)
            if not R.check(len(hs) == len(sizes) and all(len(h) == 1 for h in hs), key + " count", "number of batches of an epoch", got=len(hs), want=len(sizes)):
                continue
            tot = sum(s * float(h[0]) for s, h in zip(sizes, hs))
            R.check(abs(tot - e.sum()) <= 1e-9 * max(1, abs(e.sum())), key + " partition", "the batches of an epoch do not add up to the data", got=tot, want=e.sum())
    # directly
    f = getattr(data, "random_mini_batches", None)
    if f is None:
        return
    for nx, ny, size, seed, hasj in itertools.product((1, 2), (1, 2), range(1, m + 3), (None, 0, 1, 5), (True, False)):
        X = 100 * np.arange(nx).reshape(-1, 1) + np.arange(m).reshape(1, -1) + 0.0
        Y = 1000 + 100 * np.arange(ny).reshape(-1, 1) + np.arange(m).reshape(1, -1) + 0.0
        J = (5000 + 100 * np.arange(nx * ny).reshape(ny, nx, 1) + np.arange(m).reshape(1, 1, -1) + 0.0) if hasj else None
        B = f(X, Y, J, size, seed)
        R.ev()
        key = "%s/direct/%d/%d/b%d/s%s/%d" % (case["key"], nx, ny, size, seed, hasj)
        idx = []
        ok = True
        for bx, by, bj in B:
            i = bx[0].astype(int)
            idx += list(i)
            ok &= np.array_equal(bx, X[:, i]) and np.array_equal(by, Y[:, i]) and (bj is None if J is None else np.array_equal(bj, J[:, :, i])) and 0 < len(i) <= size
        R.check(ok and sorted(idx) == list(range(m)), key, "batches do not partition the samples, inputs, outputs and Jacobians together", got=idx)


def data(case, m=5):
    nx, ny = case["net"][:2]
    x, y, J = smp(m, nx, ny)
    x = x * 3.0 + 1.0
    J = J / 3.0
    if case.get("data") == "constx":
        x[:, -1] = 0.1
    if case.get("data") == "consty":
        y[:, -1] = 0.1
        J[:, -1] = 0.0
    return x, y, J


def sds(a):
    c = np.ptp(a, 0) == 0
    return a.mean(0), np.where(c, 1.0, a.std(0))


def genn(case, x, y, J, **o):
    nx, ny, deep, wide = case["net"]
    opt = dict(deep=deep, wide=wide, seed=3, is_print=False, num_epochs=2, num_iterations=4, mini_batch_size=2, alpha=0.3)
    opt.update(o)
    sm = GENN(print_global=False, **opt)
    sm.set_training_values(x.copy(), y.copy())
    if J is not None:
        for k in range(x.shape[1]):
            sm.set_training_derivatives(x.copy(), J[:, :, k].copy(), k)
    return sm


def verify_net(R, key, sm, x, y):
    """predictions are those of the trained network"""
    mx, sx = sds(x)
    my, sy = sds(y)
    P = {k: np.array(v) for k, v in sm.model.parameters.items()}
    nx, ny = x.shape[1], y.shape[1]
    lat = np.array(list(itertools.product((-2.0, 1.3, 5.0), repeat=nx)))
    pts = np.concatenate([x, lat, 1e6 * lat, -1e12 * lat])
    with np.errstate(all="ignore"):
        f, d = net(P, (pts - mx) / sx)
        st, v = attempt(sm.predict_values, pts.copy())
    R.ev()
    if not R.check(st == "ok" and np.isfinite(v).all(), key + " finite", "predictions are not finite", got=v):
        return P
    sc = max(1, np.abs(f * sy + my).max())
    R.check(v.shape == (len(pts), ny) and np.abs(v - (f * sy + my)).max() <= 1e-9 * sc, key + " values", "predictions are not those of the trained network", got=np.abs(v - (f * sy + my)).max())
    for kx in range(nx):
        with np.errstate(all="ignore"):
            st, g = attempt(sm.predict_derivatives, pts.copy(), kx)
        w = d[:, :, kx] * sy / sx[kx]
        R.tr()
        R.check(st == "ok" and g.shape == w.shape and np.isfinite(g).all() and np.abs(g - w).max() <= 1e-9 * max(1, np.abs(w).max()), "%s deriv %d" % (key, kx), "derivatives are not those of the trained network", got=g, want=w)
    return P


def stationary(case, x, y, J, z, size, gam, lam):
    """is the start of the first batch a stationary point? (judged on all the data: only for one batch)"""
    if size < len(x):
        return case["data"] == "constx"
    sm = genn(case, x, y, J, mini_batch_size=size, num_epochs=1, num_iterations=0, gamma=gam, lambd=lam)
    quiet(sm.train)
    P = sm.model.parameters
    for k in P:
        for i in np.ndindex(*P[k].shape):
            Q = {n: np.array(v).astype(complex) for n, v in P.items()}
            Q[k][i] += 1e-30j
            if abs(loss(Q, *z, lam, gam).imag / 1e-30) > 1e-6:
                return False
    return True


def run_train(case, R):
    nx, ny, deep, wide = case["net"]
    for size, ep, it, gam, lam, m in itertools.product((1, 2, 64), (1, 2), (0, 1, 6), (0.0, 1.0), (0.0, 0.1), (1, 5)):
        if m == 1 and size != 64:
            continue
        x, y, J = data(case, m)
        key = "%s/b%d/e%d/i%d/g%g/l%g/m%d" % (case["key"], size, ep, it, gam, lam, m)
        sm = genn(case, x, y, J, mini_batch_size=size, num_epochs=ep, num_iterations=it, gamma=gam, lambd=lam)
        st, r = attempt(lambda: quiet(sm.train))
        R.ev()
        R.trace()
        if wide > 1 or size < m:
            R.nt(key)
        if not R.check(st == "ok", key + " train", "training fails", got=r):
            continue
        P = verify_net(R, key, sm, x, y)
        R.check([P["W%d" % l].shape for l in range(1, deep + 2)] == [(b, a) for a, b in zip([nx] + [wide] * deep, [wide] * deep + [ny])] and len(P) == 2 * (deep + 1), key + " topology", "the network is not the one asked for", got={k: v.shape for k, v in P.items()})
        H = sm.model.training_history
        n = min(size, m)
        nb = -(-m // n)
        if not R.check(len(H) == ep and all(len(b) == nb for b in H.values()), key + " history", "batches recorded", got={k: len(v) for k, v in H.items()}):
            continue
        mx, sx = sds(x)
        my, sy = sds(y)
        z = ((x - mx) / sx, (y - my) / sy, J * sx[None, None, :] / sy[None, :, None])
        for e in range(ep):
            for b in range(nb):
                h = [float(c) for c in H["epoch_%d" % e]["batch_%d" % b]]
                R.state(key, e, b)
                R.check(1 <= len(h) <= it + 1, key + " iterations", "more iterations than allowed", got=len(h))
                R.check(all(np.isfinite(h)) and all(q <= p * (1 + 1e-9) + 1e-9 for p, q in zip(h, h[1:])), key + " increase %d %d" % (e, b), "an accepted step increased the loss", got=h)
                if it and e == 0 and b == 0 and h[0] > 1e-3:
                    R.check(h[-1] < h[0] or stationary(case, x, y, J, z, size, gam, lam), key + " progress", "training made no progress from a non-stationary start", got=h)
        if size >= m:
            h = H["epoch_%d" % (ep - 1)]["batch_0"]
            want = loss(P, *z, lam, gam)
            R.check(abs(float(h[-1]) - want) <= 1e-9 * max(1, abs(want)), key + " end", "the recorded loss is not the loss of the trained parameters on the data", got=float(h[-1]), want=want)
            for e in range(1, ep):
                p, q = float(H["epoch_%d" % (e - 1)]["batch_0"][-1]), float(H["epoch_%d" % e]["batch_0"][0])
                R.check(abs(p - q) <= 1e-9 * max(1, abs(p)), key + " carry %d" % e, "an epoch does not start from the parameters of the previous one", got=(p, q))
        # the data can be read back
        X, Y, JJ = sm.model.training_data
        for a, w, n_ in ((X, x.T, "x"), (Y, y.T, "y"), (JJ, np.moveaxis(J, 0, 2), "J")):
            R.check(np.shape(a) == w.shape and np.abs(a - w).max() <= 1e-9 * max(1, np.abs(w).max()), key + " back " + n_, "normalised data do not give back the training data", got=a, want=w)
        # a second training starts again
        st, r = attempt(lambda: quiet(sm.train))
        R.check(st == "ok" and all(np.array_equal(P[k], sm.model.parameters[k]) for k in P), key + " again", "training again with the same seed gives another network", got=r)


def run_adam(case, R):
    nx, ny, deep, wide = case["net"]
    x, y, J = data(case, 4)
    mx, sx = sds(x)
    my, sy = sds(y)
    z = ((x - mx) / sx, (y - my) / sy, J * sx[None, None, :] / sy[None, :, None])

    def grad(P):
        G = {}
        for k in P:
            G[k] = np.zeros(P[k].shape)
            for i in np.ndindex(*P[k].shape):
                Q = {n: v.astype(complex) for n, v in P.items()}
                Q[k][i] += 1e-30j
                G[k][i] = loss(Q, *z, 0.1, 1.0).imag / 1e-30
        return G

    for b1, b2, lr in itertools.product((0.0, 0.5, 0.9), (0.5, 0.99, 0.999), (1e-3, 2e-2)):
        par = []
        key = "%s/%g/%g/%g" % (case["key"], b1, b2, lr)
        for it in range(0, 6):
            sm = genn(case, x, y, J, beta1=b1, beta2=b2, alpha=lr, mini_batch_size=64, num_epochs=1, num_iterations=it)
            quiet(sm.train)
            R.ev()
            par.append({k: v.copy() for k, v in sm.model.parameters.items()})
        P = par[0]
        G = grad(P)
        big = max(((abs(G[k][i]), k, i) for k in G for i in np.ndindex(*G[k].shape)))
        f = abs(par[1][big[1]][big[2]] - P[big[1]][big[2]]) / lr
        R.check(0 < f <= 1 + 1e-6, key + " rate", "the first step is longer than the learning rate", got=f)
        v = {k: 0 * P[k] for k in P}
        s = {k: 0 * P[k] for k in P}
        c = loss(P, *z, 0.1, 1.0)
        for t in range(1, 6):
            G = grad(P)
            v = {k: b1 * v[k] + (1 - b1) * G[k] for k in P}
            s = {k: b2 * s[k] + (1 - b2) * G[k] ** 2 for k in P}
            P = {k: P[k] - f * lr * (v[k] / (1 - b1 ** t)) / (np.sqrt(s[k] / (1 - b2 ** t)) + 2.2e-16) for k in P}
            q = loss(P, *z, 0.1, 1.0)
            R.state(key, t)
            if not q < c:
                break  # the line search comes in
            c = q
            R.nt(key)
            small = min(np.abs(G[k]).min() for k in G) < 1e-9
            e = max(np.abs(P[k] - par[t][k]).max() for k in P)
            if not small:
                R.check(e <= 1e-7 * lr, key + " step %d" % t, "iterate %d is not that of Adam with the options given" % t, got=e, lr=lr)


def run_api(case, R):
    nx, ny, deep, wide = case["net"]
    x, y, J = data(case, 5)
    base = None
    for size in (2, 64):
        # without derivatives: as with gamma=0
        a = genn(case, x, y, None, mini_batch_size=size)
        st, r = attempt(lambda: quiet(a.train))
        R.ev()
        key = "%s/b%d" % (case["key"], size)
        if R.check(st == "ok", key + " nodata", "training without derivatives fails", got=r):
            b = genn(case, x, y, J, mini_batch_size=size, gamma=0.0)
            quiet(b.train)
            q = x * 0.9 + 0.1
            R.check(close(a.predict_values(q), b.predict_values(q), 1e-12), key + " gamma0", "training without derivatives differs from gamma=0")
            R.check(a.options["gamma"] == 1.0, key + " option", "training changes the option gamma", got=a.options["gamma"])
            verify_net(R, key + " nodata", a, x, y)
            X, Y, JJ = a.model.training_data
            R.check(JJ is None and close(X.T, x, 1e-12) and close(Y.T, y, 1e-12), key + " back", "training data are not given back")
            # derivatives supplied later are used
            for k in range(nx):
                a.set_training_derivatives(x.copy(), J[:, :, k].copy(), k)
            quiet(a.train)
            c = genn(case, x, y, J, mini_batch_size=size)
            quiet(c.train)
            R.check(close(a.predict_values(q), c.predict_values(q), 1e-12), key + " later", "derivatives supplied after a training are not used")
            R.check(not close(a.predict_values(q), b.predict_values(q), 1e-9), key + " used", "derivatives have no influence")
            # what the derivatives of each input are must matter, in place
            for k, o in itertools.product(range(nx), range(ny)):
                JJ = J.copy()
                JJ[:, o, k] += 1.0
                d = genn(case, x, y, JJ, mini_batch_size=size)
                quiet(d.train)
                R.ev()
                R.check(not close(d.predict_values(q), c.predict_values(q), 1e-9), "%s used %d %d" % (key, k, o), "the derivative of output %d with respect to input %d has no influence" % (o, k))
        # derivatives at other points than the values
        for k in range(nx):
            d = genn(case, x, y, J, mini_batch_size=size)
            x2 = x.copy()
            x2[1, 0] += 0.5
            d.set_training_derivatives(x2, J[:, :, k].copy(), k)
            st, r = attempt(lambda: quiet(d.train))
            R.check(st == "exc", "%s elsewhere %d" % (key, k), "derivatives given at other points than the values are taken as derivatives at the points")
    # the loader gives what the setters give
    if ny == 1:
        a = genn(case, x, y, J)
        quiet(a.train)
        for flat in (True, False):
            b = GENN(print_global=False, deep=deep, wide=wide, seed=3, is_print=False, num_epochs=2, num_iterations=4, mini_batch_size=2, alpha=0.3)
            f = np.ravel if flat and nx == 1 else (lambda v: v)
            load_smt_data(b, f(x.copy()), np.ravel(y.copy()) if flat else y.copy(), f(J[:, 0, :].copy()))
            quiet(b.train)
            R.ev()
            R.check(close(a.predict_values(x), b.predict_values(x), 1e-12), "%s load %d" % (case["key"], flat), "load_smt_data gives another model")
    # parameters carried over
    m = Model()
    a = genn(case, x, y, J)
    quiet(a.train)
    m.load_parameters({k: v.copy() for k, v in a.model.parameters.items()})
    q = halton(4, nx, 1)
    f, d = net(a.model.parameters, q)
    st, v = attempt(lambda: m.evaluate(q.T))
    R.check(st == "ok" and close(v.T, f, 1e-12), case["key"] + " carried", "a network with loaded parameters does not evaluate them", got=v)
    # optimizers on a quadratic
    for cls, fd in itertools.product((Adam, GD), (True, False)):
        A = np.diag([1.0, 4.0, 0.3])
        c = lambda p: np.array(0.5 * p["u"].T @ A @ p["u"] + 0.5 * (p["v"] - 2) ** 2).reshape(1, 1).sum()
        c2 = lambda p: np.array(c(p))
        g = lambda p: {"u": A @ p["u"], "v": p["v"] - 2}
        start = {"u": np.array([[1.0], [-2.0], [0.5]]), "v": np.array([[0.0]])}
        keep = {k: w.copy() for k, w in start.items()}
        o = cls.initialize(start, c2, None if fd else g, learning_rate=0.2)
        best = quiet(lambda: o.optimize(max_iter=300, is_print=False))
        h = [float(t) for t in o.cost_history]
        key = "%s/%s/%d" % (case["key"], cls.__name__, fd)
        R.ev()
        R.check(all(q_ <= p * (1 + 1e-9) + 1e-9 for p, q_ in zip(h, h[1:])), key + " inc", "an accepted step increased the cost")
        R.check(h[-1] < 1e-3 * h[0], key + " min", "no minimum of a quadratic found", got=h[-1])
        R.check(abs(h[-1] - float(c(best))) < 1e-12 and len(o.design_history) == len(h) and all(abs(float(c(w)) - t) < 1e-12 for w, t in zip(o.design_history, h)), key + " hist", "recorded costs are not those of the recorded designs")
        R.check(all(np.array_equal(start[k], keep[k]) for k in start), key + " start", "the initial guess is changed")


def run(case, R):
    globals()["run_" + case["kind"]](case, R)

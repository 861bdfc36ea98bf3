"""Independent reference formulas for Kriging: correlation functions, trends, universal-Kriging mean and variance,
concentrated likelihood. Written from the textbook; uses numpy only (and scikit-learn for the PLS directions)."""
import numpy as np


def corr_matrix(name, theta, A, B, W=None):
    """correlation between the rows of A and B; W are PLS weights (nx, n_comp)"""
    theta = np.asarray(theta, float).ravel()
    d = A[:, None, :] - B[None, :, :]
    if name == "act_exp":
        return np.exp(-0.5 * ((d @ theta.reshape(-1, A.shape[1]).T) ** 2).sum(-1))
    if name == "squar_exp":
        t = theta if W is None else (theta * W ** 2).sum(axis=1)
        return np.exp(-(t * d ** 2).sum(-1))
    d = np.abs(d)
    if name == "abs_exp":
        t = theta if W is None else (theta * np.abs(W)).sum(axis=1)
        return np.exp(-(t * d).sum(-1))
    if name == "matern52":
        z = theta * d
        return np.prod((1 + np.sqrt(5) * z + 5.0 / 3 * z ** 2) * np.exp(-np.sqrt(5) * z), axis=-1)
    if name == "matern32":
        z = theta * d
        return np.prod((1 + np.sqrt(3) * z) * np.exp(-np.sqrt(3) * z), axis=-1)
    raise ValueError(name)


def trend(name, x):
    n, d = x.shape
    cols = [np.ones(n)]
    if name in ("linear", "quadratic"):
        cols += [x[:, i] for i in range(d)]
    if name == "quadratic":
        cols += [x[:, i] * x[:, j] for i in range(d) for j in range(i, d)]
    return np.array(cols).T


def standard(X, y):
    xo, xs = X.mean(0), X.std(0, ddof=1)
    yo, ys = y.mean(0), y.std(0, ddof=1)
    xs = np.where(xs == 0, 1.0, xs)
    ys = np.where(ys == 0, 1.0, ys)
    return (X - xo) / xs, (y - yo) / ys, xo, yo, xs, ys


class UK:
    """universal Kriging with given correlation parameters; diag is added to the diagonal of R"""

    def __init__(self, X, y, corr, theta, poly, diag, W=None, scale=None, dof=0):
        if scale is None:
            self.X, self.y, self.xo, self.yo, self.xs, self.ys = standard(X, y)
        else:
            self.xo, self.xs, self.yo, self.ys = scale
            self.X, self.y = (X - self.xo) / self.xs, (y - self.yo) / self.ys
        self.corr, self.theta, self.poly, self.W = corr, theta, poly, W
        n = len(self.X)
        self.n = n
        self.R = corr_matrix(corr, theta, self.X, self.X, W)
        self.R[np.arange(n), np.arange(n)] = 1.0 + diag
        self.F = trend(poly, self.X)
        self.cond = np.linalg.cond(self.R)
        self.RiF = np.linalg.solve(self.R, self.F)
        self.M = self.F.T @ self.RiF
        self.condM = np.linalg.cond(self.M)
        self.beta = np.linalg.solve(self.M, self.RiF.T @ self.y)
        res = self.y - self.F @ self.beta
        self.g = np.linalg.solve(self.R, res)
        self.s2n = (res * self.g).sum(0) / (n - dof)
        self.s2 = self.s2n * self.ys ** 2
        self.dof = dof

    def logdet(self):
        return np.linalg.slogdet(self.R)[1]

    def neg_log_lik(self):
        """minus twice the concentrated log-likelihood (natural log), up to a constant"""
        return self.n * np.log(self.s2n.sum()) + self.logdet()

    def mean(self, x):
        x = (x - self.xo) / self.xs
        r = corr_matrix(self.corr, self.theta, x, self.X, self.W)
        return self.yo + self.ys * (trend(self.poly, x) @ self.beta + r @ self.g)

    def mse(self, x):
        x = (x - self.xo) / self.xs
        r = corr_matrix(self.corr, self.theta, x, self.X, self.W)
        Rir = np.linalg.solve(self.R, r.T)
        u = self.F.T @ Rir - trend(self.poly, x).T
        b = 1.0 - (r.T * Rir).sum(0) + (u * np.linalg.solve(self.M, u)).sum(0)
        return np.outer(b, self.s2)


def pls_weights(X, y, n_comp):
    from sklearn.cross_decomposition import PLSRegression

    return PLSRegression(n_comp).fit(X.copy(), y.copy()).x_rotations_

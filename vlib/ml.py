"""Independent dense Gaussian likelihoods of the spatial lag and spatial error models."""
import numpy as np
import numpy.linalg as la
from scipy.optimize import minimize_scalar
from . import ref


class Lag:
    """y = rho W y + X b + e"""

    def __init__(self, y, X, W):
        self.y, self.X, self.W, (self.n, self.k) = y, X, W, X.shape
        self.Wy = W @ y
        self.e0 = y - X @ ref.lsq(X, y)[0]
        self.e1 = self.Wy - X @ ref.lsq(X, self.Wy)[0]

    def jac(self, p):
        return la.slogdet(np.eye(self.n) - p * self.W)[1]

    def s2(self, p):
        e = self.e0 - p * self.e1
        return float((e * e).sum()) / self.n

    def ll(self, p):
        return -self.n / 2 * (np.log(2 * np.pi) + 1 + np.log(self.s2(p))) + self.jac(p)

    def at(self, p):
        r = ref.NS(p=p)
        n, W, X = self.n, self.W, self.X
        r.b = ref.lsq(X, self.y - p * self.Wy)[0]
        r.u = self.y - p * self.Wy - X @ r.b
        r.s2 = self.s2(p)
        r.ll = self.ll(p)
        A = np.eye(n) - p * W
        r.ph = la.solve(A, X @ r.b)
        G = W @ la.inv(A)
        Gxb = W @ r.ph
        r.vm1 = self.info_inv(r, G, Gxb)
        r.vm = r.vm1[:-1, :-1]
        return r

    def info_inv(self, r, G, Gxb):
        X, k, s2, n = self.X, self.k, r.s2, self.n
        # information in the order beta, rho, sigma2, scaled so that inversion is well conditioned
        t1, t2, t3 = np.trace(G), np.trace(G @ G), np.trace(G.T @ G)
        I = np.zeros((k + 2, k + 2))
        I[:k, :k] = X.T @ X / s2
        I[:k, k] = I[k, :k] = (X.T @ Gxb / s2).ravel()
        I[k, k] = t2 + t3 + float((Gxb.T @ Gxb).item()) / s2
        I[k, k + 1] = I[k + 1, k] = t1 / s2
        I[k + 1, k + 1] = n / (2 * s2 ** 2)
        d = 1 / np.sqrt(np.diag(I))
        return la.inv(I * np.outer(d, d)) * np.outer(d, d)


class Err(Lag):
    """y = X b + u, u = lam W u + e"""

    def __init__(self, y, X, W, WX=None):
        self.y, self.X, self.W, (self.n, self.k) = y, X, W, X.shape
        self.Wy = W @ y
        self.WX = W @ X if WX is None else WX

    def fit(self, p):
        ys, Xs = self.y - p * self.Wy, self.X - p * self.WX
        b = ref.lsq(Xs, ys)[0]
        return b, ys - Xs @ b, Xs

    def s2(self, p):
        e = self.fit(p)[1]
        return float((e * e).sum()) / self.n

    def at(self, p, s2=None):
        r = ref.NS(p=p)
        n, W = self.n, self.W
        r.b, r.e, Xs = self.fit(p)
        r.u = self.y - self.X @ r.b
        r.s2 = float((r.e * r.e).sum()) / n if s2 is None else s2
        r.ll = self.ll(p)
        G = W @ la.inv(np.eye(n) - p * W)
        t1, t2, t3 = np.trace(G), np.trace(G @ G), np.trace(G.T @ G)
        I = np.array([[t2 + t3, t1 / r.s2], [t1 / r.s2, n / (2 * r.s2 ** 2)]])
        d = 1 / np.sqrt(np.diag(I))
        r.vm1 = la.inv(I * np.outer(d, d)) * np.outer(d, d)
        r.vm = np.zeros((self.k + 1, self.k + 1))
        r.vm[:-1, :-1] = r.s2 * ref.xtxi(Xs)
        r.vm[-1, -1] = r.vm1[0, 0]
        return r


def optimum(m, lo=-1.0, hi=1.0, grid=81):
    """-> (best p, best ll, list of local maxima) of m.ll over (lo, hi)"""
    g = np.linspace(lo + 1e-6, hi - 1e-6, grid)
    f = np.array([m.ll(p) for p in g])
    loc = []
    for i in range(grid):
        if (i == 0 or f[i] >= f[i - 1]) and (i == grid - 1 or f[i] >= f[i + 1]):
            a, b = g[max(0, i - 1)], g[min(grid - 1, i + 1)]
            o = minimize_scalar(lambda p: -m.ll(p), bounds=(a, b), method="bounded", options={"xatol": 1e-10})
            cand = max([(-o.fun, o.x), (f[i], g[i])])
            loc.append(cand)
    loc.sort(reverse=True)
    return loc[0][1], loc[0][0], loc

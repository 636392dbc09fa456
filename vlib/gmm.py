"""Dense reference for GMM spatial-error estimation: quadratic moment conditions
m_i(lambda) = e'A_i e / n with e = (I - lambda W) u, their exact minimisers and
the published variance expressions."""
import numpy as np
import numpy.linalg as la
from scipy.optimize import brentq, minimize_scalar
from . import ref
from .core import Violation

B = 0.99


class Quad:
    """moments that are quadratic forms of the filtered residuals (two equations)"""

    def __init__(self, u, W, As):
        n = len(u)
        wu = W @ u
        self.n = n
        self.c0 = np.array([(u.T @ A @ u).item() for A in As]) / n
        self.c1 = np.array([(u.T @ (A + A.T) @ wu).item() for A in As]) / n
        self.c2 = np.array([(wu.T @ A @ wu).item() for A in As]) / n

    def m(self, l):
        return self.c0 - l * self.c1 + l * l * self.c2

    def jac(self, l):
        """J with d m/d lambda = -J"""
        return (self.c1 - 2 * l * self.c2).reshape(-1, 1)

    def obj(self, l, Vi=None):
        m = self.m(l)
        return float(m @ m) if Vi is None else float(m @ Vi @ m)

    def scale(self, Vi=None):
        r = []
        for c in (self.c0, self.c1, self.c2):
            r.append(float(c @ c) if Vi is None else float(c @ Vi @ c))
        return max(r) or 1.0

    def minima(self, Vi=None):
        """exact local minimisers on [-B, B]"""
        Vi = np.eye(len(self.c0)) if Vi is None else Vi
        P = np.array([self.c2, -self.c1, self.c0])          # descending powers
        q = np.zeros(5)
        for i in range(3):
            for j in range(3):
                q[i + j] += P[i] @ Vi @ P[j]
        d = np.polyder(q)
        s = np.abs(d).max() or 1.0
        rts = np.roots(d / s)
        pts = sorted(float(r.real) for r in rts if abs(r.imag) < 1e-7 and -B < r.real < B)
        f = lambda l: float(np.polyval(q, l))
        out = [p for p in pts if f(p) <= min(f(max(-B, p - 1e-4)), f(min(B, p + 1e-4))) + 1e-12 * abs(q).max()]
        dd = lambda l: float(np.polyval(d, l))
        if dd(-B) >= 0:
            out.append(-B)
        if dd(B) <= 0:
            out.append(B)
        return sorted(set(out))


class KP:
    """the three Kelejian-Prucha moments, sigma^2 profiled out"""

    def __init__(self, u, W):
        n = len(u)
        wu, wwu = W @ u, W @ (W @ u)
        t = np.trace(W.T @ W)
        q = lambda a, b: (a.T @ b).item() / n
        self.a = np.array([q(u, u), q(wu, wu), q(u, wu)])
        self.b = np.array([2 * q(u, wu), 2 * q(wu, wwu), q(u, wwu) + q(wu, wu)])
        self.c = np.array([q(wu, wu), q(wwu, wwu), q(wu, wwu)])
        self.d = np.array([1.0, t / n, 0.0])

    def m(self, l):
        r = self.a - l * self.b + l * l * self.c
        s2 = max(0.0, float(r @ self.d) / float(self.d @ self.d))
        return r - s2 * self.d

    def obj(self, l, Vi=None):
        m = self.m(l)
        return float(m @ m)

    def scale(self, Vi=None):
        return max(float(self.a @ self.a), float(self.b @ self.b), float(self.c @ self.c)) or 1.0

    def minima(self, Vi=None):
        g = np.linspace(-B, B, 400)
        f = np.array([self.obj(l) for l in g])
        out = []
        for i in range(len(g)):
            if (i == 0 or f[i] <= f[i - 1]) and (i == len(g) - 1 or f[i] <= f[i + 1]):
                a, b = g[max(0, i - 1)], g[min(len(g) - 1, i + 1)]
                o = minimize_scalar(self.obj, bounds=(a, b), method="bounded", options={"xatol": 1e-12})
                out.append(min([(o.fun, o.x), (f[i], g[i])])[1])
        return out


def check_min(what, mom, lam, Vi=None, gap=2e-7, near=2e-3, key=None):
    """lam is a local minimum of the moment distance over [-B, B], to the precision of the
    quasi-Newton search (objective gap relative to the size of the moments)"""
    lam = float(lam)
    if not (-B - 1e-12 <= lam <= B + 1e-12):
        raise Violation("%s: lambda %.6g outside [-%g, %g]" % (what, lam, B, B), key)
    loc = mom.minima(Vi)
    x = min(loc, key=lambda v: abs(v - lam))
    f, fx, sc = mom.obj(lam, Vi), mom.obj(x, Vi), mom.scale(Vi)
    if abs(lam - x) <= near or (f - fx) <= gap * sc:
        return x
    h = 1e-5
    if abs(mom.obj(lam + h, Vi) - mom.obj(lam - h, Vi)) / (2 * h) <= 1e-6 * sc:
        return lam      # the search stops at any stationary point
    raise Violation("%s: lambda %.8g does not minimise the moment distance: local minima %s, objective %.6g vs %.6g (scale %.3g)" % (
        what, lam, ["%.6g" % v for v in loc], f, fx, sc), key)


# ------------------------------------------------------------ filtered regressions
class Reg:
    """(2S)LS of y on Z (instruments H when given) after filtering y and Z by (I - l W)"""

    def __init__(self, y, Z, W, H=None):
        self.y, self.Z, self.W, self.H = y, Z, W, H
        self.n, self.k = Z.shape
        self.Wy, self.WZ = W @ y, W @ Z
        self.P = None
        if H is not None:
            s = np.sqrt((H ** 2).sum(0))
            self.Qh = la.qr(H / s)[0]

    def proj(self, M):
        return M if self.H is None else self.Qh @ (self.Qh.T @ M)

    def fit(self, l):
        r = ref.NS(l=l)
        r.ys, r.Zs = self.y - l * self.Wy, self.Z - l * self.WZ
        r.Zh = self.proj(r.Zs)
        r.b = ref.lsq(r.Zh, r.ys)[0]
        r.u = self.y - self.Z @ r.b
        r.es = r.ys - r.Zs @ r.b
        r.s2 = float((r.es ** 2).sum()) / self.n
        return r

    def varb(self, l):
        return ref.xtxi(self.fit(l).Zh)

    def zlin(self, l):
        """the design, filtered as a whole"""
        return self.Z - l * self.WZ

    def recover(self, b, lo=-B, hi=B, clamp=None):
        """the filter parameter that gives coefficients b -> [(lambda, misfit in standard errors)] (the path may cross itself)"""
        r0 = self.fit(0.0)
        se = np.sqrt(np.diag(r0.s2 * ref.xtxi(r0.Zh))).reshape(-1, 1)
        b = b.reshape(-1, 1)
        use = np.ones(self.k, bool)
        if clamp is not None:
            use[clamp] = False
        f = lambda l: float((((self.fit(l).b - b) / se)[use] ** 2).sum())
        R = lambda l: ((self.fit(l).b - b) / se).ravel()
        for steps in (67, 2500):     # weak instruments: coefficients may pass a pole of the path within a narrow range
            g = np.linspace(lo, hi, steps)
            v = np.array([f(l) for l in g])
            out = []
            for i in range(len(g)):
                if (i == 0 or v[i] <= v[i - 1]) and (i == len(g) - 1 or v[i] <= v[i + 1]):
                    a, c = g[max(0, i - 1)], g[min(len(g) - 1, i + 1)]
                    o = minimize_scalar(f, bounds=(a, c), method="bounded", options={"xatol": 1e-13})
                    out.append(min((o.fun, float(o.x)), (v[i], float(g[i]))))
            # crossings of the coefficient that moves most: the path may pass the same coefficients twice between two grid points
            near = [g] + [np.linspace(x - 1.5 * (g[1] - g[0]), x + 1.5 * (g[1] - g[0]), 90) for e, x in sorted(out)[:2]]
            for h in near:
                h = h[(h >= lo) & (h <= hi)]
                p = np.array([R(l) for l in h])
                j = int(np.argmax(np.ptp(p, axis=0) * use))
                for i in np.nonzero(p[:-1, j] * p[1:, j] < 0)[0]:
                    x = float(brentq(lambda l: float(R(l)[j]), h[i], h[i + 1], xtol=1e-14))
                    out.append((f(x), x))
            if min(out)[0] < 1e-10:
                break
        return [(x, float(np.sqrt(e))) for e, x in sorted(out)]


def any_of(cands, fn):
    """the first candidate that satisfies fn, else the violation of the first one"""
    err = None
    for c in cands:
        try:
            fn(c)
            return c
        except Violation as e:
            err = err or e
    raise err


# ------------------------------------------------------------ published variances
def A1_hom(W, scalar):
    n = W.shape[0]
    WW = W.T @ W
    t = np.trace(WW)
    A = WW - np.eye(n) * t / n
    return A / (1 + (t / n) ** 2) if scalar else A


def A_pair(W, kind):
    if kind == "het":
        WW = W.T @ W
        return WW - np.diag(np.diag(WW)), (W + W.T) / 2
    return A1_hom(W, kind == "hom_sc"), (W + W.T) / 2


def weights_P(H, Zs):
    """P = (H'H/n)^-1 (H'Zs/n) [ (Zs'H/n)(H'H/n)^-1(H'Zs/n) ]^-1"""
    n = H.shape[0]
    Hi = la.inv(H.T @ H / n)
    HZ = H.T @ Zs / n
    return Hi @ HZ @ la.inv(HZ.T @ Hi @ HZ)


def a_vectors(W, As, u, l, H, Zs, filt=True, P=None):
    n = len(u)
    e = u - l * (W @ u)
    P = weights_P(H, Zs) if P is None else P
    a = []
    for A in As:
        al = -(1.0 / n) * Zs.T @ (A + A.T) @ e
        v = H @ P @ al
        if not filt:
            v = la.solve((np.eye(n) - l * W).T, v)
        a.append(v)
    return a, P


def psi_hom(W, As, u, l, a=None):
    n = len(u)
    e = u - l * (W @ u)
    s2, m3, m4 = (e ** 2).mean(), (e ** 3).mean(), (e ** 4).mean()
    V = np.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            Si, Sj = As[i] + As[i].T, As[j] + As[j].T
            di, dj = np.diag(As[i]), np.diag(As[j])
            V[i, j] = s2 ** 2 * np.trace(Si @ Sj) / 2 + (m4 - 3 * s2 ** 2) * (di @ dj)
            if a is not None:
                V[i, j] += s2 * (a[i].T @ a[j]).item() + m3 * (a[i].ravel() @ dj + a[j].ravel() @ di)
    return V / n


def psi_het(W, As, u, l, a=None):
    n = len(u)
    e2 = ((u - l * (W @ u)) ** 2).ravel()
    V = np.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            Si, Sj = As[i] + As[i].T, As[j] + As[j].T
            V[i, j] = np.trace(Si @ np.diag(e2) @ Sj @ np.diag(e2)) / 2
            if a is not None:
                V[i, j] += (a[i].ravel() * e2) @ a[j].ravel()
    return V / n


def omega(mom, l, V, P, Sdd, Sdl, n):
    """variance of (delta, lambda): P, Sdd = var of H'e/sqrt(n), Sdl = cov with the moments"""
    J = mom.jac(l)
    Vi = la.inv(V)
    oLL = la.inv(J.T @ Vi @ J)
    oDD = P.T @ Sdd @ P
    oDL = P.T @ Sdl @ Vi @ J @ oLL
    return np.block([[oDD, oDL], [oDL.T, oLL]]) / n


class RegI(Reg):
    """regimes: the variables are filtered and then interacted (vary: which ones differ by regime)"""

    def __init__(self, y, X, vx, E, ve, lab, W, H=None):
        from . import reg
        self.parts = [(X, W @ X, vx), (E, W @ E, ve)]
        self.inter = lambda M, v: reg.interact(M, v, lab)
        Reg.__init__(self, y, ref.cat(*[self.inter(M, v) for M, _, v in self.parts]), W, H)

    def fit(self, l):
        r = ref.NS(l=l)
        r.ys = self.y - l * self.Wy
        r.Zs = ref.cat(*[self.inter(M - l * WM, v) for M, WM, v in self.parts])
        r.Zh = self.proj(r.Zs)
        r.b = ref.lsq(r.Zh, r.ys)[0]
        r.u = self.y - self.Z @ r.b
        r.es = r.ys - r.Zs @ r.b
        r.s2 = float((r.es ** 2).sum()) / self.n
        return r

"""Independent dense reference implementations (numpy/scipy only, no spreg code)."""
import numpy as np
import numpy.linalg as la
from scipy import stats
from scipy.special import log_ndtr
from .core import Reject


class NS(dict):
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def cat(*cols):
    return np.hstack([c for c in cols if c is not None and c.shape[1] > 0])


def const(X):
    return np.hstack([np.ones((X.shape[0], 1)), X])


def lsq(X, y):
    """least squares via column-equilibrated QR"""
    s = np.sqrt((X ** 2).sum(0))
    Q, R = la.qr(X / s)
    b = la.solve(R, Q.T @ y)
    return b / s.reshape(-1, 1), s, R


def xtxi(X):
    s = np.sqrt((X ** 2).sum(0))
    R = la.qr(X / s)[1]
    Ri = la.inv(R)
    return (Ri @ Ri.T) / np.outer(s, s)


def cond(X):
    s = np.sqrt((X ** 2).sum(0))
    if not np.all(np.isfinite(s)) or np.any(s == 0):
        return np.inf
    return la.cond(X / s)


def ols(y, X, sig2n_k=True):
    n, k = X.shape
    b, _, _ = lsq(X, y)
    u = y - X @ b
    utu = float((u ** 2).sum())
    r = NS(n=n, k=k, betas=b, u=u, predy=X @ b, utu=utu, sig2n=utu / n, sig2n_k=utu / (n - k), xtxi=xtxi(X))
    r.sig2 = r.sig2n_k if sig2n_k else r.sig2n
    r.vm = r.sig2 * r.xtxi
    tss = float(((y - y.mean()) ** 2).sum())
    r.r2 = 1 - utu / tss
    r.ar2 = 1 - (utu / (n - k)) / (tss / (n - 1))
    ess = float(((r.predy - y.mean()) ** 2).sum())
    r.f = (ess / (k - 1)) / (utu / (n - k)) if k > 1 else np.nan
    r.logl = float(stats.norm.logpdf(u, scale=np.sqrt(utu / n)).sum())
    r.aic = 2 * k - 2 * r.logl
    r.sc = k * np.log(n) - 2 * r.logl
    return r


def white_vm(X, u, A, dfc=False):
    """A @ (sum_i u_i^2 x_i x_i') @ A', x_i rows of X"""
    n, k = X.shape
    S = np.zeros((k, k))
    for i in range(n):
        S += float(u[i, 0]) ** 2 * np.outer(X[i], X[i])
    if dfc:
        S = S * n / (n - dfc)
    return A @ S @ A.T


def hac_vm(X, u, K, A):
    n, k = X.shape
    S = np.zeros((k, k))
    for i in range(n):
        for j in range(n):
            if K[i, j] != 0:
                S += K[i, j] * float(u[i, 0]) * float(u[j, 0]) * np.outer(X[i], X[j])
    return A @ S @ A.T


def tsls(y, X, Ye, Q, robust=None, K=None, sig2n_k=False):
    """Z=[X,Ye], H=[X,Q]; 2SLS by first/second stage projections."""
    Z, H = cat(X, Ye), cat(X, Q)
    n, k = Z.shape
    s = np.sqrt((H ** 2).sum(0))
    Qh = la.qr(H / s)[0]
    Zh = Qh @ (Qh.T @ Z)
    b = lsq(Zh, y)[0]
    u = y - Z @ b
    utu = float((u ** 2).sum())
    V = xtxi(Zh)
    r = NS(n=n, k=k, betas=b, u=u, predy=Z @ b, utu=utu, sig2n=utu / n, sig2n_k=utu / (n - k), varb=V,
           Z=Z, H=H, Zh=Zh)
    r.sig2 = r.sig2n_k if sig2n_k else r.sig2n
    if robust == "white":
        r.vm = white_vm(Zh, u, V, dfc=k if sig2n_k else False)
    elif robust == "hac":
        r.vm = hac_vm(Zh, u, K, V)
    else:
        r.vm = r.sig2 * V
    if robust == "ogmm":
        # efficient GMM with the White moment covariance from 2SLS residuals
        S = white_vm(H, u, np.eye(H.shape[1]))
        Si = la.inv(S)
        G = Z.T @ H
        r.vm = la.inv(G @ Si @ G.T)
        r.betas = r.vm @ (G @ Si @ (H.T @ y))
        r.predy = Z @ r.betas
        r.u = y - r.predy
        r.utu = float((r.u ** 2).sum())
        r.sig2n, r.sig2n_k = r.utu / n, r.utu / (n - k)
        r.sig2 = r.sig2n_k if sig2n_k else r.sig2n
    return r


def pr2(y, predy):
    return float(np.corrcoef(y.ravel(), predy.ravel())[0, 1] ** 2)


def lagpow(W, X, p, start=1):
    """[W^start X, ..., W^(start+p-1) X]"""
    out, cur = [], X
    for _ in range(start - 1):
        cur = W @ cur
    for _ in range(p):
        cur = W @ cur
        out.append(cur)
    return np.hstack(out) if out else np.zeros((X.shape[0], 0))


# ------------------------------------------------------------- diagnostics
def dedupe(A):
    """drop exactly-equal repeated columns (first kept)"""
    keep = []
    for j in range(A.shape[1]):
        if not any(np.array_equal(A[:, i], A[:, j]) for i in keep):
            keep.append(j)
    return A[:, keep]


def jarque_bera(u):
    n = u.size
    u = u.ravel()
    # moments about zero, residuals have zero mean when there is a constant
    m2, m3, m4 = (u ** 2).mean(), (u ** 3).mean(), (u ** 4).mean()
    return n * (m3 ** 2 / m2 ** 3 / 6 + (m4 / m2 ** 2 - 3) ** 2 / 24)


def breusch_pagan(u, X):
    Z = dedupe(X ** 2)
    g = u ** 2 / (u ** 2).mean() - 1
    fit = Z @ lsq(Z, g)[0]
    return 0.5 * float((g * fit).sum()), Z.shape[1] - 1, cond(Z)


def koenker_bassett(u, X):
    Z = dedupe(X ** 2)
    g = u ** 2 - (u ** 2).mean()
    fit = Z @ lsq(Z, g)[0]
    return float((g * fit).sum()) / float((g ** 2).mean()), Z.shape[1] - 1, cond(Z)


def white_test(u, X):
    n, k = X.shape
    cols = [X[:, i] for i in range(k)]
    for i in range(k):
        for j in range(i, k):
            cols.append(X[:, i] * X[:, j])
    A = np.array([c for c in cols if c.max() != c.min()]).T
    A = const(dedupe(A))
    e = u ** 2
    fit = A @ lsq(A, e)[0]
    r2 = 1 - float(((e - fit) ** 2).sum()) / float(((e - e.mean()) ** 2).sum())
    return n * r2, A.shape[1] - 1, cond(A)


def lm_tests(y, X, W):
    """Anselin (1988) / Anselin-Bera-Florax-Yoon (1996) / Koley-Bera tests, from
    residual-maker algebra rather than from spreg's cached pieces."""
    n, k = X.shape
    r = ols(y, X)
    u, s2 = r.u, r.sig2n
    M = np.eye(n) - X @ r.xtxi @ X.T
    T = float(np.trace(W @ W + W.T @ W))
    Wxb = W @ r.predy
    D = float((Wxb.T @ M @ Wxb).item() / s2) + T     # n*J
    de = float((u.T @ W @ u).item()) / s2
    dl = float((u.T @ W @ y).item()) / s2
    o = NS()
    o.lme, o.lml = de ** 2 / T, dl ** 2 / D
    o.rlme = (de - T / D * dl) ** 2 / (T * (1 - T / D))
    o.rlml = (dl - de) ** 2 / (D - T)
    o.sarma = (dl - de) ** 2 / (D - T) + de ** 2 / T
    X0 = X[:, 1:]
    WX = W @ X0
    s = (WX.T @ u) / s2
    I = (WX.T @ M @ WX) / s2
    o.lmwx = float((s.T @ la.solve(I, s)).item())
    sc = np.vstack([[[dl]], s])
    B = np.hstack([Wxb, WX])
    J = (B.T @ M @ B) / s2
    J[0, 0] += T
    o.lmspdurbin = float((sc.T @ la.solve(J, sc)).item())
    o.cond = cond(M @ WX)
    o.rlmwx = o.lmspdurbin - o.lml
    o.rlmdurlag = o.lmspdurbin - o.lmwx
    o.lmslxerr = o.lme + o.lmwx
    o.k = k
    # Moran's I moments (exact under normality): ratio of quadratic forms
    S0 = W.sum()
    U = (W + W.T) / 2
    MU = M @ U
    tr1, tr2 = np.trace(MU), np.trace(MU @ MU)
    o.I = n / S0 * float((u.T @ W @ u).item()) / r.utu
    o.EI = n / S0 * tr1 / (n - k)
    e2 = (n / S0) ** 2 * (2 * tr2 + tr1 ** 2) / ((n - k) * (n - k + 2))
    o.VI = e2 - o.EI ** 2
    o.zI = (o.I - o.EI) / np.sqrt(o.VI)
    return o


def kernel_dense(kw):
    """dense n x n matrix of a libpysal Kernel in id_order"""
    n = kw.n
    K = np.zeros((n, n))
    pos = {i: p for p, i in enumerate(kw.id_order)}
    for i in kw.id_order:
        for j, v in zip(kw.neighbors[i], kw.weights[i]):
            K[pos[i], pos[j]] = v
    return K


def gchow(b, vm, R, q=None):
    d = R @ b - (0 if q is None else q)
    return float((d.T @ la.solve(R @ vm @ R.T, d)).item())


def specrad(W):
    return float(np.abs(la.eigvals(W)).max())


def expandable(W, rho):
    """|rho|>=1 is flagged by spreg; below that the Leontief series must converge
    (with unstandardised weights it need not: spreg documents and raises that)."""
    return abs(rho) >= 1 or abs(rho) * specrad(W) < 0.999


def probit_mle(y, X):
    """damped Newton on the log-concave likelihood"""
    D = np.sqrt((X ** 2).sum(0))
    A = X / D
    q = 2 * y - 1
    b = np.zeros((X.shape[1], 1))
    ll = lambda b: log_ndtr(q * (A @ b)).sum()
    for _ in range(200):
        xb = A @ b
        lam = q * np.exp(stats.norm.logpdf(xb) - log_ndtr(q * xb))
        g = A.T @ lam
        H = (A * (lam * (lam + xb))).T @ A
        if np.linalg.cond(H) > 1e9:
            raise Reject("nearly separated")
        d = np.linalg.solve(H, g)
        t = 1.0
        while ll(b + t * d) < ll(b) - 1e-12 and t > 1e-6:
            t /= 2
        b = b + t * d
        if (g.T @ d).item() < 1e-18:
            break
    if np.abs(A @ b).max() > 7:
        raise Reject("nearly separated")
    return b / D.reshape(-1, 1)

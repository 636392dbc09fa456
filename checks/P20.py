"""Spatial panels: pooled, fixed- and random-effects error and lag models, ML and GMM."""
import numpy as np
import numpy.linalg as la
from scipy.optimize import minimize
from hypothesis import strategies as st
from vlib import gen, ref, ml, gmm, panel, reg
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *
from checks import P08

TITLE = "Spatial panels"
RULE = ("N x T x k panels (serially correlated, onset and dummy regressors, unit effects) x nine weights families, five data layouts, SLX orders and selections, for eight current and five deprecated classes; "
        "non-trivial = optimum of the likelihood (or moments) located independently and every reported quantity recomputed at the reported parameters")
ASSUMPTIONS = ["weights with spectral radius at most one", "equilibrated condition of the (filtered, demeaned) regressors below 1e4",
               "ML_ErrorRE may stop at a zero unit variance, a stationary point in the ratio of standard deviations it searches over: there lambda alone is judged",
               "deprecated Panel_RE_Error: symmetric weights without repeated eigenvalues only (its likelihood is stated for these)"]


def good(M, lim=1e4):
    if M.shape[1] > M.shape[0] / 4 or ref.cond(M) > lim:
        raise Reject("ill-conditioned")
    return M


class PLag(ml.Lag):
    def __init__(self, y, X, W, T):
        ml.Lag.__init__(self, y, X, np.kron(np.eye(T), W))
        self.w1, self.T = W, T

    def jac(self, p):
        return self.T * la.slogdet(np.eye(len(self.w1)) - p * self.w1)[1]


class PErr(ml.Err):
    def __init__(self, y, X, W, T):
        ml.Err.__init__(self, y, X, np.kron(np.eye(T), W))
        self.w1, self.T = W, T
    jac = PLag.jac


def common(m, c, s, names, yn, extra, nt=True):
    same("n", m.n, c.N * c.T if nt else c.N)
    same("t", m.t, c.T)
    same("name_x", [v.strip() for v in m.name_x], names + extra)
    same("name_y", m.name_y, yn)


def effects(m, c, b, key=None):
    e = (c.y - c.XL @ b).reshape(c.T, c.N).mean(0)
    sc = np.abs(c.y).max() + np.abs(c.XL * b.ravel()).max()
    eq("fixed effects", m.mu_i, e, rtol=1e-6, scale=sc)
    eq("mean of the fixed effects", m.mean_mu_i, e.mean(), rtol=1e-6, atol=1e-6 * sc)


def err_common(m, c, s, D, r, noise, ll=0.0, lam=None):
    ys = np.abs(D.y).max() + np.abs(D.X * r.b.ravel()).max()
    se = np.sqrt(np.diag(r.vm)).reshape(-1, 1)
    nt, k = D.n, D.k
    eq_coef("betas", m.betas, np.vstack([r.b, [[lam]]]), se, rtol=1e-6)
    eq("lam", m.lam, m.betas[-1], rtol=0)
    eq("u", m.u, r.u, rtol=1e-6, scale=ys)
    eq("predy", m.predy, D.y - r.u, rtol=1e-6, scale=ys)
    eq("e_filtered", m.e_filtered, r.e, rtol=1e-6, scale=ys)
    eq("sig2", m.sig2, r.s2, rtol=1e-6)
    eq("logll", m.logll, r.ll - ll, rtol=1e-8, atol=1e-6 + noise)
    eq("aic", m.aic, 2 * k - 2 * (r.ll - ll), rtol=1e-7, atol=1e-5 + 2 * noise)
    eq("schwarz", m.schwarz, k * np.log(nt) - 2 * (r.ll - ll), rtol=1e-7, atol=1e-5 + 2 * noise)
    eq("y", m.y, D.y, rtol=1e-9, scale=ys)
    eq("x", m.x, D.X, rtol=1e-9)
    if 1 - abs(lam) > 1e-4:
        eq_vm("vm", m.vm, r.vm, rtol=1e-5)
        eq_vm("vm1", m.vm1, r.vm1, rtol=1e-5)


def err_noise(D, lam):
    ysl, Xl = D.y - lam * D.Wy, D.fit(lam)[2]
    return D.n * 2e-15 * ref.cond(good(Xl)) ** 2 * float((ysl ** 2).sum()) / (D.n * D.s2(lam))


def lag_common(m, c, s, D, r, rho, extra=(), ll=0.0, vm=True):
    ys = np.abs(D.y).max() + np.abs(D.X * r.b.ravel()).max()
    se = np.sqrt(np.diag(r.vm)).reshape(-1, 1)
    nt, k = D.n, D.k
    sex = np.vstack([se] + [[[1.0]] for e in extra])
    eq_coef("betas", m.betas, np.vstack([r.b, [[rho]]] + [[[e]] for e in extra]), sex, rtol=1e-6)
    eq("u", m.u, r.u, rtol=1e-7, scale=ys)
    eq("predy", m.predy, D.y - r.u, rtol=1e-7, scale=ys)
    eq("sig2", m.sig2, r.s2, rtol=1e-6)
    eq("logll", m.logll, r.ll - ll, rtol=1e-8, atol=1e-6)
    eq("aic", m.aic, 2 * (k + 1) - 2 * (r.ll - ll), rtol=1e-7, atol=1e-5)
    eq("schwarz", m.schwarz, (k + 1) * np.log(nt) - 2 * (r.ll - ll), rtol=1e-7, atol=1e-5)
    tail = 1e-6 / max(1e-3, 1 - abs(rho))
    sc = np.abs(r.ph).max() + ys
    eq("predy_e", m.predy_e, r.ph, rtol=1e-6, scale=sc, atol=tail)
    eq("e_pred", m.e_pred, D.y - r.ph, rtol=1e-6, scale=sc, atol=tail)
    eq("y", m.y, D.y, rtol=1e-9, scale=ys)
    eq("x", m.x, D.X, rtol=1e-9, scale=np.abs(c.X).max())
    if vm and 1 - abs(rho) > 1e-4:
        eq_vm("vm", m.vm, r.vm, rtol=1e-5)
        eq_vm("vm1", m.vm1, r.vm1, rtol=1e-5)


def strat(**over):
    sp = panel.spec(transforms=("r", "r", "s"))
    sp.update(over)
    return lambda: st.fixed_dictionaries(sp)


SMALL = dict(N=st.integers(12, 24), T=st.sampled_from([2, 3, 3, 4, 7]), k=st.integers(1, 2))


# ------------------------------------------------------------------ fixed effects, pooled
def run_errfe(s):
    c = panel.build(s)
    X, y = good(panel.demean(c.XL, c.N)), panel.demean(c.y, c.N)
    m, nm, yn = fit(s, c, "ML_ErrorFE")
    common(m, c, s, nm, yn, ["lambda"])
    D = PErr(y, X, c.W, c.T)
    lam = float(np.squeeze(m.lam))
    noise = err_noise(D, lam)
    _, _, loc = P08.check_opt(m, lam, D, "lambda", noise)
    r = D.at(lam)
    same("k", m.k, X.shape[1])
    err_common(m, c, s, D, r, noise, lam=lam)
    effects(m, c, r.b)
    inference(m, "z")
    table(m, nm + ["lambda"])
    return {"labels": [s["lay"], "slx%d" % s["slx"], "modes%d" % len(loc)]}


def fit(s, c, cls, **kw):
    with sut(cls):
        return panel.call(s, c, cls, **kw)


def run_lagfe(s):
    c = panel.build(s, "lag")
    X, y = good(panel.demean(c.XL, c.N)), panel.demean(c.y, c.N)
    m, nm, yn = fit(s, c, "ML_LagFE", spat_impacts="simple" if s["w"]["t"] == "r" else None)
    common(m, c, s, nm, yn, ["W_" + yn])
    D = PLag(y, X, c.W, c.T)
    rho = float(np.squeeze(m.rho))
    _, _, loc = P08.check_opt(m, rho, D, "rho", lim=0.99)
    r = D.at(rho)
    same("k", m.k, X.shape[1] + 1)
    lag_common(m, c, s, D, r, rho)
    inference(m, "z")
    table(m, nm + ["W_" + yn])
    if s["w"]["t"] == "r":
        eq("simple multipliers", m.sp_multipliers["simple"], [1.0, 1 / (1 - rho) - 1, 1 / (1 - rho)], rtol=1e-9)
    e = (c.y - rho * c.WT @ c.y - c.XL @ r.b).reshape(c.T, c.N).mean(0)
    sc = np.abs(c.y).max() + np.abs(c.XL * r.b.ravel()).max()
    try:
        eq("fixed effects", m.mu_i, e, rtol=1e-6, scale=sc)
        eq("mean of the fixed effects", m.mean_mu_i, e.mean(), rtol=1e-6, atol=1e-6 * sc)
        known = []
    except Violation as v:
        effects(m, c, r.b)
        known = [("lagfe-mu", str(v))]
    return {"labels": [s["lay"], "slx%d" % s["slx"], "modes%d" % len(loc)], "known": known}


def run_pooled(s):
    c = panel.build(s)
    X = good(ref.const(c.XL))
    m, nm, yn = fit(s, c, "ML_ErrorPooled", nonspat_diag=s["fe"])
    common(m, c, s, ["CONSTANT"] + nm, yn, ["lambda"])
    D = PErr(c.y, X, c.W, c.T)
    lam = float(np.squeeze(m.lam))
    noise = err_noise(D, lam)
    _, _, loc = P08.check_opt(m, lam, D, "lambda", noise)
    r = D.at(lam)
    same("k", m.k, X.shape[1])
    err_common(m, c, s, D, r, noise, lam=lam)
    eq("pr2", m.pr2, ref.pr2(c.y, c.y - r.u), rtol=1e-4, atol=1e-6)
    inference(m, "z")
    table(m, ["CONSTANT"] + nm + ["lambda"])
    return {"labels": [s["lay"], "slx%d" % s["slx"], "modes%d" % len(loc)]}


def run_gmpooled(s):
    import spreg
    c = panel.build(s)
    X = good(ref.const(c.XL), 300)
    if ref.cond(gmm.Reg(c.y, X, c.WT).fit(0.0).Zh) > 300:
        raise Reject("ill-conditioned")
    w = gen.to_w(c.WT)
    try:
        h = spreg.GM_Error_Het(c.y, c.XL, w, max_iter=s["it"], step1c=s["fe"])
    except Exception:
        raise Reject("the cross-section estimator fails on the stacked data (judged by P12)")
    m, nm, yn = fit(s, c, "GM_ErrorPooled", max_iter=s["it"], step1c=s["fe"], nonspat_diag=s["vm"])
    common(m, c, s, ["CONSTANT"] + nm, yn, ["lambda"])
    same("k", m.k, X.shape[1])
    se = np.sqrt(np.abs(np.diag(arr(h.vm)))).reshape(-1, 1)
    eq_coef("betas against the stacked cross section", m.betas, h.betas, se, rtol=1e-6)
    eq_vm("vm against the stacked cross section", m.vm, h.vm, rtol=1e-5)
    ys = np.abs(c.y).max()
    for a in ("u", "predy", "e_filtered"):
        eq(a + " against the stacked cross section", getattr(m, a), getattr(h, a), rtol=1e-6, scale=ys)
    same("iterations", m.iteration, h.iteration)
    inference(m, "z")
    table(m, ["CONSTANT"] + nm + ["lambda"])
    return {"labels": [s["lay"], "it%d" % s["it"]]}


# ------------------------------------------------------------------ random-effects lag
class RELag:
    """y* = rho W y* + X* b + e, z* = z - (1 - phi) mean over time, phi = sigma_e / sigma_1"""

    def __init__(self, c, X):
        self.c, self.X = c, X
        self.n = c.N * c.T

    def cond(self, phi):
        c = self.c
        return PLag(panel.demean(c.y, c.N, phi), panel.demean(self.X, c.N, phi), c.W, c.T)

    def ll(self, rho, phi):
        return self.cond(phi).ll(rho) + self.c.N / 2 * np.log(phi ** 2)

    def info(self, r, D, rho, phi, code=False):
        """information in the order beta, rho, phi, sigma2"""
        N, T, k, s2 = self.c.N, self.c.T, D.k, r.s2
        W = self.c.W
        G = W @ la.inv(np.eye(N) - rho * W)
        t1, t2, t3 = np.trace(G), np.trace(G @ G), np.trace(G.T @ G)
        gx = np.kron(np.eye(T), G) @ (D.X @ r.b)
        I = np.zeros((k + 3, k + 3))
        I[:k, :k] = D.X.T @ D.X / s2
        I[:k, k] = I[k, :k] = (D.X.T @ gx).ravel() / s2
        I[k, k] = T * (t2 + t3) + float((gx ** 2).sum()) / s2
        I[k, k + 2] = I[k + 2, k] = T * t1 / s2
        I[k + 2, k + 2] = N * T / (2 * s2 ** 2)
        if code:
            I[k, k + 1] = I[k + 1, k] = -t1 / s2
            I[k + 1, k + 1] = N * (1 + 1 / phi ** 2)
            I[k + 2, k + 1], I[k + 1, k + 2] = -N / s2, -N / s2 ** 2
        else:
            # e = Q0 v + phi Q1 v: variance s2 (Q0 + Q1 / phi^2), the derivative in phi loads on the N unit means
            I[k, k + 1] = I[k + 1, k] = -2 * t1 / phi
            I[k + 1, k + 1] = 2 * N / phi ** 2
            I[k + 2, k + 1] = I[k + 1, k + 2] = -N / (phi * s2)
        return I


def binv(I):
    d = 1 / np.sqrt(np.abs(np.diag(I)))
    return la.inv(I * np.outer(d, d)) * np.outer(d, d)


def run_lagre(s):
    c = panel.build(s, "lag")
    X = good(ref.const(c.XL))
    cls = "Panel_RE_Lag" if s["old"] else "ML_LagRE"
    if s["old"]:
        s = dict(s, slx=0)
        c = panel.build(s, "lag")
        X = good(ref.const(c.XL))
    kw = {} if s["old"] else dict(spat_impacts="simple" if s["w"]["t"] == "r" else None)
    m, nm, yn = fit(s, c, cls, **kw)
    common(m, c, s, ["CONSTANT"] + nm, yn, ["W_" + yn, "phi"])
    same("k", m.k, X.shape[1] + 1)
    rho, phi = float(np.squeeze(m.rho)), float(np.squeeze(m.phi))
    M = RELag(c, X)
    lim = 1.0 if s["old"] else 0.99
    ok(0 < phi < 1, "phi = %r outside (0, 1)" % phi)
    ok(-lim <= rho <= lim, "rho = %r outside its bounds" % rho)
    D = M.cond(phi)
    if ref.cond(D.X) > 1e4:
        raise Reject("ill-conditioned")
    # rho maximises the likelihood given phi, and phi given rho: a coordinate-wise maximum
    P08.check_opt(m, rho, D, "rho", lim=lim)
    l0 = M.ll(rho, phi)
    f = lambda v: -M.ll(min(lim, max(-lim, v[0])), min(1 - 1e-8, max(1e-8, v[1])))
    starts = [(rho, phi), (rho, min(0.999, phi + 0.02)), (rho, max(1e-4, phi - 0.02))]
    best = min((minimize(f, x0, method="Nelder-Mead", options={"xatol": 1e-7, "fatol": 1e-10, "maxiter": 400}) for x0 in starts), key=lambda o: o.fun)
    gap = -best.fun - l0
    tight = 0.02 < phi < 0.98 and abs(rho) < 0.98       # next to the bounds the search stops short of a steep likelihood
    ok(gap <= (1e-8 if tight else 1e-5) * (1 + abs(l0)), "rho=%.6f, phi=%.6f has log-likelihood %.8f but rho=%.6f, phi=%.6f has %.8f" % (rho, phi, l0, best.x[0], best.x[1], -best.fun))
    r = D.at(rho)
    r.ll = l0
    lost = c.N / 2 * np.log(phi ** 2) if s["old"] else 0.0
    lag_common(m, c, s, D, r, rho, extra=[phi], ll=lost, vm=False)
    if np.all(np.diag(arr(m.vm)) > 0):      # lagre-vm may leave negative variances
        inference(m, "z")
        if not s["old"]:
            table(m, ["CONSTANT"] + nm + ["W_" + yn, "phi"])
    if not s["old"]:
        if s["w"]["t"] == "r":
            eq("simple multipliers", m.sp_multipliers["simple"], [1.0, 1 / (1 - rho) - 1, 1 / (1 - rho)], rtol=1e-9)
    lbl, known = [s["lay"], cls, "slx%d" % s["slx"]], []
    if 1 - abs(rho) > 1e-4 and 1e-3 < phi:
        I = M.info(r, D, rho, phi)
        V = binv(I)
        k = D.k
        eq_vm("varb", m.varb, binv(I[:k + 1, :k + 1]), rtol=1e-5)
        try:
            eq_vm("vm1", m.vm1, V, rtol=1e-5)
            eq_vm("vm", m.vm, V[:-1, :-1], rtol=1e-5)
        except Violation as v:
            C = la.inv(M.info(r, D, rho, phi, code=True))
            d = np.sqrt(np.abs(np.diag(C)))
            eq("vm1", m.vm1, C, rtol=1e-5 * la.cond(C / np.outer(d, d)), scale=np.outer(d, d))
            eq("vm and vm1", m.vm, arr(m.vm1)[:-1, :-1], rtol=0)
            known = [("lagre-vm", str(v))]
    return {"labels": lbl, "known": known}


# ------------------------------------------------------------------ random-effects error
class REErr:
    """u = (1 x mu) + e, e = lam W e + v, ph = sigma_mu^2 / sigma_v^2"""

    def __init__(self, c, X, W):
        self.c, self.X, self.W = c, X, W
        T, N, k = c.T, c.N, X.shape[1]
        self.n, self.k = N * T, k
        self.Z = np.concatenate([X, c.y], axis=1)
        self.m = self.Z.reshape(T, N, k + 1).mean(0)
        self.d = self.Z.reshape(T, N, k + 1) - self.m

    def parts(self, lam, ph):
        """whitened data: B times the deviations, root of the between variance times the means"""
        N, T = self.c.N, self.c.T
        B = np.eye(N) - lam * self.W
        om = T * ph * np.eye(N) + la.inv(B.T @ B)
        L = la.cholesky(om)
        A = np.vstack([(B @ self.d[t]) for t in range(T)] + [np.sqrt(T) * la.solve(L, self.m)])
        ld = 2 * np.log(np.diag(L)).sum()
        lb = la.slogdet(B)[1]
        return A[:, :-1], A[:, -1:], ld, lb, om, B

    def at(self, lam, ph):
        Xs, ys, ld, lb, om, B = self.parts(lam, ph)
        r = ref.NS()
        r.b = ref.lsq(Xs, ys)[0]
        r.e = ys - Xs @ r.b
        r.s2 = float((r.e ** 2).sum()) / self.n
        r.ll = -self.n / 2 * (np.log(2 * np.pi) + 1 + np.log(r.s2)) - ld / 2 + (self.c.T - 1) * lb
        r.Xs, r.om, r.B = Xs, om, B
        r.u = self.c.y - self.X @ r.b
        r.varb = r.s2 * ref.xtxi(Xs)
        return r

    def ll(self, lam, ph):
        return self.at(lam, ph).ll

    # the likelihood with the eigenvalues and eigenvectors of W in place of those of (B'B)^-1
    def eig_ll(self, lam, ph, ev=None):
        N, T = self.c.N, self.c.T
        if ev is None:
            if not hasattr(self, "ev"):
                self.ev = la.eig(self.W)
            ev = self.ev
        w, V = ev
        cv = T * ph + 1 / (1 - lam * w) ** 2
        P = np.diag(cv ** -0.5) @ V.T
        B = np.eye(N) - lam * self.W
        Zs = np.vstack([(B @ self.d[t] + P @ self.m) for t in range(T)])
        Xs, ys = Zs[:, :-1], Zs[:, -1:]
        a = Xs.T @ ys
        ee = (ys.T @ ys - a.T @ la.inv(Xs.T @ Xs) @ a)[0, 0]
        val = self.n / 2 * np.log(ee / self.n) + 0.5 * np.log(1 + T * ph * (1 - lam * w) ** 2).sum() - T * np.log(1 - lam * w).sum()
        return float(np.real(-val - self.n / 2 * (np.log(2 * np.pi) + 1)))

    def info(self, r, lam, ph, code=False):
        """information for lam, sigma_mu^2, sigma_v^2"""
        N, T, s2 = self.c.N, self.c.T, r.s2
        W, B = self.W, r.B
        C = la.inv(B.T @ B)
        if code:
            g = (W.T @ B + B.T @ W) @ C
            vi = la.inv(T * np.sqrt(ph) * np.eye(N) + C)
            sg = vi @ C
            t = [np.trace(M) for M in (g, vi, sg, sg @ g, sg @ vi, sg @ g @ vi, sg @ g @ sg)]
            a = (T - 1) / 2 * t[0] ** 2 + t[3] ** 2 / 2
            b = T / (2 * s2) * t[5]
            d = (T - 1) / (2 * s2) * t[0] + t[6] / (2 * s2)
            e, f = T ** 2 / (2 * s2 ** 2) * t[1] ** 2, T / (2 * s2 ** 2) * t[4]
            h = ((T - 1) * N + t[2] ** 2) / (2 * s2 ** 2)
            return np.array([[a, b, d], [b, e, f], [d, f, h]])
        dC = C @ (W.T @ B + B.T @ W) @ C
        O, I0 = np.eye(N), np.zeros((N, N))
        smu = ph * s2
        # within block (T - 1 copies): s2 C; between block: T smu I + s2 C
        Vw, Vb = s2 * C, T * smu * O + s2 * C
        dw = [s2 * dC, I0, C]
        db = [s2 * dC, T * O, C]
        iw, ib = la.inv(Vw), la.inv(Vb)
        I = np.zeros((3, 3))
        for i in range(3):
            for j in range(3):
                I[i, j] = 0.5 * ((T - 1) * np.trace(iw @ dw[i] @ iw @ dw[j]) + np.trace(ib @ db[i] @ ib @ db[j]))
        return I


def polish(f, lam, phi):
    """best local improvement of f from the reported point (phi as a standard-deviation ratio)"""
    if phi < 0.02:    # in the ratio of standard deviations the likelihood is stationary at zero: the search may stop there
        g = np.linspace(max(-0.999, lam - 0.2), min(0.999, lam + 0.2), 41)
        return max(f(x, phi ** 2) for x in g)
    g = lambda v: -f(min(0.999, max(-0.999, v[0])), max(1e-8, v[1]) ** 2)
    o = [minimize(g, x0, method="Nelder-Mead", options={"xatol": 1e-6, "fatol": 1e-9, "maxiter": 300})
         for x0 in [(lam, phi), (lam + (0.05 if lam < 0 else -0.05), phi * 1.1 + 0.05)]]
    return max(-x.fun for x in o)


def run_errre(s):
    c = panel.build(s)
    if s["old"]:
        s = dict(s, slx=0)
        c = panel.build(s)
    X = good(ref.const(c.XL))
    W = c.W
    if s["old"]:
        ev = np.sort(la.eigvals(W).real)
        if np.abs(W - W.T).max() > 1e-12 or np.diff(ev).min() < 1e-6:
            raise Reject("weights outside the domain of the deprecated class")
    cls = "Panel_RE_Error" if s["old"] else "ML_ErrorRE"
    m, nm, yn = fit(s, c, cls)
    common(m, c, s, ["CONSTANT"] + nm, yn, ["lambda", "sig2_u" if s["old"] else "sigma2_u"])
    same("k", m.k, X.shape[1])
    M = REErr(c, X, W)
    lam = float(np.squeeze(m.lam))
    ph = float(np.squeeze(m.phi))
    if s["old"]:
        ph = ph ** 2
    ok(-1 <= lam <= 1 and ph >= 0, "lambda=%r, phi=%r" % (lam, ph))
    r = M.at(lam, ph)
    if ref.cond(r.Xs) > 1e3:
        raise Reject("ill-conditioned")
    lbl = [s["lay"], cls, "slx%d" % s["slx"], "phi>0" if ph > 1e-6 else "phi=0"]
    tol = 2e-5 * (1 + abs(r.ll))
    keys = []
    best = polish(M.ll, lam, np.sqrt(ph))
    if best - r.ll > tol or abs(r.ll - float(np.real(m.logll)) - (0 if not s["old"] else M.n / 2 * np.log(M.n))) > 1e-5 * (1 + abs(r.ll)):
        err = "lambda=%.6f, phi=%.6f has log-likelihood %.8f (reported %s), %.8f can be attained nearby" % (lam, ph, r.ll, m.logll, best)
        sep = la.eig(W)
        ev = sep[0]
        ortho = np.abs(W - W.T).max() < 1e-12 and np.abs(sep[1].T @ sep[1] - np.eye(c.N)).max() < 1e-6
        if ortho or s["old"]:
            raise Violation(err)
        if not np.iscomplexobj(ev):
            le = M.eig_ll(lam, ph)
            eq("logll of the eigenvector form", np.real(m.logll), le, rtol=1e-8, atol=1e-5)
            be = polish(M.eig_ll, lam, np.sqrt(ph))
            ok(be - le <= tol, "the eigenvector form of the likelihood is %.8f at the estimate, %.8f nearby" % (le, be))
        keys.append(("errorre-lik", err))
    ys = np.abs(c.y).max() + np.abs(X * r.b.ravel()).max()
    se = np.sqrt(np.diag(r.varb)).reshape(-1, 1)
    b = np.vstack([r.b, [[lam]], [[ph * r.s2]]])
    eq_coef("betas", m.betas, b, np.vstack([se, [[1.0]], [[r.s2]]]), rtol=1e-6)
    eq("u", m.u, r.u, rtol=1e-6, scale=ys)
    eq("predy", m.predy, c.y - r.u, rtol=1e-6, scale=ys)
    eq("sig2", m.sig2, r.s2, rtol=1e-6)
    eq("sig2_u", m.sig2_u, ph * r.s2, rtol=1e-6)
    eq("sum of squares of e_filtered", float((arr(m.e_filtered) ** 2).sum()), r.s2 * M.n, rtol=1e-6)
    eq("aic", np.real(m.aic), 2 * m.k - 2 * np.real(m.logll), rtol=1e-9)
    eq("schwarz", np.real(m.schwarz), m.k * np.log(M.n) - 2 * np.real(m.logll), rtol=1e-9)
    eq_vm("varb", m.varb, r.varb, rtol=1e-5)
    eq_vm("vm of the coefficients", arr(m.vm)[:-2, :-2], r.varb, rtol=1e-5)
    eq("cov of coefficients and spatial parameters", arr(m.vm)[:-2, -2:], np.zeros((m.k, 2)))
    if np.all(np.diag(arr(m.vm)) > 0):      # errorre-vm may leave negative variances
        inference(m, "z")
        if not s["old"]:
            table(m, ["CONSTANT"] + nm + ["lambda", "sigma2_u"])
    if ph > 1e-6 and 1 - abs(lam) > 2e-3:
        V = binv(M.info(r, lam, ph))[:2, :2]
        try:
            eq_vm("vm of lambda and sigma2_u", arr(m.vm)[-2:, -2:], V, rtol=1e-5)
        except Violation as v:
            p2 = ph ** 2 if s["old"] else ph
            # the deprecated class divides by phi, the ratio of standard deviations, as does the current one
            I = M.info(r, lam, ph, code=True)
            C = binv(I)
            d = np.sqrt(np.abs(np.diag(C)))
            if la.cond(C / np.outer(d, d)) < 1e8:
                eq("vm of lambda and sigma2_u", arr(m.vm)[-2:, -2:], C[:2, :2], rtol=1e-5, scale=np.outer(d, d)[:2, :2])
            keys.append(("errorre-vm", str(v)))
    return {"labels": lbl, "known": keys}


# ------------------------------------------------------------------ KKP moments
class KKP:
    """three within and three between moments of the OLS residuals"""

    def __init__(self, c, u):
        N, T, W = c.N, c.T, c.W
        U = u.reshape(T, N)
        A, B, C = U, U @ W.T, U @ W.T @ W.T
        mean = lambda M: M.mean(0)
        tr = np.trace(W.T @ W)
        self.blocks = []
        for i in range(2):
            if i == 0:
                a, b, d = [M - mean(M) for M in (A, B, C)]
                n = N * (T - 1)
            else:
                a, b, d = [np.sqrt(T) * mean(M)[None, :] for M in (A, B, C)]
                n = N
            q = lambda x, y: float((x * y).sum()) / n
            c0 = np.array([q(a, a), q(b, b), q(a, b)])
            c1 = np.array([2 * q(a, b), 2 * q(b, d), q(a, d) + q(b, b)])
            c2 = np.array([q(b, b), q(d, d), q(b, d)])
            self.blocks.append((c0, c1, c2, np.array([1.0, tr / N, 0.0])))

    def prof(self, i, l, Ti=None):
        c0, c1, c2, d = self.blocks[i]
        Ti = np.eye(3) if Ti is None else Ti
        r = c0 - l * c1 + l * l * c2
        s = max(0.0, float(r @ Ti @ d) / float(d @ Ti @ d))
        v = r - s * d
        return s, float(v @ Ti @ v)

    def scale(self, i):
        return max(float(v @ v) for v in self.blocks[i][:3])


def minima(f, B=0.99):
    g = np.linspace(-B, B, 199)
    v = np.array([f(x) for x in g])
    return [g[i] for i in range(len(g)) if (i == 0 or v[i] <= v[i - 1]) and (i == len(g) - 1 or v[i] <= v[i + 1])]


def refine(f, x, h=0.01, B=0.99):
    from scipy.optimize import minimize_scalar
    o = minimize_scalar(f, bounds=(max(-B, x - h), min(B, x + h)), method="bounded", options={"xatol": 1e-9})
    return min([(f(x), x), (o.fun, float(o.x)), (f(max(-B, x - h)), max(-B, x - h)), (f(min(B, x + h)), min(B, x + h))])[1]


def tau(W, code=False):
    N = len(W)
    A = W.T @ W
    a, b = np.trace(A), np.trace(A @ A)
    c, d = np.trace(A @ (W + W.T)), np.trace(W @ W + A)
    if code:
        M = np.array([[2 * N, 2 * a / N, 0], [2 * a / N, b, c], [0, c, d]]) / N
    else:
        M = np.array([[2 * N, 2 * a, 0], [2 * a, 2 * b, c], [0, c, d]]) / N
    return M


def run_kkp(s):
    import spreg
    c = panel.build(dict(s, slx=0) if s["cls"] != "GM_ErrorRE" else s)
    if s["cls"] != "GM_ErrorRE":
        s = dict(s, slx=0)
    X = good(ref.const(c.XL), 1e3)
    kw = dict(full_weights=s["full"])
    extra = ["lambda", "sigma2_v", "sigma2_1"]
    lab = None
    if s["cls"] == "GM_KKP" and s["reg"]:
        g = gen.rng(s["seed"], 303)
        lab = np.array(["north", "south"])[(np.arange(c.N) * 7 + g.integers(0, 2, c.N)) % 2]
        long = s["reg"] == 2
        L = np.tile(lab, c.T)
        kw["regimes"] = (L if long else lab) if s["fe"] else list(L if long else lab)
        if min((lab == v).sum() for v in ("north", "south")) < X.shape[1] + 3:
            raise Reject("small regime")
        X = good(np.hstack([X * (L == v).reshape(-1, 1) for v in ("north", "south")]), 1e3)
    try:
        m, nm, yn = fit(s, c, s["cls"], **kw)
    except Violation as v:
        if s["full"] and la.eigvalsh(tau(c.W, True)).min() <= 1e-10:
            raise Violation(str(v), key="kkp-tau")
        raise
    nm = ["CONSTANT"] + nm
    if lab is not None:
        nm = ["%s_%s" % (v, x) for v in ("north", "south") for x in nm]
    common(m, c, s, nm, yn, extra, nt=s["cls"] == "GM_ErrorRE")
    same("k", m.k, X.shape[1])
    N, T, k = c.N, c.T, X.shape[1]
    b = arr(m.betas).ravel()
    same("number of estimates", len(b), k + 3)
    lam, sv, s1 = b[-3:]
    u0 = c.y - X @ ref.lsq(X, c.y)[0]
    q = KKP(c, u0)
    f1 = lambda l: q.prof(0, l)[1]
    firsts = [refine(f1, x, 0.011) for x in minima(f1)]
    cand = []
    for l1 in firsts:
        v1 = q.prof(0, l1)[0]
        e = u0 - l1 * (c.WT @ u0)
        z1 = T * float((e.reshape(T, N).mean(0) ** 2).sum()) / N
        cand.append((v1, z1))
    if min(min(v) for v in cand) <= 1e-3 * float((u0 ** 2).mean()):
        raise Reject("first-step variance at zero")
    if sv <= 1e-4 * float((u0 ** 2).mean()) or s1 <= 1e-4 * float((u0 ** 2).mean()):
        raise Reject("variance component at zero")
    key, err, done = None, None, False
    for code in ([False, True] if s["full"] else [False]):
        Ti = la.inv(tau(c.W, code)) if s["full"] else np.eye(3)
        for v1, z1 in cand:
            f2 = lambda l: (T - 1) / v1 ** 2 * q.prof(0, l, Ti)[1] + q.prof(1, l, Ti)[1] / z1 ** 2
            sc = max((T - 1) / v1 ** 2 * q.scale(0), q.scale(1) / z1 ** 2)
            try:
                x = min((refine(f2, v, 0.011) for v in minima(f2)), key=lambda v: abs(v - lam))
                ok(abs(lam - x) <= 5e-3 or f2(lam) - f2(x) <= 1e-6 * sc,
                   "lambda=%.6f does not minimise the weighted moments, nearest minimum %.6f" % (lam, x))
                for i, (nmv, got) in enumerate((("sigma2_v", sv), ("sigma2_1", s1))):
                    eq(nmv, got, q.prof(i, lam, Ti)[0], rtol=2e-2)
                done = True
            except Violation as v:
                err = err or v
            if done:
                break
        if done:
            key = "kkp-tau" if code else None
            break
    if not done:
        raise err
    th = 1 - np.sqrt(sv / s1)
    Z = np.hstack([X, c.y])
    Zf = Z - lam * (c.WT @ Z)
    Zs = panel.demean(Zf, N, 1 - th)
    Xs, ys = Zs[:, :-1], Zs[:, -1:]
    r = ref.ols(ys, good(Xs))
    eq_coef("betas", b[:k], r.betas.ravel(), np.sqrt(np.diag(r.vm)), rtol=1e-6)
    eq_vm("vm", m.vm, r.vm, rtol=1e-5)
    sc = np.abs(c.y).max() + np.abs(X * b[:k]).max()
    u = c.y - X @ b[:k].reshape(-1, 1)
    eq("u", m.u, u, rtol=1e-8, scale=sc)
    eq("predy", m.predy, c.y - u, rtol=1e-8, scale=sc)
    eq("e_filtered", m.e_filtered, u - lam * (c.WT @ u), rtol=1e-8, scale=sc)
    inference(m, "z")
    if s["cls"] == "GM_ErrorRE":
        table(m)
        same("names of the table", [v.strip() for v in m.output.sort_index()["var_names"]], nm + extra)
    if lab is not None:
        V = arr(m.vm)
        h = k // 2
        R = np.hstack([np.eye(h), -np.eye(h)])
        d = R @ b[:k].reshape(-1, 1)
        Q = R @ V @ R.T
        stat("Chow test", m.chow.joint, float((d.T @ la.solve(Q, d)).item()), h, rtol=1e-5)
        for j in range(h):
            stat("Chow test of coefficient %d" % j, m.chow.regi[j], float(d[j, 0] ** 2 / Q[j, j]), 1, rtol=1e-6)
    return {"labels": [s["lay"], s["cls"], "full%d" % s["full"], "reg%d" % (lab is not None)], "known": [(key, str(err))] if key else []}


# ------------------------------------------------------------------ deprecated fixed effects
def run_oldfe(s):
    s = dict(s, slx=0)
    kind = "lag" if s["old"] else "error"
    c = panel.build(s, kind)
    X, y = good(panel.demean(c.X, c.N)), panel.demean(c.y, c.N)
    nt = c.N * c.T
    lost = nt / 2 * np.log(nt)
    if kind == "lag":
        m, nm, yn = fit(s, c, "Panel_FE_Lag")
        common(m, c, s, nm, yn, ["W_" + yn])
        D = PLag(y, X, c.W, c.T)
        rho = float(np.squeeze(m.rho))
        P08.check_opt(m, rho, D, "rho")
        if 1 - abs(rho) < 1e-3:
            raise Reject("boundary")
        r = D.at(rho)
        chk = lambda ll: lag_common(m, c, s, D, r, rho, ll=ll)
    else:
        m, nm, yn = fit(s, c, "Panel_FE_Error")
        common(m, c, s, nm, yn, ["lambda"])
        D = PErr(y, X, c.W, c.T)
        lam = float(np.squeeze(m.lam))
        noise = err_noise(D, lam)
        P08.check_opt(m, lam, D, "lambda", noise)
        r = D.at(lam)
        chk = lambda ll: err_common(m, c, s, D, r, noise, ll=ll, lam=lam)
    inference(m, "z")
    known = []
    try:
        chk(0.0)
    except Violation as v:
        chk(lost)
        known = [("panel-fe-logll", str(v))]
    return {"labels": [s["lay"], kind], "known": known}


SUBS = [Sub("wide-error", gen.wide(strat(), n=(50, 80), ks=(5, 9), key="N", kpath=("k",)), run_errfe, quick=40, thorough=200),
        Sub("wide-lag", gen.wide(strat(), n=(50, 80), ks=(5, 9), key="N", kpath=("k",)), run_lagfe, quick=40, thorough=200),
        Sub("wide-kkp", gen.wide(strat(cls=st.sampled_from(["GM_ErrorRE", "GM_ErrorRE", "GM_KKP"]), full=st.booleans(), reg=st.sampled_from([0, 1, 2])), n=(50, 80), ks=(5, 9), key="N", kpath=("k",)), run_kkp, quick=40, thorough=200),
        Sub("error-fixed", strat(), run_errfe, quick=300, thorough=6000),
        Sub("lag-fixed", strat(), run_lagfe, quick=300, thorough=6000),
        Sub("error-pooled", strat(**SMALL), run_pooled, quick=200, thorough=4000),
        Sub("gmm-pooled", strat(it=st.sampled_from([1, 1, 2, 4]), **SMALL), run_gmpooled, quick=100, thorough=2000),
        Sub("lag-random", strat(old=st.sampled_from([False, False, True]), **SMALL), run_lagre, quick=150, thorough=3000),
        Sub("error-random", strat(old=st.sampled_from([False, False, True]), **SMALL), run_errre, quick=120, thorough=3000),
        Sub("kkp", strat(cls=st.sampled_from(["GM_ErrorRE", "GM_ErrorRE", "GM_KKP"]), full=st.booleans(), reg=st.sampled_from([0, 1, 2])), run_kkp, quick=300, thorough=6000),
        Sub("fixed-deprecated", strat(old=st.booleans(), **SMALL), run_oldfe, quick=100, thorough=2000)]

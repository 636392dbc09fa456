"""Spatial error and spatial lag SUR."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.optimize import minimize
from vlib import gen, ref, reg, surs, gmm
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *
from checks import P22
from checks.P22 import coefs, inf, t3, chow, chow_regi, names_, expand, rpos, tsls_check, tsls_pre, zhat

TITLE = "spatial SUR"
RULE = ("systems of 2-4 equations with spatially dependent errors or lags x weights families x input forms x regimes x lag orders; non-trivial = spatial parameters judged against the moment or likelihood "
        "criterion, everything else against generalised least squares of the filtered (or instrumented) Kronecker system")
ASSUMPTIONS = ["equilibrated condition of the regressors below 1e3, of the residual correlation below 1e4",
               "likelihood maxima accepted when no local search from the reported point gains more than 1e-4 in log-likelihood (bounded to [-1, 1])"]


def filt(W, lam, d):
    return {r: d[r] - lam[r] * (W @ d[r]) for r in d}


# ------------------------------------------------------------------ GM
def strat_gm():
    return st.fixed_dictionaries(dict(surs.spec(transforms=("r", "r", "s", "b")), nons=st.booleans(), spat=st.booleans(), vm=st.booleans()))


def strat_gmr():
    return st.fixed_dictionaries(dict(surs.spec(n=(36, 60), m=(2, 3), kmax=2, regimes=True), nons=st.booleans(), spat=st.booleans(), vm=st.booleans()))


def run_gm(s):
    import spreg
    c = surs.build(s, err=True)
    R = s.get("R")
    X = surs.good(expand(c, c.X) if R else c.X, 100)
    E0 = surs.resid(c.y, X, surs.ols(c.y, X))
    surs.good_sig(E0.T @ E0)
    with sut("inputs"):
        pos, kw, names = surs.inputs(s, c, (0, 1))
    if R:
        kw["regimes"] = reg.box(s, c.lab)
    with sut("SURerrorGM"):
        m = spreg.SURerrorGM(*pos, w=c.w, nonspat_diag=s["nons"], spat_diag=s["spat"], vm=s["vm"], **kw)
    lam = arr(m.lamsur)
    ok(lam.shape == (c.m, 1), "lamsur: shape %s" % (lam.shape,))
    for r in range(c.m):
        gmm.check_min("lamsur of equation %d: " % r, gmm.KP(E0[:, r:r + 1], c.W), float(lam[r, 0]))
    fx = surs.good(filt(c.W, lam[:, 0], X))
    fy = filt(c.W, lam[:, 0], c.y)
    F = E0 - (c.W @ E0) * lam.T
    S = surs.good_sig(F.T @ F / c.n)
    b, V = surs.gls(fy, fx, S)
    common(s, c, m, X, b, V, names, "bSUR")
    eq("corr", m.corr, surs.corr(arr(m.sig)), rtol=1e-8)
    eq_vm("sig", m.sig, S)
    return {"labels": [s["form"], "m%d" % c.m]}


def common(s, c, m, X, b, V, names, attr, slack=None):
    got = getattr(m, attr)
    ys = max(np.abs(c.y[r]).max() for r in c.y)
    same("n", m.n, c.n)
    same("n_eq", m.n_eq, c.m)
    if slack is None:
        coefs(attr, got, b, V)
        eq_vm("varb", m.varb, V)
    eq("bigE", m.bigE, surs.resid(c.y, X, {r: arr(got[r]) for r in X}), rtol=1e-7, scale=ys)
    inf("sur_inf", m.sur_inf, got, m.varb)
    chow(c.m, m.surchow, got, m.varb)
    if "R" in s:
        names_(m, names, c)
        R = len(set(c.lab))
        chow_regi(c, m.chow_regimes, got, m.varb, {r: [[i + j * len(names.x[r]) for j in range(R)] for i in range(len(names.x[r]))] for r in range(c.m)})
    else:
        names_(m, names)


# ------------------------------------------------------------------ ML
def strat_ml():
    return st.fixed_dictionaries(dict(surs.spec(m=(2, 3)), nons=st.booleans(), spat=st.booleans(), vm=st.booleans(), eps=st.sampled_from([1e-7, 1e-7, 1e-9])))


def strat_mlr():
    return st.fixed_dictionaries(dict(surs.spec(n=(36, 60), m=(2, 2), kmax=2, regimes=True), nons=st.booleans(), spat=st.booleans(), vm=st.booleans(), eps=st.just(1e-7)))


class Lik:
    """log-likelihood without constants, Sigma concentrated out"""

    def __init__(self, c, X):
        self.c, self.X = c, X
        self.ev = np.linalg.eigvals(c.W)

    def jac(self, l):
        return float(sum(np.log(np.abs(1 - x * self.ev)).sum() for x in l))

    def sig(self, l, E):
        F = E - (self.c.W @ E) * np.asarray(l).reshape(1, -1)
        return F.T @ F / self.c.n

    def at(self, l, E):
        return -self.c.n / 2.0 * surs.logdet(self.sig(l, E)) + self.jac(l)

    def beta(self, l, S):
        return surs.gls(filt(self.c.W, l, self.c.y), filt(self.c.W, l, self.X), S)

    def settles(self, l, E, eps=1e-6, rounds=250):
        """does a zigzag between coefficients and spatial parameters settle soon (the likelihood of a short, wide system may be unbounded)"""
        v = -np.inf
        for _ in range(rounds):
            b, _ = self.beta(l, self.sig(l, E))
            E = surs.resid(self.c.y, self.X, b)
            r = minimize(lambda t: -self.at(t, E), l, method="L-BFGS-B", bounds=[(-0.999, 0.999)] * len(l))
            l = r.x
            if abs(-r.fun - v) < eps:
                return True
            v = -r.fun
        return False

    def polish(self, l, E, rounds=8):
        """block-coordinate ascent from a point"""
        l, E = np.array(l, float), E.copy()
        v = self.at(l, E)
        for _ in range(rounds):
            b, V = self.beta(l, self.sig(l, E))
            E = surs.resid(self.c.y, self.X, b)
            r = minimize(lambda t: -self.at(t, E), l, method="L-BFGS-B", bounds=[(-1, 1)] * len(l))
            if -r.fun > self.at(l, E):
                l = r.x
            nv = self.at(l, E)
            if nv - v < 1e-9:
                break
            v = nv
        return v, l, b, V


def info(W, lam, S):
    """information of (lambda, vech Sigma) of the stacked normal errors, from traces of the dense covariance"""
    n, m = len(W), len(S)
    Bi = [np.linalg.inv(np.eye(n) - l * W) for l in lam]
    BB = np.zeros((n * m, n * m))
    for r in range(m):
        BB[r * n:(r + 1) * n, r * n:(r + 1) * n] = Bi[r]
    Om = BB @ np.kron(S, np.eye(n)) @ BB.T
    Oi = np.linalg.inv(Om)
    D = []
    for r in range(m):
        G = np.zeros((n * m, n * m))
        G[r * n:(r + 1) * n, r * n:(r + 1) * n] = Bi[r] @ W
        D.append(Oi @ (G @ Om + Om @ G.T))
    for i in range(m):
        for j in range(i, m):
            T = np.zeros((m, m))
            T[i, j] = T[j, i] = 1
            D.append(Oi @ BB @ np.kron(T, np.eye(n)) @ BB.T)
    return np.array([[0.5 * (a * b.T).sum() for b in D] for a in D])


def run_ml(s):
    import spreg
    c = surs.build(s, err=True)
    R = s.get("R")
    X = surs.good(expand(c, c.X) if R else c.X, 100)
    bo = surs.ols(c.y, X)
    E0 = surs.resid(c.y, X, bo)
    surs.good_sig(E0.T @ E0)
    q, n = c.m, c.n
    L = Lik(c, X)
    if not L.settles(np.zeros(q), E0):
        raise Reject("the likelihood climbs too slowly to a maximum")
    with sut("inputs"):
        pos, kw, names = surs.inputs(s, c, (0, 1))
    if R:
        kw["regimes"] = reg.box(s, c.lab)
    with sut("SURerrorML"):
        m = spreg.SURerrorML(*pos, w=c.w, nonspat_diag=s["nons"], spat_diag=s["spat"], vm=s["vm"], epsilon=s["eps"], **kw)
    lam = arr(m.lamsur)
    ok(lam.shape == (q, 1), "lamsur: shape %s" % (lam.shape,))
    E = arr(m.bigE)
    v = L.at(lam[:, 0], E)
    eq("cliksurerr", m.cliksurerr, v, rtol=1e-8, atol=1e-6)
    best, lb, bb, Vb = L.polish(lam[:, 0], E)
    ok(best - v < 1e-4, "SURerrorML stopped %.3g below the likelihood reached by a local search from its estimates" % (best - v))
    common(s, c, m, X, None, None, names, "bSUR", slack=True)
    # coefficients and covariance belong to the reported spatial parameters
    b, V = L.beta(lam[:, 0], L.sig(lam[:, 0], E))
    K = [b[r].shape[0] for r in range(q)]
    se = surs.split(np.sqrt(np.diag(V)).reshape(-1, 1), K)
    flat = np.abs(lam).max() < 0.98
    if flat:
        for r in range(q):
            ok(np.abs((arr(m.bSUR[r]) - b[r]) / se[r]).max() < 0.02, "bSUR of equation %d is not the GLS estimate at lamsur: %s against %s" % (r, arr(m.bSUR[r]).ravel(), b[r].ravel()))
        sc = np.sqrt(np.diag(V))
        ok(np.abs((arr(m.varb) - V) / np.outer(sc, sc)).max() < 0.03, "varb is not the GLS covariance at lamsur")
        S = L.sig(lam[:, 0], E)
        ss = np.sqrt(np.diag(S))
        ok(np.abs((arr(m.sig) - S) / np.outer(ss, ss)).max() < 0.02, "sig is not the residual covariance at lamsur")
    eq("corr", m.corr, surs.corr(arr(m.sig)), rtol=1e-8)
    # single-equation error models
    tot = 0.0
    for r in range(q):
        l = float(arr(m.lamols)[r, 0])

        def one(t, r=r):
            fx, fy = c_f(c, X[r], t), c_f(c, c.y[r], t)
            e = fy - fx @ ref.lsq(fx, fy)[0]
            return -n / 2.0 * np.log((e ** 2).sum() / n) + L.jac([t])
        at = one(l)
        tot += at
        up = max(one(min(max(l + d, -1), 1)) for d in (-3e-3, -3e-4, 3e-4, 3e-3))
        ok(up - at < 1e-5, "lamols of equation %d is not at a likelihood maximum: %.3g more nearby" % (r, up - at))
    const = -n / 2.0 * q * (1 + np.log(2 * np.pi))
    eq("clikerr", m.clikerr, tot, rtol=1e-8, atol=1e-6)
    eq("errllik", m.errllik, const + tot, rtol=1e-8, atol=1e-6)
    eq("surerrllik", m.surerrllik, const + v, rtol=1e-8, atol=1e-6)
    ok(m.surerrllik >= m.errllik - 1e-4 or np.abs(lam).max() > 0.9, "the system has a lower likelihood (%.8g) than its equations separately (%.8g)" % (m.surerrllik, m.errllik))
    path = P22.sur_path(c.y, X, 6)
    near = np.array([-n / 2.0 * (q * (1 + np.log(2 * np.pi)) + surs.logdet(p[0])) for p in path])

    def step(it):
        eq("llik (of an iterated SUR)", m.llik, near[it], rtol=1e-8, atol=1e-4)
        coefs("bSUR0", m.bSUR0, path[it][1], path[it][2], 1e-4)
    still = abs(surs.logdet(path[0][0]) - np.log(np.diag(path[0][0])).sum()) < 1.01e-5      # nothing to iterate
    gmm.any_of(range(len(near) - 1, -1 if still else 0, -1), step)
    M = q * (q - 1) // 2
    if s["nons"]:
        t3("lrtest", m.lrtest, 2 * (m.surerrllik - m.errllik), M, atol=1e-9)
    else:
        ok(m.lrtest is None, "lrtest not requested")
    if s["spat"]:
        t3("likrlambda", m.likrlambda, 2 * (m.surerrllik - m.llik), q, atol=1e-9)
    else:
        ok(m.likrlambda is None, "likrlambda not requested")
    if s["vm"]:
        if np.abs(lam).max() < 0.97:
            I = info(c.W, lam[:, 0], arr(m.sig))
            d = np.sqrt(np.diag(I))
            if np.linalg.cond(I / np.outer(d, d)) < 1e6:
                eq_vm("vm", m.vm, np.linalg.inv(I / np.outer(d, d)) / np.outer(d, d), rtol=1e-5)
        vl = arr(m.vm)[:q, :q]
        se = np.sqrt(np.diag(vl)).reshape(-1, 1)
        same("lamsetp columns", len(m.lamsetp), 3)
        for nm, g, w in zip(("standard errors", "z", "p"), m.lamsetp, (se, lam / se, pnorm(lam / se))):
            eq("lamsetp " + nm, arr(g).reshape(-1, 1), w, rtol=1e-8, scale=0, atol=1e-14)
        Rm = np.hstack([np.ones((q - 1, 1)), -np.eye(q - 1)])
        t3("lamtest", m.lamtest, surs.wald(lam, vl, Rm), q - 1, rtol=1e-5)
        if s["spat"]:
            t3("joinlam", m.joinlam, surs.wald(lam, vl, np.eye(q)), q, rtol=1e-5)
        else:
            ok(m.joinlam is None, "joinlam not requested")
    else:
        ok(m.vm is None and m.lamsetp is None and m.lamtest is None and m.joinlam is None, "inference on lambda without vm")
    return {"labels": [s["form"], "m%d" % q, "inner" if flat else "bound"]}


def c_f(c, x, l):
    return x - l * (c.W @ x)


# ------------------------------------------------------------------ lag
def strat_lag(endog, regimes=False):
    def f():
        d = surs.spec(n=(54, 84) if regimes else (28, 64), m=(2, 2) if regimes else (2, 3), kmax=2, endog=endog, regimes=regimes)
        d.update(wl=st.sampled_from([1, 1, 2, 3] if not regimes else [1, 1, 2]), lagq=st.booleans(), nons=st.booleans(), spat=st.booleans())
        if regimes:
            d["sep"] = st.booleans()
        return st.fixed_dictionaries(d)
    return f


def lags(W, A, o):
    out = []
    for _ in range(o):
        A = W @ A
        out.append(A)
    return out


def run_lag(endog):
    def run(s):
        import spreg
        c = surs.build(s, endog=endog, lag=True)
        W, q = c.W, c.m
        R, sep = "R" in s, s.get("sep")
        nr = len(set(c.lab)) if R else 1
        inter = lambda A: reg.interact(A, [True] * A.shape[1], c.lab) if R else A
        X, Z, Q = {}, {}, {}
        for r in range(q):
            Wy = W @ c.y[r]
            X[r] = inter(c.X[r])
            z = c.Z[r] if endog else np.zeros((c.n, 0))
            Z[r] = inter(ref.cat(z, Wy)) if sep else ref.cat(inter(z) if endog else z, Wy)
            q0 = inter(c.Q[r]) if endog else None
            wx = lags(W, X[r][:, 1:], s["wl"])
            if endog:
                wq = lags(W, q0, s["wl"]) if s["lagq"] else []
                Q[r] = ref.cat(q0, *wx, *wq)
            else:
                Q[r] = ref.cat(*wx)
        tsls_pre(c, X, Z, Q)
        with sut("inputs"):
            pos, kw, names = surs.inputs(s, c, (1, 1), endog=endog)
        if R:
            kw.update(regimes=reg.box(s, c.lab), regime_lag_sep=s["sep"])
        with sut("SURlagIV"):
            m = spreg.SURlagIV(*pos, w=c.w, w_lags=s["wl"], lag_q=s["lagq"], nonspat_diag=s["nons"], spat_diag=s["spat"], **kw)
        b, V = tsls_check(s, c, m, X, Z, Q)
        if R:
            names_(m, names, c)
        else:
            names_(m, names)
        zn, qn = {}, {}
        for r in range(q):
            z0 = list(names.z[r]) if endog else []
            wy = "W_" + names.y[r]
            if not R:
                zn[r] = z0 + [wy]
            elif sep:
                zn[r] = reg.block_inames(z0 + [wy], c.lab)
            else:
                zn[r] = (reg.block_inames(z0, c.lab) if endog else []) + [wy]
            xn = (reg.block_inames(names.x[r], c.lab) if R else list(names.x[r]))[1:]
            wn = lambda v: ["W" * o + "_" + i for o in range(1, s["wl"] + 1) for i in v]
            if endog:
                q0 = reg.block_inames(names.q[r], c.lab) if R else list(names.q[r])
                qn[r] = q0 + wn(xn) + (wn(q0) if s["lagq"] else [])
            else:
                qn[r] = wn(xn)
        same("name_bigyend", {r: list(m.name_bigyend[r]) for r in zn}, zn)
        same("name_bigq", {r: list(m.name_bigq[r]) for r in qn}, qn)
        K = [arr(m.b3SLS[r]).shape[0] for r in range(q)]
        kx = [len(names.x[r]) for r in range(q)]
        kz = [len(names.z[r]) if endog else 0 for r in range(q)]
        off = np.cumsum([0] + K)
        if s["spat"]:
            rows = []
            for r in range(q):
                for j in range(nr if sep else 1):
                    row = np.zeros(off[-1])
                    row[off[r + 1] - 1 - j * (kz[r] + 1)] = 1
                    rows.append(row)
            bb = np.vstack([arr(m.b3SLS[r]) for r in range(q)])
            t3("joinrho", m.joinrho, surs.wald(bb, arr(m.varb), np.array(rows)), len(rows), rtol=1e-5)
        else:
            ok(m.joinrho is None, "joinrho not requested")
        if R:
            chow_regi(c, m.chow_regimes, m.b3SLS, m.varb, {r: rpos(kx[r], kz[r] + (1 if sep else 0), nr) for r in range(q)})
        return {"labels": [s["form"], "wl%d" % s["wl"], "m%d" % q] + (["sep"] if sep else [])}
    return run


SUBS = [Sub("wide-gm", gen.wide(strat_gm, n=(70, 140), ks=None, more={"m": st.integers(2, 6), "ks": st.lists(st.integers(1, 7), min_size=6, max_size=6), "ms": st.lists(st.integers(1, 3), min_size=6, max_size=6), "ov": st.lists(st.integers(0, 2), min_size=6, max_size=6)}), run_gm, quick=40, thorough=300),
        Sub("wide-lag", gen.wide(strat_lag(True), n=(70, 140), ks=None, more={"m": st.integers(2, 6), "ks": st.lists(st.integers(1, 7), min_size=6, max_size=6), "ms": st.lists(st.integers(1, 3), min_size=6, max_size=6), "ov": st.lists(st.integers(0, 2), min_size=6, max_size=6)}), run_lag(True), quick=40, thorough=300),
        Sub("gm", strat_gm, run_gm, quick=300, thorough=6000),
        Sub("gm-regimes", strat_gmr, run_gm, quick=120, thorough=2500),
        Sub("ml", strat_ml, run_ml, quick=160, thorough=2500),
        Sub("ml-regimes", strat_mlr, run_ml, quick=64, thorough=1000),
        Sub("lag", strat_lag(False), run_lag(False), quick=200, thorough=4000),
        Sub("lag-endog", strat_lag(True), run_lag(True), quick=200, thorough=4000),
        Sub("lag-regimes", strat_lag(False, True), run_lag(False), quick=120, thorough=2500),
        Sub("lag-endog-regimes", strat_lag(True, True), run_lag(True), quick=160, thorough=3000)]

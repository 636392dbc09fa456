"""Seemingly unrelated regressions and three-stage least squares."""
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import gen, ref, reg, surs
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "SUR and 3SLS"
RULE = ("systems of 2-4 equations (unequal numbers of regressors, common regressors, correlated errors, endogenous variables, regimes) given as dictionaries, column lists or long tables, iterated or not; "
        "non-trivial = coefficients, covariances and every test compared with generalised least squares of the Kronecker system")
ASSUMPTIONS = ["equilibrated condition of each equation's regressors below 1e3", "condition of the residual correlation matrix below 1e4"]


def dcomp(what, got, want, f, *a):
    same(what + ": equations", sorted(got), sorted(want))
    for r in want:
        f("%s of equation %d" % (what, r), got[r], want[r], *a)


def coefs(what, got, want, V, rtol=1e-6):
    K = [want[r].shape[0] for r in want]
    se = surs.split(np.sqrt(np.diag(V)).reshape(-1, 1), K)
    same(what + ": equations", sorted(got), sorted(want))
    for r in want:
        ok(arr(got[r]).shape == want[r].shape, "%s of equation %d: shape" % (what, r))
        eq_coef("%s of equation %d" % (what, r), got[r], want[r], se[r], rtol)


def inf(what, got, b, V, rtol=1e-6):
    """standard errors, z statistics, probabilities, from the reported coefficients and covariance"""
    K = [arr(b[r]).shape[0] for r in b]
    se = surs.split(np.sqrt(np.diag(arr(V))).reshape(-1, 1), K)
    for r in b:
        z = arr(b[r]) / se[r]
        eq("%s of equation %d" % (what, r), got[r], np.hstack([se[r], z, pnorm(z)]), rtol=1e-9, scale=0, atol=1e-14)


def t3(what, got, val, df, rtol=1e-6, atol=1e-7):
    """(statistic, df, probability)"""
    eq(what, got[0], val, rtol=rtol, atol=atol)
    same("degrees of freedom of " + what, int(got[1]), df)
    eq("p-value of " + what, got[2], stats.chi2.sf(float(np.squeeze(got[0])), df), rtol=1e-6, atol=1e-13)


def chow_ref(m, b, V):
    """equality of each coefficient across equations, None unless all have the same number"""
    K = [b[r].shape[0] for r in range(m)]
    if len(set(K)) > 1:
        return None
    bb, off = np.vstack([b[r] for r in range(m)]), np.cumsum([0] + K)
    out = []
    for i in range(K[0]):
        R = np.zeros((m - 1, len(bb)))
        for j in range(1, m):
            R[j - 1, off[0] + i], R[j - 1, off[j] + i] = 1, -1
        out.append(surs.wald(bb, V, R))
    return out


def chow(m, got, b, V):
    w = chow_ref(m, {r: arr(b[r]) for r in range(m)}, arr(V))
    if w is None:
        ok(got is None, "cross-equation Chow tests reported for equations with different numbers of coefficients")
        return
    same("number of cross-equation Chow tests", len(got), len(w))
    for i, (g, v) in enumerate(zip(got, w)):
        t3("cross-equation test of coefficient %d" % i, g, v, m - 1, rtol=1e-5)


def chow_regi(c, got, b, V, pos):
    """pos[r]: per variable of equation r the list of its positions among the regimes"""
    K = [arr(b[r]).shape[0] for r in range(c.m)]
    off = np.cumsum([0] + K)
    V = arr(V)
    same("equations with Chow tests by regime", sorted(got), list(range(c.m)))
    for r in range(c.m):
        Vr, br = V[off[r]:off[r + 1], off[r]:off[r + 1]], arr(b[r])
        rows = []
        joint, regi = got[r]
        same("Chow tests by regime of equation %d" % r, len(regi), len(pos[r]))
        for i, p in enumerate(pos[r]):
            R = np.zeros((len(p) - 1, K[r]))
            for j in range(1, len(p)):
                R[j - 1, p[0]], R[j - 1, p[j]] = 1, -1
            rows.append(R)
            v = surs.wald(br, Vr, R)
            eq("Chow test by regime of variable %d of equation %d" % (i, r), regi[i][0], v, rtol=1e-5, atol=1e-7)
            eq("its p-value", regi[i][1], stats.chi2.sf(float(regi[i][0]), len(p) - 1), rtol=1e-6, atol=1e-13)
        R = np.vstack(rows)
        v = surs.wald(br, Vr, R)
        eq("joint Chow test by regime of equation %d" % r, joint[0], v, rtol=1e-5, atol=1e-7)
        eq("its p-value", joint[1], stats.chi2.sf(float(joint[0]), len(R)), rtol=1e-6, atol=1e-13)


def names_(m, names, c=None):
    same("name_bigy", dict(m.name_bigy), dict(names.y))
    if c is None:
        same("name_bigX", {r: list(m.name_bigX[r]) for r in names.x}, dict(names.x))
    else:
        same("name_bigX", {r: list(m.name_bigX[r]) for r in names.x}, {r: reg.block_inames(names.x[r], c.lab) for r in names.x})


def expand(c, d):
    return {r: reg.interact(d[r], [True] * d[r].shape[1], c.lab) for r in d}


# ------------------------------------------------------------------ SUR
def strat_sur():
    return st.fixed_dictionaries(dict(surs.spec(n=(13, 50)), cor=st.sampled_from([0.0, 0.5, 0.9, 0.96, -0.4]), iter=st.booleans(), maxiter=st.sampled_from([5, 1, 2, 40, 40, 60]), eps=st.sampled_from([1e-5, 1e-5, 1e-9, 1e-12, 1e-12, 1e-2]),
                                      nons=st.booleans(), spat=st.booleans(), vm=st.booleans()))


def sur_path(y, X, iters):
    """the sequence of (Sigma, b, V): Sigma from the residuals of the previous step, OLS first"""
    E = surs.resid(y, X, surs.ols(y, X))
    out = []
    for i in range(iters + 1):
        S = surs.good_sig(E.T @ E / len(E))
        b, V = surs.gls(y, X, S)
        out.append((S, b, V))
        E = surs.resid(y, X, b)
    return out


def sur_check(s, c, m, X):
    n, q = c.n, c.m
    y = c.y
    steps = int(m.niter) if s["iter"] else 0
    same("n", m.n, n)
    same("n_eq", m.n_eq, q)
    ok(steps <= s["maxiter"] + 1, "more iterations than allowed: %d" % steps)
    path = sur_path(y, X, min(steps, 100))
    S, b, V = path[-1]
    ld = [surs.logdet(p[0]) for p in path]
    ld0 = np.log(np.diag(path[0][0])).sum()
    if s["iter"]:
        last = abs(ld[-1] - (ld[-2] if steps else ld0))
        ok(last <= s["eps"] * (1 + 1e-6) + 1e-11 or steps >= s["maxiter"], "stopped after %d iterations at a change of %.3g" % (steps, last))
    ys = max(np.abs(y[r]).max() for r in y)
    bo = surs.ols(y, X)
    Vo = np.zeros_like(V)
    p = 0
    for r in range(q):
        k = X[r].shape[1]
        Vo[p:p + k, p:p + k] = S[r, r] * ref.xtxi(X[r])
        p += k
    coefs("bOLS", m.bOLS, bo, Vo)
    eq("olsE", m.olsE, surs.resid(y, X, bo), rtol=1e-8, scale=ys)
    coefs("bSUR", m.bSUR, b, V)
    eq_vm("varb", m.varb, V)
    eq_vm("sig", m.sig, S)
    eq("corr", m.corr, surs.corr(S), rtol=1e-7)
    E = surs.resid(y, X, b)
    eq("bigE", m.bigE, E, rtol=1e-7, scale=ys)
    eq("bigYP", m.bigYP, np.hstack([X[r] @ b[r] for r in range(q)]), rtol=1e-7, scale=ys)
    eq("ldetS0", m.ldetS0, ld0, rtol=1e-8, atol=1e-8)
    eq("ldetS1", m.ldetS1, ld[-1], rtol=1e-8, atol=1e-7)
    eq("llik", m.llik, -n / 2.0 * (q * (1 + np.log(2 * np.pi)) + ld[-1]), rtol=1e-8, atol=1e-5)
    inf("sur_inf", m.sur_inf, m.bSUR, m.varb)
    M = q * (q - 1) // 2
    if s["nons"]:
        t3("lrtest", m.lrtest, n * (ld0 - ld[-1]), M, atol=1e-4)
        R = surs.corr(path[0][0])
        t3("lmtest", m.lmtest, n * float((np.tril(R, -1) ** 2).sum()), M)
    else:
        ok(m.lrtest is None and m.lmtest is None, "tests reported that were not requested")
    chow(q, m.surchow, m.bSUR, m.varb)
    if s["spat"]:
        Si, W = np.linalg.inv(S), c.W
        t1, t2 = np.trace(W @ W), np.trace(W.T @ W)
        sc = np.array([[sum(Si[r, t] * (E[:, t] @ W @ E[:, r]) for t in range(q)) for r in range(q)]])
        I = t1 * np.eye(q) + t2 * Si * S
        t3("lmEtest", m.lmEtest, (sc @ np.linalg.solve(I, sc.T)).item(), q)
        # spatial lag: score and information of rho given the coefficients
        Y = np.hstack([y[r] for r in range(q)])
        sl = np.array([[sum(Si[r, t] * (E[:, t] @ W @ Y[:, r]) for t in range(q)) for r in range(q)]])
        P = np.zeros((n * q, q))
        for r in range(q):
            P[r * n:(r + 1) * n, r] = W @ X[r] @ b[r][:, 0]
        L = np.kron(np.linalg.cholesky(Si).T, np.eye(n))
        A, B = L @ surs.stack(X)[0], L @ P
        B = B - A @ ref.lsq(A, B)[0]
        I = I + B.T @ B
        t3("lmlagtest", m.lmlagtest, (sl @ np.linalg.solve(I, sl.T)).item(), q)
    else:
        ok(m.lmEtest is None and m.lmlagtest is None, "spatial tests reported that were not requested")
    return steps


def run_sur(s):
    import spreg
    c = surs.build(s)
    surs.good(c.X)
    E = surs.resid(c.y, c.X, surs.ols(c.y, c.X))
    surs.good_sig(E.T @ E)
    with sut("inputs"):
        pos, kw, names = surs.inputs(s, c, (0, 0))
    with sut("SUR"):
        m = spreg.SUR(*pos, w=c.w if s["spat"] else None, iter=s["iter"], maxiter=s["maxiter"], epsilon=s["eps"], nonspat_diag=s["nons"], spat_diag=s["spat"], vm=s["vm"], **kw)
    steps = sur_check(s, c, m, c.X)
    names_(m, names)
    if s["common"]:
        for r in range(c.m):
            eq_coef("SUR against OLS with common regressors, equation %d" % r, m.bSUR[r], ref.lsq(c.X[r], c.y[r])[0], arr(m.sur_inf[r])[:, :1], rtol=1e-5)
    return {"labels": [s["form"], "m%d" % c.m, "common" if s["common"] else "own", "iter%s" % min(steps, 5)]}


def strat_surreg():
    return st.fixed_dictionaries(dict(surs.spec(n=(36, 60), m=(2, 3), kmax=2, regimes=True), iter=st.booleans(), maxiter=st.sampled_from([5, 2]), eps=st.just(1e-5), nons=st.booleans(), spat=st.booleans(),
                                      vm=st.booleans()))


def run_surreg(s):
    import spreg
    c = surs.build(s)
    X = surs.good(expand(c, c.X), 100)
    E = surs.resid(c.y, X, surs.ols(c.y, X))
    surs.good_sig(E.T @ E)
    with sut("inputs"):
        pos, kw, names = surs.inputs(s, c, (0, 0))
    with sut("SUR"):
        m = spreg.SUR(*pos, w=c.w if s["spat"] else None, regimes=reg.box(s, c.lab), iter=s["iter"], maxiter=s["maxiter"], epsilon=s["eps"], nonspat_diag=s["nons"], spat_diag=s["spat"], vm=s["vm"], **kw)
    sur_check(s, c, m, X)
    names_(m, names, c)
    R = len(set(c.lab))
    chow_regi(c, m.chow_regimes, m.bSUR, m.varb, {r: [[i + j * len(names.x[r]) for j in range(R)] for i in range(len(names.x[r]))] for r in range(c.m)})
    return {"labels": [s["form"], "R%d" % R]}


# ------------------------------------------------------------------ 3SLS
def strat_3sls():
    return st.fixed_dictionaries(dict(surs.spec(n=(24, 60), m=(2, 3), kmax=2, endog=True), nons=st.booleans()))


def strat_3slsreg():
    return st.fixed_dictionaries(dict(surs.spec(n=(54, 80), m=(2, 2), kmax=2, endog=True, regimes=True), nons=st.booleans()))


def zhat(X, Z, Q):
    out = {}
    for r in X:
        H = ref.cat(X[r], Q[r])
        Qh = np.linalg.qr(H / np.sqrt((H ** 2).sum(0)))[0]
        out[r] = ref.cat(X[r], Qh @ (Qh.T @ Z[r]))
        if ref.cond(H) > 1e3:
            raise Reject("ill-conditioned instruments")
    return out


def tsls_check(s, c, m, X, Z, Q, W=None):
    y, q, n = c.y, c.m, c.n
    Zh = surs.good(zhat(X, Z, Q), 300)
    ZZ = {r: ref.cat(X[r], Z[r]) for r in X}
    b2 = surs.ols(y, Zh)
    E = surs.resid(y, ZZ, b2)
    S = surs.good_sig(E.T @ E / n)
    b, V = surs.gls(y, Zh, S)
    ys = max(np.abs(y[r]).max() for r in y) + max(np.abs(ZZ[r] * b[r].T).max() for r in y)
    K = [b[r].shape[0] for r in b]
    Vo = np.diag(np.concatenate([S[r, r] * np.diag(ref.xtxi(Zh[r])) for r in range(q)]))
    same("n", m.n, n)
    same("n_eq", m.n_eq, q)
    coefs("b2SLS", m.b2SLS, b2, Vo)
    eq("tslsE", m.tslsE, E, rtol=1e-7, scale=ys)
    coefs("b3SLS", m.b3SLS, b, V)
    eq_vm("varb", m.varb, V)
    eq_vm("sig", m.sig, S)
    eq("corr", m.corr, surs.corr(S), rtol=1e-6)
    eq("bigE", m.bigE, surs.resid(y, ZZ, b), rtol=1e-6, scale=ys)
    inf("tsls_inf", m.tsls_inf, m.b3SLS, m.varb)
    chow(q, m.surchow, m.b3SLS, m.varb)
    return b, V


def run_3sls(s):
    import spreg
    c = surs.build(s, endog=True)
    tsls_pre(c, c.X, c.Z, c.Q)
    with sut("inputs"):
        pos, kw, names = surs.inputs(s, c, (1, 1), endog=True)
    with sut("ThreeSLS"):
        m = spreg.ThreeSLS(*pos, nonspat_diag=s["nons"], **kw)
    tsls_check(s, c, m, c.X, c.Z, c.Q)
    names_(m, names)
    same("name_bigyend", {r: list(m.name_bigyend[r]) for r in names.z}, dict(names.z))
    same("name_bigq", {r: list(m.name_bigq[r]) for r in names.q}, dict(names.q))
    return {"labels": [s["form"], "m%d" % c.m]}


def tsls_pre(c, X, Z, Q):
    Zh = surs.good(zhat(X, Z, Q), 300)
    E = surs.resid(c.y, {r: ref.cat(X[r], Z[r]) for r in X}, surs.ols(c.y, Zh))
    surs.good_sig(E.T @ E)


def rpos(kx, kz, R):
    """positions of every variable: exogenous block by regime, then the endogenous block by regime"""
    return [[i + j * kx for j in range(R)] for i in range(kx)] + [[R * kx + i + j * kz for j in range(R)] for i in range(kz)]


def run_3slsreg(s):
    import spreg
    c = surs.build(s, endog=True)
    X, Z, Q = expand(c, c.X), expand(c, c.Z), expand(c, c.Q)
    tsls_pre(c, X, Z, Q)
    with sut("inputs"):
        pos, kw, names = surs.inputs(s, c, (1, 1), endog=True)
    with sut("ThreeSLS"):
        m = spreg.ThreeSLS(*pos, regimes=reg.box(s, c.lab), nonspat_diag=s["nons"], **kw)
    tsls_check(s, c, m, X, Z, Q)
    names_(m, names, c)
    same("name_bigyend", {r: list(m.name_bigyend[r]) for r in names.z}, {r: reg.block_inames(names.z[r], c.lab) for r in names.z})
    same("name_bigq", {r: list(m.name_bigq[r]) for r in names.q}, {r: reg.block_inames(names.q[r], c.lab) for r in names.q})
    R = len(set(c.lab))
    chow_regi(c, m.chow_regimes, m.b3SLS, m.varb, {r: rpos(len(names.x[r]), len(names.z[r]), R) for r in range(c.m)})
    return {"labels": [s["form"], "R%d" % R]}


# ------------------------------------------------------------------ tables
def strat_tab():
    return st.fixed_dictionaries({"n": st.integers(3, 12), "m": st.integers(2, 4), "k": st.integers(1, 3), "seed": gen.SEED, "fmt": st.sampled_from(["plm", "plm", "spreg"]), "const": st.booleans(),
                                  "box": st.sampled_from(["frame", "dict"]), "order": st.sampled_from(["unit", "time", "mixed", "shuffled", "shuffled"]), "per": st.sampled_from(["int", "float", "str", "desc", "ragged", "neg"]), "uid": st.sampled_from(["int", "str"])})


def run_tab(s):
    """sur_dictxy and sur_dictZ give every equation the right rows, columns and names"""
    import pandas as pd
    from spreg import sur_dictxy, sur_dictZ
    n, m, k = s["n"], s["m"], s["k"]
    g = gen.rng(s["seed"], 411)
    Y, X, ids = g.standard_normal((m, n)), g.standard_normal((m, n, k)), list(range(10, 10 + n))
    if s["uid"] == "str":
        ids = ["u%d" % i for i in ids]
    if s["fmt"] == "spreg":
        cols = {}
        for r in range(m):
            cols["y%d" % r] = Y[r]
            for j in range(k):
                cols["x%d_%d" % (r, j)] = X[r][:, j]
        db = pd.DataFrame(cols) if s["box"] == "frame" else {a: list(b) for a, b in cols.items()}
        yv, xv = ["y%d" % r for r in range(m)], [["x%d_%d" % (r, j) for j in range(k)] for r in range(m)]
        with sut("sur_dictxy"):
            by, bx, ny, nx = sur_dictxy(db, list(yv), [list(v) for v in xv])
        with sut("sur_dictZ"):
            bz, nz = sur_dictZ(db, [list(v) for v in xv], const=s["const"])
        wy, wx = {r: yv[r] for r in range(m)}, {r: ["Constant_%d" % (r + 1)] + xv[r] for r in range(m)}
    else:
        per = {"int": [1960, 1970, 1980, 1990], "desc": [1990, 1980, 1970, 1960], "ragged": [9, 100, 10, 101], "neg": [-1, 0, 10, -20], "float": [1960.0, 1970.0, 1980.0, 1990.0], "str": ["1960", "1970", "1980", "1990"]}[s["per"]][:m]
        rows = [(i, r) for i in range(n) for r in range(m)]
        if s["order"] == "time":
            rows = [(i, r) for r in range(m) for i in range(n)]
        if s["order"] == "mixed":
            rows = [(i, r) for r in g.permutation(m) for i in range(n)]
        first = list(range(n))
        if s["order"] == "shuffled":      # units come in the order of their first appearance in the table
            rows = [rows[i] for i in g.permutation(len(rows))]
            first = list(dict.fromkeys(i for i, r in rows))
        cols = {"unit": [ids[i] for i, r in rows], "year": [per[r] for i, r in rows], "y": [Y[r, i] for i, r in rows]}
        for j in range(k):
            cols["x%d" % j] = [X[r, i, j] for i, r in rows]
        db = pd.DataFrame(cols) if s["box"] == "frame" else cols
        with sut("sur_dictxy"):
            by, bx, ny, nx = sur_dictxy(db, ["y"], [["x%d" % j for j in range(k)]], space_id=["unit"], time_id=["year"])
        with sut("sur_dictZ"):
            bz, nz = sur_dictZ(db, [["x%d" % j for j in range(k)]], form="plm", const=s["const"], space_id=["unit"], time_id=["year"])
        o = np.argsort(per)
        Y, X, per = Y[o][:, first], X[o][:, first], [per[i] for i in o]
        wy, wx = {r: "y_%s" % per[r] for r in range(m)}, {r: ["Constant_%s" % per[r]] + ["x%d_%s" % (j, per[r]) for j in range(k)] for r in range(m)}
    same("equations", [sorted(by), sorted(bx), sorted(bz)], [list(range(m))] * 3)
    same("names of y", dict(ny), wy)
    same("names of X", {r: list(v) for r, v in nx.items()}, wx)
    if not (s["fmt"] == "plm" and s["per"] == "float"):
        same("names of Z", {r: list(v) for r, v in nz.items()}, wx if s["const"] else {r: v[1:] for r, v in wx.items()})
    for r in range(m):
        eq("y of equation %d" % r, by[r], Y[r].reshape(-1, 1), rtol=0)
        same("shape of y", by[r].shape, (n, 1))
        eq("X of equation %d" % r, bx[r], ref.const(X[r]), rtol=0)
        eq("Z of equation %d" % r, bz[r], ref.const(X[r]) if s["const"] else X[r], rtol=0)
    return {"labels": [s["fmt"], s["box"], s["per"] if s["fmt"] == "plm" else ""]}


SUBS = [Sub("wide-sur", gen.wide(strat_sur, n=(70, 140), ks=None, more={"m": st.integers(2, 6), "ks": st.lists(st.integers(1, 7), min_size=6, max_size=6), "ms": st.lists(st.integers(1, 3), min_size=6, max_size=6), "ov": st.lists(st.integers(0, 2), min_size=6, max_size=6)}), run_sur, quick=90, thorough=500),
        Sub("wide-3sls", gen.wide(strat_3sls, n=(70, 140), ks=None, more={"m": st.integers(2, 6), "ks": st.lists(st.integers(1, 7), min_size=6, max_size=6), "ms": st.lists(st.integers(1, 3), min_size=6, max_size=6), "ov": st.lists(st.integers(0, 2), min_size=6, max_size=6)}), run_3sls, quick=64, thorough=400),
        Sub("sur", strat_sur, run_sur, quick=800, thorough=9000),
        Sub("sur-regimes", strat_surreg, run_surreg, quick=200, thorough=4000),
        Sub("3sls", strat_3sls, run_3sls, quick=300, thorough=6000),
        Sub("3sls-regimes", strat_3slsreg, run_3slsreg, quick=200, thorough=4000),
        Sub("tables", strat_tab, run_tab, quick=200, thorough=3000)]

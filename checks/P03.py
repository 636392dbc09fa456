"""Non-spatial diagnostics."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from vlib import gen, ref, reg as vreg
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "Non-spatial diagnostics"
RULE = ("random designs incl. dummies (duplicate squares/products), integer and collinear columns; user-supplied Z; 2SLS for "
        "DWH; nested and ML model pairs for the LR test; non-trivial = all statistics compared with auxiliary regressions")
ASSUMPTIONS = ["auxiliary designs with equilibrated condition number < 1e6 (statistics otherwise numerically undefined)"]


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(15, 90), "d": gen.data_spec(k=st.integers(1, 4)), "k2n": st.booleans(),
        "slx": st.sampled_from([0, 0, 1]), "w": gen.w_spec(n=20), "zk": st.integers(1, 3), "coll": st.sampled_from([0, 0, 0, 1])})


def run(s):
    import spreg
    n = s["n"]
    y, X = gen.build_xy(s["d"], n)
    if s["coll"] and X.shape[1] > 1:
        X[:, 1] = X[:, 0] + X[:, 1] * 0.03
    w = W = None
    Xf = X
    kw = {}
    if s["slx"]:
        s["w"]["n"] = n
        w, W = gen.build_w(s["w"])
        Xf = ref.cat(X, W @ X)
        kw = dict(w=w, slx_lags=1)
    C = ref.const(Xf)
    if ref.cond(C) > 1e4 or C.shape[1] > n - 6:
        raise Reject("cond")
    k0 = C.shape[1]
    if k0 * (k0 + 3) // 2 > n - 5:
        raise Reject("White's auxiliary regression has more terms than observations")
    with sut("OLS diagnostics"):
        m = spreg.OLS(y, X, sig2n_k=s["k2n"], white_test=True, vif=True, **kw)
        direct = dict(jb=spreg.jarque_bera(m), bp=spreg.breusch_pagan(m), kb=spreg.koenker_bassett(m),
                      wh=spreg.white(m), ci=spreg.condition_index(m), vif=spreg.vif(m),
                      f=spreg.f_stat(m), r2=spreg.r2(m), ar2=spreg.ar2(m), ll=spreg.log_likelihood(m),
                      aic=spreg.akaike(m), sc=spreg.schwarz(m), se=spreg.se_betas(m), cc=spreg.constant_check(X),
                      cc2=spreg.constant_check(C))
    r = ref.ols(y, C, s["k2n"])
    u = r.u
    ss = max(1.0, float(np.abs(y).max() ** 2 / r.sig2n))
    tol = 1e-7 * min(ss, 1e4)
    for jb, nm in ((direct["jb"], "jarque_bera"), (m.jarque_bera, "stored jarque_bera")):
        same(nm + " df", jb["df"], 2)
        stat(nm, (jb["jb"], jb["pvalue"]), ref.jarque_bera(u), 2, rtol=tol)
    bp, df, c1 = ref.breusch_pagan(u, C)
    labels = []
    if c1 < 1e5:
        for b, nm in ((direct["bp"], "breusch_pagan"), (m.breusch_pagan, "stored breusch_pagan")):
            same(nm + " df", b["df"], df)
            stat(nm, (b["bp"], b["pvalue"]), bp, df, rtol=tol * 10, atol=1e-7)
        kb, df, _ = ref.koenker_bassett(u, C)
        for b, nm in ((direct["kb"], "koenker_bassett"), (m.koenker_bassett, "stored koenker_bassett")):
            same(nm + " df", b["df"], df)
            stat(nm, (b["kb"], b["pvalue"]), kb, df, rtol=tol * 10, atol=1e-7)
    else:
        labels.append("bp-ill")
    if df < C.shape[1] - 1:
        labels.append("bp-dup")
    ci = ref.cond(C)
    eq("condition_index", direct["ci"], ci, rtol=1e-5 if ci < 1e3 else 1e-2)
    eq("stored condition number", m.mulColli, ci, rtol=1e-5 if ci < 1e3 else 1e-2)
    wide = k0 * (k0 + 3) // 2 > n - 5
    wh, df, c3 = (0, 0, np.inf) if wide else ref.white_test(u, C)
    if ci > 30.001:
        ok(isinstance(direct["wh"], str), "White test computed despite condition number %g" % ci)
        labels.append("wh-mc")
    elif ci < 29.999 and c3 < 1e5 and df < n - 4:
        for b, nm in ((direct["wh"], "white"), (m.white, "stored white")):
            ok(not isinstance(b, str), "White test refused at condition number %g" % ci)
            same(nm + " df", b["df"], df)
            stat(nm, (b["wh"], b["pvalue"]), wh, df, rtol=max(tol * 10, 1e-13 * c3 ** 2), atol=1e-6)
        labels.append("white")
    k = C.shape[1]
    for j in range(1, k):
        o = np.delete(C, j, 1)
        res = C[:, [j]] - o @ ref.lsq(o, C[:, [j]])[0]
        tss = float(((C[:, j] - C[:, j].mean()) ** 2).sum())
        v = tss / float((res ** 2).sum())
        eq("vif[%d]" % j, direct["vif"][j][0], v, rtol=1e-6 * max(1, ci ** 2 / 100))
        eq("tolerance[%d]" % j, direct["vif"][j][1], 1 / v, rtol=1e-6 * max(1, ci ** 2 / 100))
    if k == 2:
        eq("vif single regressor", direct["vif"][1][0], 1.0, rtol=1e-9)
    eq("f_stat", direct["f"][0], r.f, rtol=tol * 10, atol=1e-9)
    eq("f_stat p", direct["f"][1], stats.f.sf(float(direct["f"][0]), k - 1, n - k), rtol=1e-9, atol=1e-14)
    eq("r2()", direct["r2"], r.r2, atol=tol)
    eq("ar2()", direct["ar2"], r.ar2, atol=tol * 10)
    eq("log_likelihood()", direct["ll"], r.logl, rtol=tol, scale=n)
    eq("akaike()", direct["aic"], r.aic, rtol=tol, scale=n)
    eq("schwarz()", direct["sc"], r.sc, rtol=tol, scale=n)
    eq("se_betas()", direct["se"], np.sqrt(np.diag(r.vm)), rtol=1e-5, scale=0)
    same("constant_check", (direct["cc"], direct["cc2"]), (bool((np.ptp(X, axis=0) == 0).any()), True))
    # F test on the last df coefficients
    q = int(gen.rng(s["d"]["seed"], 9).integers(1, k))
    with sut("f_stat(df)"):
        fq = spreg.f_stat(m, df=q)
    r0 = ref.ols(y, C[:, :-q])
    want = ((r0.utu - r.utu) / q) / (r.utu / (n - k))
    eq("f_stat(df=%d)" % q, fq[0], want, rtol=tol * 100, atol=1e-6)
    eq("f_stat(df) p", fq[1], stats.f.sf(float(fq[0]), q, n - k), rtol=1e-9, atol=1e-14)
    # user-supplied heteroskedasticity variables
    Z = ref.const(np.abs(gen.rng(s["d"]["seed"], 8).standard_normal((n, s["zk"]))))
    with sut("user z"):
        bz, kz = spreg.breusch_pagan(m, z=Z.copy()), spreg.koenker_bassett(m, z=Z.copy())
    rt = np.sqrt(np.abs(Z))
    want, df, _ = ref.breusch_pagan(u, rt)
    same("bp(z) df", bz["df"], s["zk"])
    stat("bp(z)", (bz["bp"], bz["pvalue"]), want, s["zk"], rtol=tol * 10, atol=1e-7)
    want, df, _ = ref.koenker_bassett(u, rt)
    same("kb(z) df", kz["df"], s["zk"])
    stat("kb(z)", (kz["kb"], kz["pvalue"]), want, s["zk"], rtol=tol * 10, atol=1e-7)
    return {"labels": labels}


# ------------------------------------------------------------------ DWH
def strat_dwh():
    return st.fixed_dictionaries({"n": st.integers(20, 80), "d": gen.data_spec(k=st.integers(1, 3)),
                                  "m": st.integers(1, 3), "extra": st.integers(0, 2)})


def run_dwh(s):
    import spreg
    n = s["n"]
    y, X = gen.build_xy(s["d"], n)
    Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
    y = y + Ye.sum(1, keepdims=True) + u0
    C = ref.const(X)
    H, Z = ref.cat(C, Q), ref.cat(C, Ye)
    P = H @ ref.lsq(H, Ye)[0]
    A = ref.cat(Z, P)
    if s["extra"] == 0 and False:
        raise Reject("x")
    if ref.cond(A) > 1e4 or A.shape[1] > n - 5:
        raise Reject("cond")
    with sut("TSLS"):
        m = spreg.TSLS(y, X, Ye, Q)
        d = spreg.dwh(m)
    r0, r1 = ref.ols(y, Z), ref.ols(y, A)
    want = ((r0.utu - r1.utu) / s["m"]) / (r1.utu / (n - A.shape[1]))
    for g, nm in ((d, "dwh"), (m.dwh, "stored dwh")):
        eq(nm, g[0], want, rtol=1e-5, atol=1e-7)
        eq(nm + " p", g[1], stats.f.sf(float(g[0]), s["m"], n - A.shape[1]), rtol=1e-8, atol=1e-14)
    return {}


# ------------------------------------------------------------------ LR test
def strat_lr():
    return st.fixed_dictionaries({"n": st.integers(20, 50), "d": gen.data_spec(k=st.integers(2, 4)), "w": gen.w_spec(n=20),
                                  "pair": st.sampled_from(["nested", "mllag", "mlerr", "durbin", "swapped"])})


def run_lr(s):
    import spreg
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W)
    if ref.cond(ref.const(X)) > 1e4:
        raise Reject("cond")
    with sut("models"):
        m0 = spreg.OLS(y, X)
        if s["pair"] == "nested":
            m0, m1 = spreg.OLS(y, X[:, :1]), m0
        elif s["pair"] == "mllag":
            m1 = spreg.ML_Lag(y, X, w=w)
        elif s["pair"] == "mlerr":
            m1 = spreg.ML_Error(y, X, w=w)
        elif s["pair"] == "durbin":
            m1 = spreg.ML_Lag(y, X, w=w, slx_lags=1)
            m0 = spreg.ML_Lag(y, X, w=w)
        else:
            m1, m0 = spreg.OLS(y, X[:, :1]), m0
        t = spreg.likratiotest(m0, m1)
    df = {"nested": X.shape[1] - 1, "mllag": 1, "mlerr": 1, "durbin": X.shape[1], "swapped": 1}[s["pair"]]
    same("LR df", t["df"], df)
    want = abs(2 * (float(np.squeeze(m1.logll)) - float(np.squeeze(m0.logll))))
    stat("likratiotest", (t["likr"], t["p-value"]), want, df, rtol=1e-9)
    try:
        with sut("bad", expect=(Exception,)):
            spreg.likratiotest(object(), m1)
        ok(False, "likratiotest accepted an object without log-likelihood")
    except Violation:
        raise
    except Exception:
        pass
    return {"labels": [s["pair"]]}


# ------------------------------------------------------------------ regimes
def strat_reg():
    return st.fixed_dictionaries(dict(vreg.SPEC, n=st.integers(20, 90), d=gen.data_spec(k=st.integers(1, 3)), const=st.sampled_from(["many", "many", "one"]), cols=st.sampled_from([0, 0, 0, 1, 2, 5]),
                                      k2n=st.booleans(), sep=st.sampled_from([0, 0, 0, 1]), xr=st.sampled_from([None, None, "bin", "pm"])))


def aux(e, A):
    """(n R2, df) of the regression of e on the distinct non-constant columns of A and a constant, in coordinates that survive exact collinearity"""
    A = ref.const(ref.dedupe(A[:, np.ptp(A, axis=0) > 0]))
    Q, sv, _ = np.linalg.svd(A / np.linalg.norm(A, axis=0), full_matrices=False)
    if np.any((sv > 1e-12 * sv[0]) & (sv < 1e-5 * sv[0])):
        raise Reject("auxiliary regression without a clear rank")
    Q = Q[:, sv >= 1e-5 * sv[0]]
    f = Q @ (Q.T @ e)
    c = e - e.mean()
    return float(len(e) * ((f - e.mean()) ** 2).sum() / (c ** 2).sum()), Q.shape[1] - 1


def run_reg(s):
    """pooled regimes: the design holds a full set of dummies instead of a constant"""
    import spreg
    s = dict(s, R=max(2, min(s["R"], 18 // (s["d"]["k"] + 1))))         # White's test compares every pair of products, slowly
    n = s["n"]
    y, X = gen.build_xy(s["d"], n)
    k = X.shape[1]
    if s["xr"]:
        b = gen.rng(s["d"]["seed"], 33).integers(0, 2, n)
        X[:, 0] = b if s["xr"] == "bin" else 2 * b - 1
    lab = vreg.labels(s, n)
    vary = vreg.colmask(s, k) or [True] * k
    if s["const"] == "one" and not any(vary):
        raise Reject("nothing varies by regime")
    kw = {"cols2regi": list(vary)} if not all(vary) else {}
    C = ref.const(X)
    D = vreg.interact(C, [s["const"] == "many"] + list(vary), lab)
    if ref.cond(D) > 1e3 or D.shape[1] > n - 6:
        raise Reject("cond")
    vreg.enough(C, lab, C.shape[1] + 2)
    if ref.cond(ref.dedupe(D ** 2)) > 1e6:
        raise Reject("squared variables collinear without being equal")
    y = y + D @ np.linspace(-1, 1, D.shape[1]).reshape(-1, 1)
    if s["sep"]:
        if not all(vary) or s["const"] != "many":
            raise Reject("separate estimation needs separate coefficients")
        with sut("OLS_Regimes"):
            m = spreg.OLS_Regimes(y, X, vreg.box(s, lab), regime_err_sep=True, sig2n_k=s["k2n"], white_test=True)
        same("regimes with results", len(m.multi), len(set(lab)))
        for r, ix in vreg.masks(lab).items():
            key = [q for q in m.multi if str(q) in (str(r), str(int(r)) if isinstance(r, float) and r == int(r) else str(r))]
            same("results of regime %s" % r, len(key), 1)
            o = m.multi[key[0]]
            models = [(o, C[ix], ref.ols(y[ix], C[ix], s["k2n"]))]
            nonspatial(models[0], s)
        return {"labels": ["separate"]}
    with sut("OLS_Regimes"):
        m = spreg.OLS_Regimes(y, X, vreg.box(s, lab), regime_err_sep=False, constant_regi=s["const"], sig2n_k=s["k2n"], white_test=True, **kw)
    return {"labels": ["pooled"] + nonspatial((m, D, ref.ols(y, D, s["k2n"])), s, min(len(v) if v.dtype != bool else int(v.sum()) for v in vreg.masks(lab).values()) <= C.shape[1] * (C.shape[1] + 1) // 2 + 1)}


def nonspatial(z, s, saturated=False):      # saturated: a regime has fewer observations than products of regressors
    m, D, r = z
    n, k = D.shape
    u, e = r.u, r.u.ravel() ** 2
    ss = max(1.0, float((np.abs(r.predy).max() + 1) ** 2 / r.sig2n))
    tol = 1e-7 * min(ss, 1e4)
    labels = []
    same("jarque_bera df", m.jarque_bera["df"], 2)
    stat("jarque_bera", (m.jarque_bera["jb"], m.jarque_bera["pvalue"]), ref.jarque_bera(u), 2, rtol=tol)
    ci = ref.cond(D)
    eq("stored condition number", m.mulColli, ci, rtol=1e-5 if ci < 1e3 else 1e-2)
    bp, df, c1 = ref.breusch_pagan(u, D)
    if c1 < 1e5:
        same("breusch_pagan df", m.breusch_pagan["df"], df)
        stat("breusch_pagan", (m.breusch_pagan["bp"], m.breusch_pagan["pvalue"]), bp, df, rtol=tol * 10, atol=1e-7)
        kb, df, _ = ref.koenker_bassett(u, D)
        same("koenker_bassett df", m.koenker_bassett["df"], df)
        stat("koenker_bassett", (m.koenker_bassett["kb"], m.koenker_bassett["pvalue"]), kb, df, rtol=tol * 10, atol=1e-7)
    if ci < 29.999:
        ok(not isinstance(m.white, str), "White test refused at condition number %g" % ci)
        wh, df = aux(e, np.hstack([D] + [D[:, [i]] * D[:, [j]] for i in range(k) for j in range(i, k)]))
        if df < n - 4 and not saturated:
            same("white df", m.white["df"], df)
            stat("white", (m.white["wh"], m.white["pvalue"]), wh, df, rtol=max(tol * 10, 1e-5), atol=1e-6)
            labels.append("white")
    elif ci > 30.001:
        ok(isinstance(m.white, str), "White test computed despite condition number %g" % ci)
    want = r.f
    eq("f_stat", m.f_stat[0], want, rtol=tol * 100, atol=1e-6)
    eq("f_stat p", m.f_stat[1], stats.f.sf(float(m.f_stat[0]), k - 1, n - k), rtol=1e-9, atol=1e-14)
    eq("log likelihood", m.logll, r.logl, rtol=tol, scale=n), eq("akaike", m.aic, r.aic, rtol=tol, scale=n), eq("schwarz", m.schwarz, r.sc, rtol=tol, scale=n)
    return labels


SUBS = [Sub("wide", gen.wide(strat), run, quick=120, thorough=800),
        Sub("wide-regimes", gen.wide(strat_reg, ks=(4, 7)), run_reg, quick=64, thorough=400),
        Sub("ols_diagnostics", strat, run, quick=500, thorough=12000),
        Sub("dwh", strat_dwh, run_dwh, quick=250, thorough=5000),
        Sub("regimes", strat_reg, run_reg, quick=250, thorough=6000),
        Sub("lr", strat_lr, run_lr, quick=120, thorough=2000)]

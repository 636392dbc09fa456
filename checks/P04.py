"""Spatial dependence tests on OLS residuals."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from vlib import gen, ref
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "LM / Moran tests"
RULE = ("random designs (pure noise, lag, error, heteroskedastic processes) x nine weights families x transforms r,b,o,d,v,s; "
        "non-trivial = every statistic compared with residual-maker algebra")
ASSUMPTIONS = ["design and WX columns jointly of full rank (condition < 1e5)"]
DF = {"lme": 1, "lml": 1, "rlme": 1, "rlml": 1, "sarma": 2, "rlmdurlag": 1}


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(12, 70), "w": gen.w_spec(n=20, transforms=("r", "r", "b", "o", "d", "v", "s")),
        "d": gen.data_spec(k=st.integers(1, 4)), "slx": st.sampled_from([0, 0, 0, 1]), "k2n": st.booleans(),
        "which": st.lists(st.sampled_from(["lme", "lml", "rlme", "rlml", "sarma", "lmwx", "lmspdurbin", "rlmwx", "rlmdurlag",
                                           "lmslxerr"]), min_size=1, max_size=4, unique=True),
        "robust": st.sampled_from([None, None, "white"]), "wdiff": st.booleans(), "cst": st.booleans()})


def build(s):
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W)
    return n, w, W, y, X


def compare(name, got, o, key):
    df = DF.get(key, o.k - 1 if key in ("lmwx", "rlmwx") else o.k)
    tol = 1e-6
    stat(name, got, o[key], df, rtol=tol * max(1.0, o.tolmul), atol=1e-6 * max(1.0, o.tolmul))


def run(s):
    import spreg
    n, w, W, y, X = build(s)
    kw = {}
    C = ref.const(X)
    if s["slx"]:
        C = ref.cat(C, W @ X)
        kw = dict(w=w, slx_lags=1)
    WX = W @ C[:, 1:]
    k = C.shape[1]
    if ref.cond(C) > 1e4 or ref.cond(ref.cat(C, WX)) > 1e5 or 2 * k > n - 4:
        raise Reject("cond")
    o = ref.lm_tests(y, C, W)
    r = ref.ols(y, C)
    o.tolmul = float((y ** 2).mean() / r.sig2n) ** 0.5
    if r.r2 > 1 - 1e-10:
        raise Reject("perfect fit")
    with sut("OLS"):
        m0 = spreg.OLS(y, X, sig2n_k=s["k2n"], **kw)
        al = spreg.LMtests(m0, w)
        mo = spreg.MoranRes(m0, w, z=True)
        some = spreg.LMtests(m0, w, tests=list(s["which"]))
    for t in ("lme", "lml", "rlme", "rlml", "sarma", "lmwx", "lmspdurbin", "rlmwx", "rlmdurlag", "lmslxerr"):
        compare("LMtests." + t, getattr(al, t), o, t)
    for t in s["which"]:
        has(some, t)
        eq("LMtests(%s) alone == all" % t, getattr(some, t), getattr(al, t), rtol=1e-12)
    eq("Moran I", mo.I, o.I, rtol=1e-7, atol=1e-9 * o.tolmul)
    eq("Moran E[I]", mo.eI, o.EI, rtol=1e-7, atol=1e-10)
    eq("Moran Var[I]", mo.vI, o.VI, rtol=1e-6, atol=1e-10 * abs(o.VI) * o.tolmul)
    stat("Moran z", (mo.zI, mo.p_norm), o.zI, dist="norm", rtol=1e-6, atol=1e-7 * o.tolmul)
    # joint = robust + one-directional
    eq("sarma = rlml + lme", al.sarma[0], al.rlml[0] + al.lme[0], rtol=1e-9)
    eq("sarma = rlme + lml", al.sarma[0], al.rlme[0] + al.lml[0], rtol=1e-7, atol=1e-7)
    eq("durbin = rlmwx + lml", al.lmspdurbin[0], al.rlmwx[0] + al.lml[0], rtol=1e-9)
    eq("durbin = rlmdurlag + lmwx", al.lmspdurbin[0], al.rlmdurlag[0] + al.lmwx[0], rtol=1e-9)
    # stored diagnostics
    with sut("OLS(spat_diag)"):
        m = spreg.OLS(y, X, w=w, spat_diag=True, moran=True, sig2n_k=s["k2n"], robust=s["robust"],
                      **({"slx_lags": 1} if s["slx"] else {}))
    names = {"lm_error": "lme", "lm_lag": "lml", "rlm_error": "rlme", "rlm_lag": "rlml", "lm_sarma": "sarma"}
    if not s["slx"]:
        names.update({"lm_wx": "lmwx", "lm_spdurbin": "lmspdurbin", "rlm_wx": "rlmwx", "rlm_durlag": "rlmdurlag",
                      "lm_slxerr": "lmslxerr"})
    for a, t in names.items():
        has(m, a)
        eq("stored %s" % a, getattr(m, a), getattr(al, t), rtol=1e-9, atol=1e-9)
    eq("stored moran_res", m.moran_res, (o.I, o.zI, pnorm(o.zI)), rtol=1e-6, atol=1e-7 * o.tolmul)
    # the printed table carries them too
    def line(lbl, df, v, count=1):
        ls = [l for l in m.summary.splitlines() if l.startswith(lbl + " ")]
        ok(len(ls) >= count, "summary has no line %r" % lbl)
        for l in ls:
            f = l[len(lbl):].split()
            same("summary df of " + lbl, int(f[0]), df)
            same("summary value of " + lbl, f[1:], ["%.3f" % v[0], "%.4f" % v[1]])
    line("Lagrange Multiplier (error)", 1, m.lm_error)
    line("Robust LM (error)", 1, m.rlm_error)
    line("Robust LM (lag)", 1, m.rlm_lag)
    line("Lagrange Multiplier (lag)", 1, m.lm_lag)
    line("Lagrange Multiplier (SARMA)", 2, m.lm_sarma)
    if not s["slx"]:
        line("LM test for WX", k - 1, m.lm_wx)
        line("Robust LM WX test", k - 1, m.rlm_wx)
        line("Robust LM Lag - SDM", 1, m.rlm_durlag)
        line("Joint test for SDM", k, m.lm_spdurbin)
    ls = [l for l in m.summary.splitlines() if l.startswith("Moran's I (error)")]
    same("summary Moran", ls[0].split()[3:], ["%.4f" % m.moran_res[0], "%.3f" % m.moran_res[1], "%.4f" % m.moran_res[2]])
    return {"labels": [s["w"]["kind"], "t:" + s["w"]["t"], "slx%d" % s["slx"]]}


# ---------------------------------------------------------- Anselin-Kelejian (nosp)
def strat_ak():
    return st.fixed_dictionaries({
        "n": st.integers(20, 60), "w": gen.w_spec(n=20, transforms=("r", "b", "s")),
        "d": gen.data_spec(k=st.integers(1, 3)), "m": st.integers(1, 2), "extra": st.integers(0, 2), "gen": st.booleans()})


def run_ak(s):
    import spreg
    n, w, W, y, X = build(s)
    Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
    y = y + Ye.sum(1, keepdims=True) + u0
    C = ref.const(X)
    if ref.cond(ref.cat(C, Q)) > 1e4:
        raise Reject("cond")
    with sut("TSLS"):
        m = spreg.TSLS(y, X, Ye, Q, w=w, spat_diag=True)
        a = spreg.AKtest(m, w, case="gen" if s["gen"] else "nosp")
    r = ref.tsls(y, C, Ye, Q)
    if ref.cond(r.Zh) > 1e5:
        raise Reject("weak")
    S0 = W.sum()
    I = n / S0 * float((r.u.T @ W @ r.u).item()) / r.utu
    T = float(np.trace(W @ W + W.T @ W))
    g = W @ r.Z
    a1 = r.u.T @ g
    quad = float((a1 @ r.varb @ a1.T).item())
    phi2 = (T + 4 / r.sig2n * quad) / ((S0 / n) ** 2 * n)
    full = n * I ** 2 / phi2
    nosp = (float((r.u.T @ W @ r.u).item()) / r.sig2n) ** 2 / T
    want = full if s["gen"] else nosp
    eq("AKtest.mi", a.mi, I, rtol=1e-6, atol=1e-8)
    stat("AKtest", (a.ak, a.p), want, 1, rtol=1e-5, atol=1e-6)
    stat("stored ak_test", m.ak_test, full, 1, rtol=1e-5, atol=1e-6)
    ls = [l for l in m.summary.splitlines() if l.startswith("Anselin-Kelejian Test")]
    same("summary AK", ls[0].split()[2:], ["1", "%.3f" % m.ak_test[0], "%.4f" % m.ak_test[1]])
    return {"labels": ["gen" if s["gen"] else "nosp"]}


SUBS = [Sub("wide", gen.wide(strat), run, quick=120, thorough=800),
        Sub("lm", strat, run, quick=600, thorough=12000), Sub("ak", strat_ak, run_ak, quick=250, thorough=5000)]

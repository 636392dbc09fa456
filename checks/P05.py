"""Two-stage least squares."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "2SLS"
RULE = ("1-3 endogenous variables, 0-3 over-identifying instruments, 8 design families, divisors, robust options, containers, names, "
        "constant columns; non-trivial = identified, well-conditioned case compared with the projection formula")
ASSUMPTIONS = ["condition number of instruments < 1e4 and of projected regressors < 1e5"]


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(12, 80), "d": gen.data_spec(k=st.integers(1, 4)), "m": st.integers(1, 3), "extra": st.integers(0, 3),
        "k2n": st.booleans(), "robust": st.sampled_from([None, None, "white"]), "form": st.sampled_from(["array", "flat", "frame"]),
        "names": st.booleans(), "const": st.booleans(), "nonspat": st.booleans(), "vm": st.booleans(), "seed": gen.SEED,
        "w": gen.w_spec(n=20), "slx": st.sampled_from([0, 0, 0, 1, 2])})


def data(s):
    n = s["n"]
    y, X = gen.build_xy(s["d"], n)
    Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
    y = (y / s["d"]["yscale"] + Ye.sum(1, keepdims=True) + u0) * s["d"]["yscale"]
    return n, y, X, Ye, Q


def guard(y, C, Ye, Q, lim=1e5):
    H = ref.cat(C, Q)
    if H.shape[1] > H.shape[0] - 4 or ref.cond(H) > 1e4:
        raise Reject("ill conditioned instruments")
    r = ref.tsls(y, C, Ye, Q)
    if ref.cond(r.Zh) > lim:
        raise Reject("weak identification")
    return r


def run(s):
    import spreg
    n, y, X, Ye, Q = data(s)
    k = X.shape[1]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    C = ref.const(X)
    nx = ["x%d" % j for j in range(k)]
    nfull = ["CONSTANT"] + nx
    if s["slx"]:
        C = ref.cat(C, ref.lagpow(W, X, s["slx"]))
        for p in range(1, s["slx"] + 1):
            nfull += [("W_" if p == 1 else "W%d_" % p) + v for v in nx]
    guard(y, C, Ye, Q)
    r = ref.tsls(y, C, Ye, Q, robust=s["robust"], sig2n_k=s["k2n"])
    Xin, nin = X, list(nx)
    if s["const"]:
        Xin, nin = ref.cat(np.full((n, 1), 3.0), X), ["cc"] + nx
    yn, qn = ["e%d" % j for j in range(Ye.shape[1])], ["q%d" % j for j in range(Q.shape[1])]
    kw, a = {}, [y, Xin, Ye, Q]
    if s["names"] and s["form"] != "frame":
        kw = dict(name_y="yy", name_x=list(nin), name_yend=list(yn), name_q=list(qn))
    if s["form"] == "flat":
        a = [y.ravel(), Xin, Ye.ravel() if Ye.shape[1] == 1 else Ye, Q.ravel() if Q.shape[1] == 1 else Q]
    if s["form"] == "frame":
        a = [pd.Series(y.ravel(), name="yy"), pd.DataFrame(Xin, columns=nin), pd.DataFrame(Ye, columns=yn),
             pd.DataFrame(Q, columns=qn)]
    if s["slx"]:
        kw.update(w=w, slx_lags=s["slx"])
    with sut("TSLS"):
        m = spreg.TSLS(*a, robust=s["robust"], sig2n_k=s["k2n"], nonspat_diag=s["nonspat"], vm=s["vm"], **kw)
    se = np.sqrt(np.diag(r.vm))
    ys = float(np.abs(y).max())
    same("n,k", (m.n, m.k), (r.n, r.k))
    eq_coef("betas", m.betas, r.betas, se.reshape(-1, 1))
    eq("u", m.u, r.u, rtol=1e-7, scale=ys)
    eq("predy", m.predy, r.predy, rtol=1e-7, scale=ys)
    eq("sig2", m.sig2, r.sig2, rtol=1e-6)
    eq("sig2n", m.sig2n, r.sig2n, rtol=1e-6)
    eq("sig2n_k", m.sig2n_k, r.sig2n_k, rtol=1e-6)
    eq_vm("vm", m.vm, r.vm, rtol=1e-5)
    eq("pr2", m.pr2, ref.pr2(y, r.predy), rtol=1e-6, atol=1e-9)
    # first-order condition of the projection problem
    foc = r.Zh.T @ arr(m.u)
    eq("Zhat'u = 0", foc, np.zeros_like(foc), atol=1e-7 * 1.0, scale=0, rtol=0) if ys * n < 1 else \
        eq("Zhat'u = 0", foc / (np.sqrt((r.Zh ** 2).sum(0)).reshape(-1, 1) * ys * np.sqrt(n)), np.zeros_like(foc), atol=1e-8)
    inference(m, "z")
    if s["names"] or s["form"] == "frame":
        same("name_z", list(m.name_z), nfull + yn)
        same("name_h", list(m.name_h), nfull + qn)
        same("name_y", m.name_y, "yy")
        table(m, nfull + yn)
    else:
        table(m, list(m.name_z))
    eq("h", m.h, r.H, rtol=1e-10)
    eq("z", m.z, r.Z, rtol=1e-10)
    lb = ["exact" if s["extra"] == 0 else "over", "m%d" % s["m"], s["form"], "slx%d" % s["slx"]]
    return {"labels": lb}


def strat_id():
    return st.fixed_dictionaries({
        "n": st.integers(12, 60), "d": gen.data_spec(k=st.integers(1, 3)), "m": st.integers(1, 3), "extra": st.integers(0, 3),
        "k2n": st.booleans(), "robust": st.sampled_from([None, "white"]), "seed": gen.SEED})


def run_id(s):
    """identities: q=yend is OLS; exact identification is IV; recoding/permuting instruments is irrelevant"""
    import spreg
    n, y, X, Ye, Q = data(s)
    C = ref.const(X)
    guard(y, C, Ye, Q)
    if ref.cond(ref.cat(C, Ye)) > 1e4:
        raise Reject("cond")
    g = gen.rng(s["seed"], 3)
    kw = dict(sig2n_k=s["k2n"], robust=s["robust"])
    with sut("TSLS"):
        a = spreg.TSLS(y, X, Ye, Ye.copy(), nonspat_diag=False, **kw)
        o = spreg.OLS(y, np.hstack([X, Ye]), nonspat_diag=False, **kw)
        m = spreg.TSLS(y, X, Ye, Q, **kw)
        L = Q.shape[1]
        pm = g.permutation(L)
        T = np.eye(L) + 0.4 * g.uniform(-1, 1, (L, L))
        if np.linalg.cond(T) > 30:
            T = np.eye(L)
        m2 = spreg.TSLS(y, X, Ye, (Q @ T)[:, pm] * g.uniform(0.1, 10, (1, L)), nonspat_diag=False, **kw)
    se = np.sqrt(np.diag(arr(o.vm))).reshape(-1, 1)
    eq_coef("2SLS with q=yend == OLS", a.betas, arr(o.betas), se)
    eq_vm("2SLS with q=yend == OLS (vm)", a.vm, arr(o.vm), rtol=1e-5)
    se = np.sqrt(np.diag(arr(m.vm))).reshape(-1, 1)
    eq_coef("betas after recoding instruments", m2.betas, arr(m.betas), se, rtol=1e-5)
    eq_vm("vm after recoding instruments", m2.vm, arr(m.vm), rtol=1e-4)
    if s["extra"] == 0:
        H, Z = ref.cat(C, Q), ref.cat(C, Ye)
        eq_coef("IV estimator", m.betas, np.linalg.solve(H.T @ Z, H.T @ y), se, rtol=1e-5)
    return {"labels": ["exact" if s["extra"] == 0 else "over"]}


SUBS = [Sub("wide", gen.wide(strat), run, quick=120, thorough=800),
        Sub("reference", strat, run, quick=700, thorough=15000), Sub("identities", strat_id, run_id, quick=300, thorough=6000)]

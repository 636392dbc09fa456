"""White / HAC sandwich covariance."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "White and HAC covariance"
RULE = ("random designs for OLS, 2SLS, spatial-lag 2SLS; kernels over random points (triangular, uniform, quadratic, "
        "quartic, gaussian; fixed/adaptive; shuffled ids); non-trivial = robust fit completed and its covariance was compared with a "
        "per-observation double loop")
ASSUMPTIONS = ["equilibrated condition number of regressors and instruments < 1e5"]


def kern(s):
    from libpysal.weights import Kernel
    n = s["n"]
    g = gen.rng(s["kseed"], 77)
    pts = g.random((n, 2)) * 10
    if s["kid"]:
        kw = {"bandwidth": 1e-9}
    elif s["kfix"]:
        kw = {"bandwidth": float(g.uniform(1, 4))}
    else:
        kw = {"fixed": False, "k": int(g.integers(2, 6))}
    return Kernel(pts, function=s["kfun"], diagonal=True, **kw)


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(15, 60),
        "model": st.sampled_from(["ols", "tsls", "lag", "lagend"]),
        "robust": st.sampled_from(["white", "hac", "hac"]),
        "k2n": st.booleans(),
        "w": gen.w_spec(n=20, transforms=("r", "b", "o")),
        "d": gen.data_spec(k=st.integers(1, 3), rho=st.sampled_from([0.0, 0.4])),
        "m": st.integers(1, 2), "extra": st.integers(0, 2),
        "kseed": gen.SEED, "kfix": st.booleans(), "kid": st.sampled_from([False, False, False, True]),
        "kfun": st.sampled_from(["triangular", "uniform", "quadratic", "quartic", "gaussian"]),
        "lagq": st.booleans(), "wl": st.integers(1, 2),
        "case": st.booleans(),
    })


def run(s):
    import spreg
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W if s["model"].startswith("lag") else None)
    Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
    C = ref.const(X)
    gwk = kern(s) if s["robust"] == "hac" else None
    K = ref.kernel_dense(gwk) if gwk is not None else None
    kw = dict(robust=s["robust"], gwk=gwk, sig2n_k=s["k2n"])
    if s["model"] == "ols":
        Zf, H, Yx = C, C, None
    elif s["model"] == "tsls":
        y = y + Ye.sum(1, keepdims=True) + u0
        Yx, Qx = Ye, Q
    else:
        if s["model"] == "lagend":
            y = y + Ye.sum(1, keepdims=True) + u0
            L = ref.cat(X, Q) if s["lagq"] else X
            Qx = ref.cat(Q, ref.lagpow(W, L, s["wl"]))
            Yx = ref.cat(Ye, W @ y)
        else:
            Qx, Yx = ref.lagpow(W, X, s["wl"]), W @ y
    if s["model"] != "ols":
        H = ref.cat(C, Qx)
    if H.shape[1] >= n - 3 or ref.cond(H) > 1e4:
        raise Reject("ill conditioned instruments")
    if s["model"] == "ols":
        r = ref.ols(y, C, s["k2n"])
        if s["robust"] == "white":
            V = ref.white_vm(C, r.u, r.xtxi, dfc=r.k if s["k2n"] else False)
        else:
            V = ref.hac_vm(C, r.u, K, r.xtxi)
        Vw = ref.white_vm(C, r.u, r.xtxi)
        call = lambda **q: spreg.OLS(y, X, **q)
    else:
        r = ref.tsls(y, C, Yx, Qx, robust=s["robust"], K=K, sig2n_k=s["k2n"])
        if ref.cond(r.Zh) > 1e5:
            raise Reject("weak identification")
        if s["model"].startswith("lag") and not ref.expandable(W, float(r.betas[-1, 0])):
            raise Reject("reduced form not expandable")
        V = r.vm
        Vw = ref.white_vm(r.Zh, r.u, r.varb)
        if s["model"] == "tsls":
            call = lambda **q: spreg.TSLS(y, X, Ye, Q, **q)
        elif s["model"] == "lag":
            call = lambda **q: spreg.GM_Lag(y, X, w=w, w_lags=s["wl"], **q)
        else:
            call = lambda **q: spreg.GM_Lag(y, X, yend=Ye, q=Q, w=w, w_lags=s["wl"], lag_q=s["lagq"], **q)
    with sut(s["model"]):
        m0 = call(sig2n_k=s["k2n"])
        m = call(**kw)
    tol = 1e-6
    eq_coef("coefficients do not depend on the robust option", m.betas, arr(m0.betas), 0, rtol=1e-10)
    eq_coef("betas", m.betas, r.betas, np.sqrt(np.diag(V)).reshape(-1, 1) + np.sqrt(np.diag(r.sig2 * (r.xtxi if s["model"] == "ols" else r.varb))).reshape(-1, 1), rtol=tol)
    D = np.sqrt(np.abs(np.diag(Vw)))
    eq("robust vm", m.vm, V, rtol=tol * 10, scale=np.outer(D, D))
    dg = np.diag(V)
    if (dg > 1e-9 * D * D).all():
        inference(m, "t" if s["model"] == "ols" else "z")
    if s["kid"] and s["robust"] == "hac":
        eq("HAC with identity kernel == White", m.vm, Vw, rtol=tol, scale=np.outer(D, D))
    same("robust label", m.robust, s["robust"])
    return {"labels": [s["model"] + "/" + s["robust"], s["kfun"] if gwk is not None else "nokernel",
                       "identity" if s["kid"] and gwk is not None else "kernel"]}


SUBS = [Sub("wide", gen.wide(strat), run, quick=120, thorough=800),
        Sub("sandwich", strat, run, quick=600, thorough=12000)]

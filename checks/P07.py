"""slx_lags / slx_vars == adding the lagged regressors by hand."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref, names, zoo
from vlib.core import Sub, sut, series_ok, Reject
from vlib.cmp import *

TITLE = "SLX"
RULE = ("every estimator of the catalogue that takes slx_lags x lag orders 0-3 x variable selections x weights families and transforms x containers; "
        "non-trivial = model with at least one lagged regressor compared with the hand-augmented model")
ASSUMPTIONS = ["augmented design has equilibrated condition < 1e3",
               "spatial-lag GMM estimators are compared with the endogenous-error estimator given the documented instruments"]

PLAIN = [e.name for e in zoo.ZOO.values() if e.slx and not (e.lag and "ml" not in e.kind) and not e.reg]
LAGGM = [e.name for e in zoo.ZOO.values() if e.slx and e.lag and "ml" not in e.kind and not e.reg]
REGS = [e.name for e in zoo.ZOO.values() if e.slx and e.reg and not e.lag] + ["ML_Lag_Regimes", "ML_Lag_Regimes_sep"]


def strat(pool):
    def f():
        return st.fixed_dictionaries({
            "est": st.sampled_from(pool), "n": st.integers(40, 90), "w": gen.w_spec(n=20, transforms=("r", "r", "r", "s", "b")),
            "d": gen.data_spec(k=st.integers(1, 3), xkinds=["normal", "uniform", "corr", "dummy", "int"]), "slx": st.sampled_from([1, 1, 2, 3, 0]), "sel": st.integers(0, 7),
            "frame": st.booleans(), "R": st.integers(2, 3)})
    return f


def setup(s):
    e = zoo.ZOO[s["est"]]
    c = zoo.make(s, probit=e.kind == "probit", regimes=e.reg, endog=e.endog, R=s.get("R", 2))
    k = c.k
    nx = ["x%d" % j for j in range(k)]
    msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
    use = any(msk) and not all(msk) and e.slxvars and not s["frame"] or (any(msk) and not all(msk) and e.slxvars)
    if e.reg and e.lag:
        use = False     # see P15/P17
    sel = msk if use else None
    sn = [v for v, b in zip(nx, msk) if b] if use else nx
    base = {v: c.x[:, [j]] for j, v in enumerate(nx)}
    lag = names.lagnames(sn, s["slx"])
    XA = ref.cat(c.x, *[names.col(v, base, c.W) for v in lag]) if lag else c.x
    kk = XA.shape[1] + 2
    if ref.cond(ref.const(XA)) > 1e3 or kk > c.n / 4:
        raise Reject("ill-conditioned design")
    if e.reg:
        for r in set(c.regimes):
            m = np.array([v == r for v in c.regimes])
            if m.sum() < kk + 6 or ref.cond(ref.const(XA[m])) > 1e3:
                raise Reject("ill-conditioned regime")
    if "gwk" in e.needs:
        c.gwk = zoo.kernel(c.n, s["d"]["seed"])
    return e, c, nx, sel, lag, XA


def same_fit(a, b, tol, what=""):
    eq_vm(what + "vm", a.vm, arr(b.vm), rtol=max(1e-6, 3 * tol))
    se = np.sqrt(np.abs(np.diag(arr(b.vm))))
    bb = arr(b.betas).ravel()
    se = np.concatenate([se, np.full(max(0, bb.size - se.size), 0.1)])[:bb.size]
    eq_coef(what + "betas", arr(a.betas).ravel(), bb, se, rtol=tol)
    ys = np.abs(arr(b.y)).max() if hasattr(b, "y") and b.y is not None else None
    for at in ("u", "predy", "e_filtered", "predy_e", "e_pred"):
        if hasattr(b, at) and getattr(b, at) is not None:
            has(a, at)
            v = arr(getattr(b, at))
            eq(what + at, getattr(a, at), v, rtol=tol, scale=max(np.abs(v).max(), ys or 0))
    for at in ("sig2", "logll", "aic", "schwarz", "r2", "ar2", "pr2", "pr2_e", "utu", "mean_y", "std_y"):
        if hasattr(b, at) and getattr(b, at) is not None and not callable(getattr(b, at)):
            has(a, at)
            eq(what + at, getattr(a, at), getattr(b, at), rtol=tol, atol=1e-7)


def separable(c, XA):
    """binary outcome perfectly or nearly predicted -> the MLE is at infinity"""
    b = ref.lsq(ref.const(XA), c.y)[0]
    f = ref.const(XA) @ b
    m = c.y.mean()
    return m < 0.15 or m > 0.85 or f[c.y == 1].min() > f[c.y == 0].max() - 0.15


def run(s):
    e, c, nx, sel, lag, XA = setup(s)
    if e.kind == "probit" and separable(c, XA):
        raise Reject("separable")
    kw = dict(slx_lags=s["slx"])
    if sel is not None:
        kw["slx_vars"] = sel
    c1 = c.copy()
    c1.names = {"name_x": list(nx), "name_y": "yy"}
    if s["frame"]:
        c1.names = {}
        c1.x, c1.y = pd.DataFrame(c.x, columns=nx), pd.Series(c.y.ravel(), name="yy")
    with series_ok(c.W), sut(e.name + " with slx_lags"):
        a = e.call(c1, **kw)
    c2 = c.copy()
    c2.x, c2.names = XA, {"name_x": nx + lag, "name_y": "yy"}
    with sut(e.name + " on augmented X"):
        b = e.call(c2)
    same_fit(a, b, max(e.tol, 1e-7), e.name + " slx=%d: " % s["slx"])
    same(e.name + ": reported names", list(a.output["var_names"]), list(b.output["var_names"]))
    eq("output coefficients", a.output["coefficients"].astype(float).to_numpy(), b.output["coefficients"].astype(float).to_numpy(), rtol=max(e.tol, 1e-6) * 10, atol=1e-6)
    if not e.reg:
        want = ["CONSTANT"] + nx + lag
        same("leading names", list(a.name_x)[:len(want)], want)
    return {"labels": [e.name, "slx%d%s" % (s["slx"], "sel" if sel else "")], "nontrivial": s["slx"] > 0}


PAIR = {"GM_Combo": "GM_Endog_Error", "GM_Combo_end": "GM_Endog_Error", "GM_Combo_Hom": ("GM_Endog_Error_Hom", dict(A1="hom")),
        "GM_Combo_Hom_end": "GM_Endog_Error_Hom", "GM_Combo_Het": "GM_Endog_Error_Het",
        "GM_Combo_Het_end": ("GM_Endog_Error_Het", dict(step1c=True)), "GMM_Error_lag": "GM_Endog_Error_Hom"}


def run_lag(s):
    """lag + SLX GMM == the endogenous-variable estimator with W y and the documented instruments"""
    import spreg
    e, c, nx, sel, lag, XA = setup(s)
    if s["est"] not in PAIR:
        raise Reject("covered by P06")
    p = PAIR[s["est"]]
    p, opt = (p, {}) if isinstance(p, str) else p
    n = c.n
    q0 = c.q if e.endog else np.zeros((n, 0))
    base = {v: c.x[:, [j]] for j, v in enumerate(nx)}
    inst = ref.cat(q0, *[names.col(v, base, c.W) for v in names.lagnames(nx, 1, s["slx"] + 1)], c.W @ q0)
    yend = ref.cat(*([c.yend] if e.endog else []), c.W @ c.y)
    H = ref.cat(ref.const(XA), inst)
    if H.shape[1] > n / 3 or ref.cond(H) > 1e3:
        raise Reject("ill-conditioned instruments")
    r = ref.tsls(c.y, ref.const(XA), yend, inst)
    if ref.cond(r.Zh) > 1e3 or not ref.expandable(c.W, float(r.betas[-1, 0])):
        raise Reject("weak identification")
    kw = dict(slx_lags=s["slx"])
    if sel is not None:
        kw["slx_vars"] = sel
    c1 = c.copy()
    c1.names = {"name_x": list(nx), "name_y": "yy"}
    with series_ok(c.W), sut(e.name + " with slx_lags"):
        a = e.call(c1, **kw)
    with sut(p):
        b = getattr(spreg, p)(c.y, XA, yend, inst, w=c.w, **opt)
    eq("h", a.h, b.h, rtol=1e-9) if hasattr(a, "h") and hasattr(b, "h") else None
    t = max(e.tol, 1e-6)
    what = "%s slx=%d: " % (e.name, s["slx"])
    se = np.sqrt(np.abs(np.diag(arr(b.vm))))
    bb = arr(b.betas).ravel()
    se = np.concatenate([se, np.full(max(0, bb.size - se.size), 0.1)])[:bb.size]
    eq_coef(what + "betas", arr(a.betas).ravel(), bb, se, rtol=t)
    eq_vm(what + "vm", a.vm, arr(b.vm), rtol=10 * t)
    ys = np.abs(c.y).max()
    eq(what + "u", a.u, arr(b.u), rtol=t * 10, scale=ys)
    eq(what + "e_filtered", a.e_filtered, arr(b.e_filtered), rtol=t * 10, scale=ys)
    want = ["CONSTANT"] + nx + lag
    same("leading names", list(a.name_x)[:len(want)], want)
    return {"labels": [e.name, "slx%d%s" % (s["slx"], "sel" if sel else "")], "nontrivial": s["slx"] > 0}


SUBS = [Sub("wide", gen.wide(strat(PLAIN)), run, quick=90, thorough=600),
        Sub("augment", strat(PLAIN), run, quick=800, thorough=12000),
        Sub("augment_regimes", strat(REGS), run, quick=500, thorough=8000),
        Sub("lag_gmm", strat([x for x in LAGGM if x in PAIR]), run_lag, quick=300, thorough=6000)]

"""GMM_Error and the regimes= switch select the right estimator and forward every option."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, zoo
from vlib.core import Sub, sut, series_ok, Reject
from vlib.cmp import *

TITLE = "Dispatch"
RULE = ("general entry point x error structure x endogenous x lag x regimes x forwarded options, and five classes with regimes=, each compared attribute "
        "by attribute (and summary text) with the specific class called directly; non-trivial = at least one non-default option forwarded")
ASSUMPTIONS = ["options the specific class does not have (vif, nonspat_diag of 2SLS) are outside the claim"]


def base(regimes):
    return {"n": st.integers(40, 80), "w": gen.w_spec(n=20, transforms=("r", "r", "s")),
            "d": gen.data_spec(k=st.integers(1, 3), xkinds=["normal", "uniform", "corr", "dummy"]),
            "m": st.sampled_from([1, 1, 2]), "extra": st.integers(0, 1), "sel": st.integers(0, 7),
            "named": st.booleans(), "vm": st.booleans(), "latex": st.sampled_from([False, False, True]), "nm": st.integers(0, 31)}


REG = {"R": st.integers(2, 3), "const": st.sampled_from(["many", "one"]), "cols": st.integers(0, 15), "errsep": st.booleans(),
       "lagsep": st.sampled_from([False, False, True])}


def data(s, endog, regimes, slx):
    c = zoo.make(s, regimes=regimes, endog=endog, R=s.get("R", 2))
    k = c.k
    X = c.x
    D = np.hstack([ref.const(X)] + [np.linalg.matrix_power(c.W, p) @ X for p in range(1, slx + 1)])
    if ref.cond(D) > 500:
        raise Reject("ill-conditioned design")
    if regimes:
        kk = D.shape[1] + (s["m"] if endog else 0) + 2
        lab = np.array([str(v) for v in c.regimes])
        for r in set(lab):
            if (lab == r).sum() < kk + 8 or ref.cond(D[lab == r]) > 500:
                raise Reject("ill-conditioned regime")
    return c


def common(s, c, endog):
    kw = dict(vm=s["vm"], latex=s["latex"])
    b = s["nm"]
    if s["named"]:
        kw.update(name_y="why", name_x=["x%d" % j for j in range(c.k)])
        if endog:
            kw.update(name_yend=["e%d" % j for j in range(c.yend.shape[1])], name_q=["q%d" % j for j in range(c.q.shape[1])])
    if b & 1:
        kw["name_w"] = "my weights"
    if b & 2:
        kw["name_ds"] = "my data"
    return kw


def regopts(s, c, endog, slx, lag=False):
    kw = {}
    b = s["cols"]
    if s["const"] == "one":
        kw["constant_regi"] = "one"
    sv = slxvars(s, c.k)
    kx = c.k + slx * (c.k if sv is None else sum(sv)) + (c.yend.shape[1] if endog else 0)
    if b and (lag or not slx) and kx >= 1:
        kw["cols2regi"] = [bool((b >> (j % 4)) & 1) or j == 0 for j in range(kx)]
    if s["nm"] & 8:
        kw["name_regimes"] = "the regime"
    return kw


def slxvars(s, k):
    m = [bool((s["sel"] >> j) & 1) for j in range(k)]
    return m if any(m) and not all(m) else None


def both(what, f, g, W, skip=()):
    """run wrapper and direct call; both may fail, only together"""
    ra = rb = None
    try:
        b = g()
    except Exception as e:
        rb = e
    try:
        a = f()
    except Exception as e:
        ra = e
    if rb is not None:
        if ra is None:
            ok(False, "%s: returned a model where the direct call raises %r" % (what, rb))
        raise Reject("direct call raises %s" % type(rb).__name__)
    if ra is not None:
        ok(False, "%s raised %r where the direct call returns a model" % (what, ra))
    eq_result(a, b, what=what + ": ", skip=skip)
    return a, b


SPEC = {"het": ("GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het"), "hom": ("GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom"),
        "kp98": ("GM_Error", "GM_Endog_Error", "GM_Combo")}


def gmm_opts(s, which, lag):
    kw = {}
    if which == "het":
        if s["iters"] > 1:
            kw["max_iter"] = s["iters"]
        if s["o1"]:
            kw["step1c"] = True
    elif which == "hom":
        if s["iters"] > 1:
            kw["max_iter"] = s["iters"]
        if s["o1"]:
            kw["A1"] = "hom"
    if lag:
        if s["wl"] > 1:
            kw["w_lags"] = s["wl"]
        if s["o2"]:
            kw["lag_q"] = False
    return kw


def run_gmm(s):
    import spreg
    endog, wy, est, reg = s["endog"], s["wy"], s["est"], s["reg"]
    slx = s["slx"] if not (reg and (endog or wy)) else 0
    c = data(s, endog, reg, slx)
    kw = common(s, c, endog)
    which = est if est in SPEC else "het"
    kind = 2 if wy else 1 if endog else 0
    bad = est not in SPEC
    if bad:           # documented fallback: the default estimator with a warning
        kind = 0
    name = SPEC[which][kind]
    opt = {} if bad else gmm_opts(s, which, kind == 2)
    if slx:
        opt["slx_lags"] = slx
        sv = slxvars(s, c.k)
        if sv is not None:
            opt["slx_vars"] = sv
    if s["hard"] and not (reg and which == "kp98"):
        opt["hard_bound"] = True
    if reg:
        opt.update(regopts(s, c, endog, slx))
        if not bad:
            opt["regime_err_sep"] = s["errsep"]
            if wy:
                opt["regime_lag_sep"] = s["lagsep"]
        name += "_Regimes"
    a = dict(y=c.y, x=c.x, w=c.w)
    if endog:
        a.update(yend=c.yend, q=c.q)
    d = dict(a)
    kd = dict(kw)
    if kind == 0:
        d.pop("yend", None), d.pop("q", None), kd.pop("name_yend", None), kd.pop("name_q", None)
    wrap = dict(a, **kw, **opt)
    if reg:
        wrap["regimes"] = d["regimes"] = c.regimes
    if not (est == "het" and s["nm"] & 16):
        wrap["estimator"] = est
    if wy:
        wrap["add_wy"] = True
    if bad and reg:
        opt.pop("hard_bound", None), wrap.pop("hard_bound", None), opt.pop("slx_vars", None), wrap.pop("slx_vars", None)
    what = "GMM_Error(%s%s%s%s)" % (est, ", yend" if endog else "", ", add_wy" if wy else "", ", regimes" if reg else "")
    skip = ("summary", "warning") if bad else ()
    m, b = both(what, lambda: spreg.GMM_Error(**wrap), lambda: getattr(spreg, name)(**d, **kd, **opt), c.W, skip=skip)
    if bad:
        ok("not allowed" in m.summary or "not allowed" in str(getattr(m, "warning", "")), what + ": no warning for an unknown estimator")
        b0 = getattr(spreg, name)(**d, **kd, **opt)
        for ln in b0.summary.splitlines():
            ok(ln in m.summary, what + ": summary lacks %r" % ln)
    if reg:
        both("GMM_Error_Regimes" + what[9:], lambda: spreg.GMM_Error_Regimes(**wrap), lambda: getattr(spreg, name)(**d, **kd, **opt), c.W, skip=skip)
    return {"labels": [name, "bad" if bad else "ok", "slx%d" % slx], "nontrivial": bool(opt) or bool(kw)}


CLS = {"OLS": "OLS_Regimes", "TSLS": "TSLS_Regimes", "GM_Lag": "GM_Lag_Regimes", "ML_Lag": "ML_Lag_Regimes", "ML_Error": "ML_Error_Regimes"}


def run_reg(s):
    import spreg
    name = s["cls"]
    endog = name == "TSLS" or (name == "GM_Lag" and s["endog"])
    lag = name in ("GM_Lag", "ML_Lag")
    slx = s["slx"]
    c = data(s, endog, True, slx)
    kw = common(s, c, endog)
    opt = regopts(s, c, endog, slx, lag)
    o = s["nm"]
    if slx:
        opt["slx_lags"] = slx
        sv = slxvars(s, c.k)
        if sv is not None:
            opt["slx_vars"] = sv
    if lag:
        opt["regime_lag_sep"] = s["lagsep"]
    if not name == "ML_Lag":
        opt["regime_err_sep"] = s["errsep"]
    if name in ("OLS", "TSLS", "GM_Lag"):
        opt["robust"] = s["robust"]
        opt["sig2n_k"] = s["o1"]
        if s["robust"] == "hac":
            opt["gwk"] = zoo.kernel(c.n, s["d"]["seed"])
            if o & 4:
                opt["name_gwk"] = "my kernel"
    if name == "OLS":
        opt.update(nonspat_diag=s["o2"], spat_diag=s["o3"], moran=s["o3"] and s["o1"], white_test=s["hard"])
    elif name == "TSLS":
        opt.update(spat_diag=s["o3"])
    elif name == "GM_Lag":
        opt.update(spat_diag=s["o3"], spat_impacts=["simple", "full", "power", "all", None][s["iters"]], w_lags=s["wl"], lag_q=s["o2"], hard_bound=s["hard"])
    else:
        opt.update(method=["full", "FULL", "LU", "ord"][s["iters"] % 4], epsilon=[1e-7, 1e-5][s["hard"]])
        if name == "ML_Lag":
            opt.update(spat_diag=s["o3"], spat_impacts=["simple", "full", "power", "all", None][s["iters"]])
    a = dict(y=c.y, x=c.x, regimes=c.regimes, w=c.w, **kw, **opt)
    if endog:
        a.update(yend=c.yend, q=c.q)
    m, b = both("%s(regimes=)" % name, lambda: getattr(spreg, name)(**a), lambda: getattr(spreg, CLS[name])(**dict({"slx_vars": "All"} if slx and lag else {}, **a)), c.W)
    same("class of the result", type(m).__name__, CLS[name])
    return {"labels": [name, "slx%d" % slx, str(s["robust"])], "nontrivial": True}


OPT = {"endog": st.booleans(), "slx": st.sampled_from([0, 0, 1, 1, 2]), "o1": st.booleans(), "o2": st.booleans(), "o3": st.booleans(), "hard": st.booleans(),
       "iters": st.integers(0, 4), "wl": st.sampled_from([1, 1, 2])}
SUBS = [Sub("gmm", lambda: st.fixed_dictionaries(dict(base(False), **OPT, **REG, est=st.sampled_from(["het", "hom", "kp98", "het", "hom", "kp98", "foo"]),
                                                      wy=st.booleans(), reg=st.booleans())), run_gmm, quick=450, thorough=9000),
        Sub("regimes", lambda: st.fixed_dictionaries(dict(base(True), **OPT, **REG, cls=st.sampled_from(sorted(CLS)),
                                                          robust=st.sampled_from([None, "white", "hac"]))), run_reg, quick=450, thorough=9000)]

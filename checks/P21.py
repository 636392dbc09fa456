"""Panel LM tests, Baltagi-Song-Koh tests and the spatial Hausman test."""
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import gen, ref, panel
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "Panel diagnostics"
RULE = ("N x T x k panels in five data layouts x nine weights families x every subset of the Baltagi-Song-Koh tests on five classes of fitted models; "
        "non-trivial = statistic, degrees of freedom and p-value recomputed by dense Kronecker algebra")
ASSUMPTIONS = ["equilibrated condition of the regressors below 1e4", "the models the tests start from are those judged by P19 and P20",
               "PanelFE without constant: conditional random-effects test not judged"]
NAMES = {"LM1": "LM Marginal RE (LM1)", "LM2": "LM Marginal Spatial (LM2)", "LMJ": "LM Joint (LMJ)", "LMC_spatial": "LM Conditional Spatial", "LMC_RE": "LM Conditional RE"}
ORDER = ["LM1", "LM2", "LMJ", "LMC_spatial", "LMC_RE"]


def good(M, lim=1e4):
    if M.shape[1] > M.shape[0] / 3 or ref.cond(M) > lim:
        raise Reject("ill-conditioned")
    return M


def strat():
    return st.fixed_dictionaries(dict(panel.spec(slx=(0,), transforms=("r", "r", "s", "o")), order=st.permutations(range(4))))


def pair(what, got, val, rtol=1e-6):
    ok(len(got) == 2, "%s does not return a pair" % what)
    eq(what, got[0], val, rtol=rtol, atol=1e-10)
    eq("p-value of " + what, got[1], stats.chi2.sf(float(got[0]), 1), rtol=1e-6, atol=1e-14)


def run_lm(s):
    from spreg import diagnostics_panel as dp
    c = panel.build(s)
    X = good(ref.const(c.X))
    r = ref.ols(c.y, X)
    s2, e, T = r.sig2n_k, r.u, c.T
    tr = np.trace(c.W.T @ c.W + c.W @ c.W)
    if r.utu < 1e-12 * float((c.y ** 2).sum()):
        raise Reject("perfect fit")
    eWe = (e.T @ c.WT @ e).item() / s2
    eWy = (e.T @ c.WT @ c.y).item() / s2
    g = c.WT @ (X @ r.betas)
    q = g - X @ (r.xtxi @ (X.T @ g))
    J = float((q ** 2).sum()) / s2 + T * tr
    Jc = float((q ** 2).sum()) / s2 + tr * tr          # as computed by panel_LMlag, a recorded finding
    f = ["panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror"]
    ref_ = {"panel_LMerror": eWe ** 2 / (T * tr), "panel_LMlag": eWy ** 2 / J}
    known = []
    small = J - T * tr < 1e-6 * J
    if not small:
        ref_["panel_rLMlag"] = (eWy - eWe) ** 2 / (J - T * tr)
        ref_["panel_rLMerror"] = (eWe - T * tr / J * eWy) ** 2 / (T * tr * (1 - T * tr / J))
    for i in s["order"]:
        y, x, kw, nm, yn = panel.args(s, c)
        with sut(f[i]):
            got = getattr(dp, f[i])(y, x, c.w)
        if f[i] not in ref_:
            continue
        if f[i] == "panel_LMlag" and abs(float(got[0]) - eWy ** 2 / Jc) <= 1e-6 * eWy ** 2 / Jc and abs(J - Jc) > 1e-4 * J:
            known = [("panel-lmlag", "panel_LMlag = %.6g, not %.6g" % (float(got[0]), eWy ** 2 / J))]
            pair(f[i], got, eWy ** 2 / Jc)
        else:
            pair(f[i], got, ref_[f[i]], rtol=1e-6 if "r" != f[i][6] else 1e-6 * max(1.0, J / (J - T * tr)))
    return {"labels": [s["lay"], "w:" + s["w"]["t"]], "nontrivial": not small, "known": known}


# ------------------------------------------------------------------ Baltagi, Song and Koh
def bsk_ref(c, X, which, re=None, sem=None):
    """re: residuals of the random-effects model; sem: (lambda, residuals) of the pooled error model"""
    N, T, W = c.N, c.T, c.W
    o = {}
    b = np.trace(W.T @ W + W @ W)
    u = c.y - X @ ref.lsq(X, c.y)[0]
    uu = float((u ** 2).sum())
    kr = np.kron
    JT, ET = np.ones((T, T)) / T, np.eye(T) - np.ones((T, T)) / T
    q = lambda a, M: (a.T @ M @ a).item()
    o["LM1"] = np.sqrt(N * T / (2.0 * (T - 1))) * (q(u, kr(np.ones((T, T)), np.eye(N))) / uu - 1)
    o["LM2"] = np.sqrt(N * N * T / b) * q(u, kr(np.eye(T), (W + W.T) / 2)) / uu
    a1, a2 = max(0.0, o["LM1"]), max(0.0, o["LM2"])
    o["LMJ"] = a1 ** 2 + a2 ** 2
    p = {}
    if a1 and a2:
        p["LMJ"] = 0.5 * stats.chi2.sf(o["LMJ"], 1) + 0.25 * stats.chi2.sf(o["LMJ"], 2)
    else:
        p["LMJ"] = 0.5 * stats.chi2.sf(o["LMJ"], 1) if a1 + a2 > 0 else 1.0
    if re is not None:
        e = re
        sv, s1 = q(e, kr(ET, np.eye(N))) / (N * (T - 1)), q(e, kr(JT, np.eye(N))) / N
        D = 0.5 * q(e, sv / s1 ** 2 * kr(JT, W.T + W) + kr(ET, W.T + W) / sv)
        o["LMC_spatial"] = D / np.sqrt((T - 1 + sv ** 2 / s1 ** 2) * b)
    if sem is not None:
        lam, e = sem
        B = np.eye(N) - lam * W
        BB = B.T @ B
        s2 = q(e, kr(np.eye(T), BB)) / (N * T)
        D = q(e, kr(np.ones((T, T)), BB @ BB)) / (2 * s2 ** 2) - T / (2 * s2) * np.trace(BB)
        WB = W.T @ B + B.T @ W
        A = WB @ np.linalg.inv(BB)
        h, d, ee, g, cc = np.trace(BB), np.trace(WB), np.trace(BB @ BB), np.trace(A), np.trace(A @ A)
        # information of (sigma2_v, lambda, sigma2_mu) at sigma2_mu = 0: element of the inverse for sigma2_mu
        I = 0.5 * np.array([[N * T / s2 ** 2, T * g / s2, T * h / s2 ** 2], [T * g / s2, T * cc, T * d / s2], [T * h / s2 ** 2, T * d / s2, T * T * ee / s2 ** 2]])
        sc = np.sqrt(np.diag(I))
        if np.linalg.cond(I / np.outer(sc, sc)) < 1e9:
            o["LMC_RE"] = D * np.sqrt(np.linalg.inv(I)[2, 2])
    for k in o:
        p.setdefault(k, stats.norm.sf(o[k]))
    return o, p


def table_(got, which, o, p, rtol=1e-6):
    names = [NAMES[k] for k in ORDER if k in which]
    same("tests", list(got["Test"]), names)
    same("degrees of freedom", [int(v) for v in got["df"]], [2 if k == "LMJ" else 1 for k in ORDER if k in which])
    for i, k in enumerate([k for k in ORDER if k in which]):
        if k not in o:
            continue
        eq(NAMES[k], got["Statistic"][i], o[k], rtol=rtol, atol=1e-7)
        eq("p-value of " + NAMES[k], got["p-value"][i], p[k], rtol=1e-5, atol=1e-9)


FITS = ["PooledOLS", "PooledOLS", "PanelRE", "ML_ErrorPooled", "GM_ErrorPooled", "PanelFE"]


def strat_bsk():
    return st.fixed_dictionaries(dict(panel.spec(), cls=st.sampled_from(FITS), which=st.lists(st.sampled_from(ORDER), min_size=1, max_size=5, unique=True),
                                      form=st.sampled_from(["list", "list", "all", "str"]), gm=st.booleans(), warm=st.booleans(), spat=st.booleans()))


def sem_of(m):
    return float(np.squeeze(m.betas[-1])), arr(m.u)


def run_bsk(s):
    import spreg
    from spreg.diagnostics_panel import BSK_tests
    c = panel.build(s)
    X = good(ref.const(c.XL))
    good(panel.demean(c.XL, c.N))
    good(X.reshape(c.T, c.N, -1).mean(0), 1e3)
    cls, which = s["cls"], list(s["which"])
    opt = lambda k: {"PanelFE": None, "PooledOLS": "spat_diag", "PanelRE": "spat_diag"}.get(k, "nonspat_diag")
    kw = {opt(cls): s["spat"]} if opt(cls) else {}
    lst = which if cls == "PooledOLS" and s["spat"] else None
    if lst is not None:
        kw["BSK_list"] = list(which)
    if s["warm"]:
        c.w.trcW2
    with sut(cls):
        m, nm, yn = panel.call(s, c, cls, **kw)
    long = dict(s, lay="long", const=0, named=False)
    fit = lambda k: panel.call(long, c, k, **{opt(k): False})[0]
    with sut("models of the conditional tests"):
        need = set(ORDER)
        re = m if cls == "PanelRE" else fit("PanelRE")
        sem = m if "ErrorPooled" in cls else fit("GM_ErrorPooled" if s["gm"] else "ML_ErrorPooled")
    lam = float(np.squeeze(sem.betas[-1]))
    o, p = bsk_ref(c, X, which, c.y - X @ arr(re.betas), sem_of(sem))
    if abs(lam) > 0.98:
        o.pop("LMC_RE", None)
    if s["spat"] and cls != "PanelFE":
        own = {"PooledOLS": lst, "PanelRE": ["LMC_spatial"]}.get(cls, ["LMC_RE"])
        ob, pb = o, p
        if cls == "PooledOLS" and s["gm"] and "LMC_RE" in own:      # the model's own table starts from the ML estimator
            with sut("ML_ErrorPooled"):
                sm = fit("ML_ErrorPooled")
            ob, pb = bsk_ref(c, X, own, c.y - X @ arr(re.betas), sem_of(sm))
            if abs(float(np.squeeze(sm.betas[-1]))) > 0.98:
                ob.pop("LMC_RE", None)
        table_(m.bsk, own, ob, pb, 1e-4 if "LMC_RE" in own else 1e-6)
    elif cls != "PanelFE":
        ok(not hasattr(m, "bsk"), "BSK tests computed although not requested")
    arg = which
    if s["form"] == "str":
        which = arg = which[:1]
        arg = arg[0]
    elif s["form"] == "all":
        which, arg = list(ORDER), "all"
    if cls == "PanelFE":
        if "LMC_RE" in which:
            which = [k for k in which if k != "LMC_RE"] or ["LM1"]
            arg = which
    before = list(arg) if isinstance(arg, list) else arg
    with sut("BSK_tests"):
        t = BSK_tests(m, c.w, which=arg, GM_BSK=s["gm"])
    same("the list of tests", arg, before)
    table_(t, which, o, p, 1e-4 if "LMC_RE" in which else 1e-6)
    return {"labels": [cls, s["form"], "SLX" if s["slx"] else "no SLX"]}


# ------------------------------------------------------------------ Hausman
def strat_h():
    return st.fixed_dictionaries(dict(panel.spec(slx=(0,), N=(14, 30)), kind=st.sampled_from(["lag", "error"]), cur=st.booleans()))


def run_h(s):
    import spreg
    from spreg.diagnostics_panel import panel_Hausman
    c = panel.build(s, s["kind"])
    X = good(ref.const(c.X), 1e3)
    good(panel.demean(c.X, c.N), 1e3)
    good(X.reshape(c.T, c.N, -1).mean(0), 1e3)
    err = s["kind"] == "error"
    FE, RE = (("ML_ErrorFE", "ML_ErrorRE") if err else ("ML_LagFE", "ML_LagRE")) if s["cur"] else (("Panel_FE_Error", "Panel_RE_Error") if err else ("Panel_FE_Lag", "Panel_RE_Lag"))
    if RE == "Panel_RE_Error":      # its likelihood is stated for symmetric weights with distinct eigenvalues (P20)
        ev = np.linalg.eigvals(c.W)
        if not np.allclose(c.W, c.W.T) or np.iscomplexobj(ev) or np.diff(np.sort(ev)).min() < 1e-6:
            raise Reject("eigenvectors")
    s2 = dict(s, lay="long", const=0, named=False, vm=False)
    y, x, kw, nm, yn = panel.args(s2, c)
    with sut(FE):
        fe = getattr(spreg, FE)(y, x, c.w)
    with sut(RE):
        re = getattr(spreg, RE)(y, x, c.w)
    k = c.k + (0 if err else 1)        # the spatial lag coefficient counts, the error parameter does not
    d = arr(fe.betas)[:k] - arr(re.betas)[1:k + 1]
    V = arr(fe.varb) - arr(re.varb)[1:, 1:]
    sc = np.sqrt(np.diag(arr(fe.varb)))
    if not np.isfinite(V).all() or np.iscomplexobj(V):
        raise Reject("no covariance")
    Vn, dn = V / np.outer(sc, sc), d / sc.reshape(-1, 1)
    if np.linalg.cond(Vn) > 1e5 or np.abs(np.linalg.eigvals(Vn)).min() < 1e-5:
        raise Reject("singular difference of covariances")
    h = (dn.T @ np.linalg.solve(Vn, dn)).item()
    with sut("panel_Hausman"):
        got = panel_Hausman(fe, re)
    known = []
    if abs(h) > 1e-9 and abs(float(got[0]) + h) <= 1e-5 * abs(h):
        known = [("panel-hausman-sign", "panel_Hausman = %.6g, not %.6g" % (float(got[0]), h))]
    else:
        eq("Hausman statistic", got[0], h, rtol=1e-5, atol=1e-9)
    eq("p-value of the Hausman statistic", got[1], stats.chi2.sf(float(got[0]), k), rtol=1e-6, atol=1e-14)
    other = {"ML_ErrorFE": "ML_LagFE", "ML_LagFE": "ML_ErrorFE", "Panel_FE_Lag": "Panel_FE_Error", "Panel_FE_Error": "Panel_FE_Lag"}[FE]
    with sut(other):
        mix = getattr(spreg, other)(y, x, c.w)
    try:
        got = panel_Hausman(mix, re)
    except Exception:
        pass
    else:
        raise Violation("panel_Hausman compares a lag with an error model: %r" % (got,))
    return {"labels": [FE, "k%d" % k], "known": known}


SUBS = [Sub("wide", gen.wide(strat, n=(50, 90), ks=(5, 9), key="N", kpath=("k",)), run_lm, quick=64, thorough=400),
        Sub("lm", strat, run_lm, quick=600, thorough=10000),
        Sub("bsk", strat_bsk, run_bsk, quick=320, thorough=8000),
        Sub("hausman", strat_h, run_h, quick=240, thorough=4000)]

"""Maximum-likelihood spatial error model."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, ml
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *
from checks import P08

TITLE = "ML_Error"
RULE = ("random error-model data x nine weights families x transforms with spectral radius <= 1 x methods x SLX orders and selections; "
        "non-trivial = optimum located independently and every reported quantity compared; distinct by spec")
ASSUMPTIONS = ["weights with spectral radius at most one, so that the likelihood is defined on the whole interval (-1, 1)",
               "equilibrated condition of the regressors and of the filtered regressors < 1e4"]


def run(s):
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W)
    nx, nm, XX, sel = P08.design(s, X, W)
    if XX.shape[1] > n - 5 or ref.cond(XX) > 1e4:
        raise Reject("ill-conditioned")
    t0 = w.transform
    before = w.sparse.toarray().copy()
    m = P08.call("ML_Error", s, w, y, X, nx, sel, method=s["method"], vm=s["vm"])
    same("weights transform after estimation", w.transform, t0)
    eq("weights after estimation", w.sparse.toarray(), before, rtol=0)
    D = ml.Err(y, XX, W)
    lam = float(np.squeeze(m.lam))
    if ref.cond(D.fit(lam)[2]) > 1e4:
        raise Reject("ill-conditioned filtered regressors")
    r = D.at(lam)
    # spreg forms e'e as y'y - y'X(X'X)^-1X'y on the filtered data: cancellation grows with R2 and the condition
    ysl, Xl = y - lam * D.Wy, D.fit(lam)[2]
    noise = n * 2e-15 * ref.cond(Xl) ** 2 * float((ysl ** 2).sum()) / (n * r.s2)
    p0, l0, loc = P08.check_opt(m, lam, D, "lambda", noise)
    same("k", m.k, XX.shape[1])
    ys = float(np.abs(y).max())
    se = np.sqrt(np.diag(r.vm))
    eq_coef("betas", m.betas, np.vstack([r.b, [[lam]]]), se.reshape(-1, 1), rtol=1e-6)
    eq("lam", m.lam, m.betas[-1], rtol=0)
    eq("u", m.u, r.u, rtol=1e-6, scale=ys)
    eq("e_filtered", m.e_filtered, r.e, rtol=1e-6, scale=ys)
    eq("predy", m.predy, y - r.u, rtol=1e-6, scale=ys)
    eq("sig2", m.sig2, r.s2, rtol=1e-6)
    eq("logll", m.logll, r.ll, rtol=1e-8, atol=1e-7 + noise)
    eq("aic", m.aic, 2 * XX.shape[1] - 2 * r.ll, rtol=1e-7, atol=1e-6 + 2 * noise)
    eq("schwarz", m.schwarz, XX.shape[1] * np.log(n) - 2 * r.ll, rtol=1e-7, atol=1e-6 + 2 * noise)
    eq("pr2", m.pr2, ref.pr2(y, y - r.u), rtol=1e-4, atol=1e-6)
    same("names", list(m.name_x), nm + ["lambda"])
    inference(m, "z")
    table(m, nm + ["lambda"])
    lbl = ["m:" + s["method"].upper(), "t:" + s["w"]["t"], "modes%d" % len(loc)]
    if 1 - abs(lam) < 1e-4:
        return {"labels": lbl + ["boundary"]}
    eq_vm("vm of the coefficients", arr(m.vm)[:-1, :-1], r.vm[:-1, :-1], rtol=1e-5)
    eq("cov of the coefficients and lambda", arr(m.vm)[:-1, -1], 0 * arr(m.vm)[:-1, -1])
    eq("cov of lambda and the coefficients", arr(m.vm)[-1, :-1], 0 * arr(m.vm)[-1, :-1])
    eq("variance of lambda in vm and vm1", arr(m.vm)[-1, -1], arr(m.vm1)[0, 0], rtol=1e-12)
    try:
        eq_vm("vm1", m.vm1, r.vm1, rtol=1e-5)
    except Violation as v:
        if s["method"].upper() == "ORD":
            S = P08.symmetric_twin(W)
            q = ml.Err(y, XX, W)
            q.W = S
            V = np.array(q.at(lam).vm1)
            eq_vm("vm1", m.vm1, V, rtol=1e-5)
            raise Violation(str(v), key="ord-vm")
        raise
    return {"labels": lbl}


def strat_m():
    return st.fixed_dictionaries({"n": st.integers(14, 50), "w": gen.w_spec(n=20, transforms=("r", "r", "s", "d")),
                                  "d": gen.data_spec(k=st.integers(1, 3)), "bad": st.sampled_from(["", "", "gibberish", "x"])})


def run_m(s):
    import spreg
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W)
    if ref.cond(ref.const(X)) > 1e4:
        raise Reject("cond")
    ms = {}
    for me in ("ord", "full", "LU"):
        with sut("ML_Error " + me):
            ms[me] = spreg.ML_Error(y, X, w, method=me)
    a = ms["full"]
    la = float(np.squeeze(a.lam))
    if ref.cond(ml.Err(y, ref.const(X), W).fit(la)[2]) > 1e4:
        raise Reject("ill-conditioned filtered regressors")
    for me in ("ord", "LU"):
        b = ms[me]
        se = np.sqrt(np.abs(np.diag(arr(a.vm)))).reshape(-1, 1)
        eq("logll " + me, b.logll, a.logll, rtol=1e-8, atol=1e-6)
        ok(abs(float(np.squeeze(b.lam)) - la) < 1e-4 * max(1, se[-1, 0]) + (2e-3 if 1 - abs(la) < 1e-3 else 0),
           "lambda differs between full (%.8f) and %s (%.8f)" % (la, me, np.squeeze(b.lam)))
        if 1 - abs(la) > 1e-3:
            eq_coef("betas " + me, b.betas, a.betas, se, rtol=1e-3)
            eq("sig2 " + me, b.sig2, a.sig2, rtol=1e-3)
    if s["bad"]:
        try:
            spreg.ML_Error(y, X, w, method=s["bad"])
        except Exception:
            pass
        else:
            ok(False, "unknown method %r accepted" % s["bad"])
    return {"labels": ["t:" + s["w"]["t"]]}


def run_b(s):
    return P08.run_b(s, "ML_Error")


SUBS = [Sub("wide", gen.wide(P08.strat), run, quick=90, thorough=600),
        Sub("reference", P08.strat, run, quick=1500, thorough=20000), Sub("methods", strat_m, run_m, quick=400, thorough=4000),
        Sub("large", P08.strat_b, run_b, quick=64, thorough=600)]

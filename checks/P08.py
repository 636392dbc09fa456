"""Maximum-likelihood spatial lag model."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref, ml, names
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "ML_Lag"
RULE = ("random lag-model data x nine weights families x transforms with spectral radius <= 1 x methods x SLX orders and selections; "
        "non-trivial = optimum located independently and every reported quantity compared; distinct by spec")
ASSUMPTIONS = ["weights with spectral radius at most one, so that the likelihood is defined on the whole interval (-1, 1)",
               "equilibrated condition of the regressors < 1e4"]
TR = ("r", "r", "r", "s", "d")


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(14, 60), "w": gen.w_spec(n=20, transforms=TR),
        "d": gen.data_spec(k=st.integers(1, 4), rho=st.sampled_from([0.0, 0.3, 0.6, 0.9, -0.4, -0.8])),
        "method": st.sampled_from(["full", "LU", "ord", "FULL", "Lu", "ORD"]),
        "slx": st.sampled_from([0, 0, 0, 1, 2]), "sel": st.integers(0, 15), "diag": st.booleans(),
        "form": st.sampled_from(["array", "frame"]), "vm": st.booleans(), "const": st.booleans()})


def design(s, X, W):
    k = X.shape[1]
    nx = ["x%d" % j for j in range(k)]
    base = {v: X[:, [j]] for j, v in enumerate(nx)}
    sel, sn = "All", nx
    if s["slx"]:
        msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
        if any(msk) and not all(msk):
            sel, sn = msk, [v for v, b in zip(nx, msk) if b]
    nm = ["CONSTANT"] + nx + names.lagnames(sn, s["slx"])
    return nx, nm, np.hstack([names.col(v, base, W) for v in nm]), sel


def call(cls, s, w, y, X, nx, sel, **kw):
    import spreg
    Xin, nin = X, list(nx)
    if s["const"] and sel == "All":
        Xin, nin = np.hstack([X, np.full((X.shape[0], 1), 2.0)]), nin + ["cc"]
    if s["form"] == "frame":
        a = [pd.Series(y.ravel(), name="yy"), pd.DataFrame(Xin, columns=nin)]
    else:
        a = [y, Xin]
        kw.update(name_y="yy", name_x=nin)
    if s["slx"]:
        kw["slx_lags"] = s["slx"]
        if sel != "All":
            kw["slx_vars"] = list(sel)
    with sut(cls):
        return getattr(spreg, cls)(*a, w=w, **kw)


def check_opt(m, got, D, what, noise=0.0, lim=1.0):
    """reported parameter attains the maximum of the likelihood up to the search tolerance"""
    p0, l0, loc = ml.optimum(D, -lim, lim)
    ok(-lim <= got <= lim, "%s = %r outside [-%g, %g]" % (what, got, lim, lim))
    lg = D.ll(got)
    if all(l - lg > 1e-6 * (1 + abs(l)) + noise for l, p in loc):
        raise Violation("%s=%.8f has log-likelihood %.8f but %s=%.8f has %.8f (%d local maxima)" % (
            what, got, lg, what, p0, l0, len(loc)))
    # with several local maxima a local search may settle on any of them, not in between
    near = min(((abs(l - lg), p) for l, p in loc))[1]
    if len(loc) > 1:
        ok(abs(near - got) < 0.03, "%s=%.6f is not at a local maximum of the log-likelihood (%s)" % (
            what, got, ["%.6f" % p for l, p in loc]))
    return p0, l0, loc


def run(s):
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W)
    nx, nm, XX, sel = design(s, X, W)
    if XX.shape[1] > n - 5 or ref.cond(XX) > 1e4:
        raise Reject("ill-conditioned")
    t0 = w.transform
    before = w.sparse.toarray().copy()
    m = call("ML_Lag", s, w, y, X, nx, sel, method=s["method"], spat_diag=s["diag"], spat_impacts=None, vm=s["vm"])
    same("weights transform after estimation", w.transform, t0)
    eq("weights after estimation", w.sparse.toarray(), before, rtol=0)
    D = ml.Lag(y, XX, W)
    rho = float(np.squeeze(m.rho))
    p0, l0, loc = check_opt(m, rho, D, "rho")
    r = D.at(rho)
    same("k", m.k, XX.shape[1] + 1)
    ys = float(np.abs(y).max())
    se = np.sqrt(np.diag(r.vm))
    eq_coef("betas", m.betas, np.vstack([r.b, [[rho]]]), se.reshape(-1, 1), rtol=1e-6)
    eq("rho", m.rho, m.betas[-1], rtol=0)
    eq("u", m.u, r.u, rtol=1e-7, scale=ys)
    eq("predy", m.predy, y - r.u, rtol=1e-7, scale=ys)
    eq("sig2", m.sig2, r.s2, rtol=1e-6)
    eq("logll", m.logll, r.ll, rtol=1e-8, atol=1e-7)
    eq("aic", m.aic, 2 * (XX.shape[1] + 1) - 2 * r.ll, rtol=1e-7, atol=1e-6)
    eq("schwarz", m.schwarz, (XX.shape[1] + 1) * np.log(n) - 2 * r.ll, rtol=1e-7, atol=1e-6)
    tail = 1e-6 / max(1e-3, 1 - abs(rho)) * max(1.0, 0)    # series truncated at epsilon=1e-7
    eq("predy_e", m.predy_e, r.ph, rtol=1e-6, scale=np.abs(r.ph).max(), atol=tail)
    eq("e_pred", m.e_pred, y - r.ph, rtol=1e-6, scale=np.abs(r.ph).max() + ys, atol=tail)
    eq("pr2", m.pr2, ref.pr2(y, y - r.u), rtol=1e-5, atol=1e-7)
    if np.abs(r.ph - r.ph.mean()).max() > 1e3 * tail:
        eq("pr2_e", m.pr2_e, ref.pr2(y, m.predy_e), rtol=1e-5, atol=1e-6)
    same("names", list(m.name_x), nm + ["W_yy"])
    lbl = ["m:" + s["method"].upper(), "t:" + s["w"]["t"], "modes%d" % len(loc)]
    inference(m, "z")
    table(m, nm + ["W_yy"])
    if s["slx"] == 1 and s["diag"] and sel == "All":
        k = X.shape[1]
        b, V = arr(m.betas), arr(m.vm)[1:, 1:]
        g = rho * b[1:k + 1] + b[k + 1:2 * k + 1]
        G = np.hstack([rho * np.eye(k), np.eye(k), b[1:k + 1]])
        V = G @ V @ G.T
        if np.linalg.cond(V) < 1e10:
            stat("common factor test", m.cfh_test, float((g.T @ np.linalg.solve(V, g)).item()), k, rtol=1e-5, atol=1e-7)
            lbl.append("cfh")
    elif s["slx"] != 1 or sel != "All":
        ok(not hasattr(m, "cfh_test"), "common factor test reported for a model it does not apply to")
    vmcheck(m, r, s, W, D, rho, tail)
    return {"labels": lbl}


def symmetric_twin(W):
    return np.sqrt(W * W.T)


def vmcheck(m, r, s, W, D, rho, tail):
    # predy_e enters the covariance through its truncated series
    rt = 1e-5 + 10 * tail / max(1e-12, np.abs(r.ph).max())
    if 1 - abs(rho) < 1e-4:
        return    # numerically singular information at the boundary
    try:
        eq_vm("vm", m.vm, r.vm, rtol=rt)
        eq_vm("vm1", m.vm1, r.vm1, rtol=rt)
    except Violation as v:
        if s["method"].upper() == "ORD":
            n = W.shape[0]
            S = symmetric_twin(W)
            G = S @ np.linalg.inv(np.eye(n) - rho * S)
            V = D.info_inv(r, G, W @ r.ph)
            eq_vm("vm", m.vm, V[:-1, :-1], rtol=rt)
            raise Violation(str(v), key="ord-vm")
        raise


# ------------------------------------------------- three methods against each other
def strat_m():
    return st.fixed_dictionaries({"n": st.integers(14, 50), "w": gen.w_spec(n=20, transforms=("r", "r", "s", "d")),
                                  "d": gen.data_spec(k=st.integers(1, 3)), "bad": st.sampled_from(["", "", "gibberish", "x"])})


def run_m(s):
    import spreg
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    y, X = gen.build_xy(s["d"], n, W)
    if ref.cond(ref.const(X)) > 1e4:
        raise Reject("cond")
    ms = {}
    for me in ("ord", "full", "LU"):
        with sut("ML_Lag " + me):
            ms[me] = spreg.ML_Lag(y, X, w, method=me)
    a = ms["full"]
    for me in ("ord", "LU"):
        b = ms[me]
        se = np.sqrt(np.abs(np.diag(arr(a.vm)))).reshape(-1, 1)
        eq("logll " + me, b.logll, a.logll, rtol=1e-8, atol=1e-6)
        ok(abs(float(b.rho) - float(a.rho)) < 1e-4 * max(1, se[-1, 0]) + 2e-3 * (1 if 1 - abs(float(a.rho)) < 1e-3 else 0),
           "rho differs between full (%.8f) and %s (%.8f)" % (a.rho, me, b.rho))
        eq_coef("betas " + me, b.betas, a.betas, se, rtol=1e-3)
        eq("sig2 " + me, b.sig2, a.sig2, rtol=1e-3)
    if s["bad"]:
        try:
            import io, contextlib
            spreg.ML_Lag(y, X, w, method=s["bad"])
        except Exception:
            pass
        else:
            ok(False, "unknown method %r accepted" % s["bad"])
    return {"labels": ["t:" + s["w"]["t"]]}


# ------------------------------------------------- larger samples: weights in blocks, whose determinant is known in closed form
def strat_b():
    return st.fixed_dictionaries({"n": st.sampled_from([1100, 700, 1300, 400]), "sizes": st.sampled_from([[2], [2], [2, 3], [3], [4, 2, 2], [5]]),
                                  "rho": st.sampled_from([0.97, 0.98, 0.95, 0.9, 0.5, -0.5]), "k": st.integers(1, 2), "seed": st.integers(0, 10 ** 6),
                                  "method": st.sampled_from(["full", "full", "LU", "ord"])})


def run_b(s, cls="ML_Lag"):
    import spreg
    import libpysal
    g = np.random.default_rng(s["seed"])
    nb, b, i = {}, [], 0
    while i < s["n"]:
        z = s["sizes"][len(b) % len(s["sizes"])]
        nb.update({i + j: [i + q for q in range(z) if q != j] for j in range(z)})
        b.append(z)
        i += z
    n, b = i, np.array(b)
    w = libpysal.weights.W(nb, id_order=list(range(n)), silence_warnings=True)
    w.transform = "r"
    W = w.sparse.toarray()
    X = g.normal(size=(n, s["k"]))
    e, A = g.normal(size=(n, 1)), np.eye(n) - s["rho"] * W
    XX = ref.const(X)
    xb = XX.sum(1, keepdims=True)
    y = np.linalg.solve(A, xb + e) if cls == "ML_Lag" else xb + np.linalg.solve(A, e)
    with sut(cls):
        m = getattr(spreg, cls)(y, X, w, method=s["method"], **({"spat_impacts": None} if cls == "ML_Lag" else {}))
    D = (ml.Lag if cls == "ML_Lag" else ml.Err)(y, XX, W)
    D.jac = lambda p: float(np.sum(np.log1p(-p) + (b - 1) * np.log1p(p / (b - 1))))
    got = float(np.squeeze(m.betas[-1]))
    check_opt(m, got, D, "the spatial parameter (n=%d)" % n, noise=1e-9 * n)
    r = D.at(got)
    ys, se = float(np.abs(y).max()), np.sqrt(np.diag(r.vm)).reshape(-1, 1)
    eq_coef("betas", m.betas, np.vstack([r.b, [[got]]]), se, rtol=1e-6)
    eq("u", m.u, r.u, rtol=1e-6, scale=ys)
    eq("sig2", m.sig2, r.s2, rtol=1e-6)
    eq("logll", m.logll, r.ll, rtol=1e-8, atol=1e-6)
    eq_vm("vm", m.vm, r.vm, rtol=1e-4)
    return {"labels": ["m:" + s["method"].upper(), "underflow" if D.jac(got) < -745 else "representable"]}


SUBS = [Sub("wide", gen.wide(strat), run, quick=90, thorough=600),
        Sub("reference", strat, run, quick=1800, thorough=20000), Sub("methods", strat_m, run_m, quick=400, thorough=4000),
        Sub("large", strat_b, run_b, quick=64, thorough=600)]

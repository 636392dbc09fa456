"""Probit estimation, marginal effects and spatial tests."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats
from scipy.special import log_ndtr, ndtr
from vlib import gen, ref, names
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "Probit"
RULE = ("binary outcomes from latent (spatial) models x nine designs x weights families x SLX x three optimisers x starting values x containers; non-trivial = likelihood optimum, covariance, fit, "
        "marginal effects and tests all compared")
ASSUMPTIONS = ["the maximum exists: a damped Newton reference converges with all linear indices below 7 in absolute value", "equilibrated condition of the regressors below 100", "bfgs and ncg (scipy searches with absolute tolerances) judged on regressors with condition below 15"]


def strat():
    return st.fixed_dictionaries({"n": st.integers(30, 90), "w": gen.w_spec(n=20, transforms=("r", "r", "r", "s", "b", "d")), "d": gen.data_spec(k=st.integers(1, 4)), "optim": st.sampled_from(["newton", "newton", "bfgs", "ncg"]),
                                  "start": st.sampled_from([None, None, "zero", "true"]), "scalem": st.sampled_from(["phimean", "xmean"]), "slx": st.sampled_from([0, 0, 0, 1, 2]), "sel": st.integers(0, 15), "diag": st.booleans(),
                                  "dt": st.sampled_from(["float", "float", "int", "uint8", "int8"]), "form": st.sampled_from(["array", "array", "flat", "frame"]), "thr": st.sampled_from([0.5, 0.5, 0.3, 0.75]),
                                  "snr": st.sampled_from([0.5, 1.0, 2.0, 4.0]), "const": st.booleans(), "pred": st.booleans(), "vm": st.booleans(), "wgiven": st.booleans()})


mle = ref.probit_mle


def ll_of(y, X, b):
    return float(log_ndtr((2 * y - 1) * (X @ b)).sum())


def hess(y, X, b):
    q, xb = 2 * y - 1, X @ b
    lam = q * np.exp(stats.norm.logpdf(xb) - log_ndtr(q * xb))
    return (X * (lam * (lam + xb))).T @ X


def run(s):
    import spreg
    n, k = s["n"], int(s["d"]["k"])
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    g = gen.rng(s["d"]["seed"], 501)
    sd = X.std(0)
    if not np.all(sd > 1e-12):
        raise Reject("constant regressor")
    z = (X - X.mean(0)) / sd @ g.uniform(-1, 1, (k, 1)) * s["snr"] + g.standard_normal((n, 1))
    if s["d"]["rho"]:
        z = np.linalg.solve(np.eye(n) - s["d"]["rho"] / max(1.0, ref.specrad(W)) * W, z)
    y = (z > np.quantile(z, s["thr"])).astype(float)
    nx = ["x%d" % j for j in range(k)]
    sel, sn = "All", nx
    if s["slx"]:
        msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
        if any(msk) and not all(msk):
            sel, sn = msk, [v for v, m in zip(nx, msk) if m]
    Xm = ref.const(X)
    cols = [X[:, [nx.index(v)]] for v in sn]
    for p in range(s["slx"]):
        cols = [W @ c for c in cols]
        Xm = ref.cat(Xm, *cols)
    want_x = ["CONSTANT"] + nx + names.lagnames(sn, s["slx"])
    if ref.cond(Xm) > 100:
        raise Reject("ill-conditioned")
    if s["optim"] != "newton" and np.linalg.cond(Xm) > 15:
        raise Reject("too ill-conditioned for scipy's inexact searches")
    b = mle(y, Xm)
    yy = y.astype(s["dt"])
    if s["form"] == "array":
        ya, xa, kw = yy, X.copy(), dict(name_y="yes", name_x=list(nx))
    elif s["form"] == "flat":
        ya, xa, kw = yy[:, 0], X.copy(), dict(name_y="yes", name_x=list(nx))
    else:
        ya, xa, kw = pd.Series(yy[:, 0], name="yes"), pd.DataFrame(X, columns=nx), {}
    if s["const"] and s["form"] != "frame":
        xa = np.hstack([np.ones((n, 1)), xa])
        kw["name_x"] = ["one"] + nx
    start = False
    if s["start"] == "zero":
        start = [0.0] * Xm.shape[1]
    elif s["start"] == "true":
        start = [float(v) for v in b[:, 0]]
    if s["diag"] or s["slx"] or s["wgiven"]:
        kw["w"] = w
    with sut("Probit"):
        m = spreg.Probit(ya, xa, slx_lags=s["slx"], slx_vars=sel, optim=s["optim"], bstart=start, scalem=s["scalem"], spat_diag=s["diag"], predflag=s["pred"], vm=s["vm"], **kw)
    same("name_x", list(m.name_x), want_x)
    same("name_y", m.name_y, "yes")
    same("n and k", (m.n, m.k), Xm.shape)
    eq("x", m.x, Xm, rtol=1e-12)
    best = ll_of(y, Xm, b)
    V0 = np.linalg.inv(hess(y, Xm, b))
    got = arr(m.betas)
    ok(got.shape == b.shape, "betas: shape %s" % (got.shape,))
    gap = best - ll_of(y, Xm, got)
    if s["optim"] == "newton" or not m.warning:
        ok(gap < (1e-7 if s["optim"] == "newton" else 1e-3), "%s stopped %.3g below the maximum of the log-likelihood" % (s["optim"], gap))
    ok(not (s["optim"] == "newton" and m.warning), "Newton warns although it converged")
    if gap > 1e-3:
        raise Reject("optimiser gave up with a warning")
    ok(np.abs((got - b) / np.sqrt(np.diag(V0)).reshape(-1, 1)).max() < (1e-3 if s["optim"] == "newton" else 0.05), "betas differ from the maximum likelihood estimates: %s against %s" % (got.ravel(), b.ravel()))
    # everything else follows from the reported coefficients
    b = got
    xb = Xm @ b
    eq("logl", m.logl, ll_of(y, Xm, b), rtol=1e-9)
    V = np.linalg.inv(hess(y, Xm, b))
    eq_vm("vm", m.vm, V, rtol=1e-6)
    p, f = ndtr(xb), stats.norm.pdf(xb)
    eq("xb", m.xb, xb, rtol=1e-10)
    eq("predy", m.predy, p, rtol=1e-9)
    eq("phiy", m.phiy, f, rtol=1e-9)
    eq("predybin", m.predybin, (p > 0.5).astype(int), rtol=0)
    eq("u_naive", m.u_naive, y - p, rtol=1e-9)
    gr = f * (y - p) / (p * (1 - p))
    eq("u_gen", m.u_gen, gr, rtol=1e-5)
    eq("xmean", m.xmean, Xm.mean(0).reshape(-1, 1), rtol=1e-10)
    inference(m, dist="z")
    hit = p > 0.5
    tp, tn, fp, fn = [float((a & c).sum()) for a, c in ((hit, y == 1), (~hit, y == 0), (hit, y == 0), (~hit, y == 1))]
    T = m.predtable
    for key, v in (("actpos", y.sum()), ("actneg", n - y.sum()), ("predpos", tp + fp), ("predneg", tn + fn), ("truepos", tp), ("trueneg", tn), ("falsepos", fp), ("falseneg", fn)):
        eq("predtable " + key, T[key], v, rtol=0)
    fit = {"TPR": 100 * tp / y.sum(), "TNR": 100 * tn / (n - y.sum()), "PREDPC": 100 * (tp + tn) / n}
    fit["BA"] = (fit["TPR"] + fit["TNR"]) / 2
    for key in fit:
        eq("fit " + key, m.fit[key], fit[key], rtol=1e-10)
    eq("predpc", m.predpc, fit["PREDPC"], rtol=1e-10)
    P = y.mean()
    L0 = n * (P * np.log(P) + (1 - P) * np.log(1 - P))
    eq("L0", m.L0, L0, rtol=1e-10)
    LR = 2 * (ll_of(y, Xm, b) - L0)
    eq("LR", m.LR[0], LR, rtol=1e-8, atol=1e-8)
    eq("LRtest likr", m.LRtest["likr"], LR, rtol=1e-8, atol=1e-8)
    same("degrees of freedom of the LR test", int(m.LRtest["df"]), Xm.shape[1] - 1)
    eq("p-value of the LR test", m.LR[1], stats.chi2.sf(LR, Xm.shape[1] - 1), rtol=1e-6, atol=1e-13)
    eq("LRtest p-value", m.LRtest["p-value"], m.LR[1], rtol=1e-12)
    eq("mcfadrho", m.mcfadrho, 1 - ll_of(y, Xm, b) / L0, rtol=1e-8, atol=1e-10)
    # marginal effects
    xm = Xm.mean(0)
    at_mean = float(stats.norm.pdf(xm @ b).item())
    scale = at_mean if s["scalem"] == "xmean" else float(f.mean())
    eq("scale", arr(m.scale).ravel(), [scale], rtol=1e-9)
    eq("slopes", m.slopes, b[1:] * scale, rtol=1e-9)
    # delta method: numerical derivative of the effects at the means, rescaled for the mean of individual effects
    J = np.zeros((Xm.shape[1] - 1, Xm.shape[1]))
    for j in range(Xm.shape[1]):
        h = 1e-5 * max(abs(b[j, 0]), np.sqrt(V[j, j]))
        for sg in (1, -1):
            t = b.copy()
            t[j, 0] += sg * h
            J[:, j] += sg * (t[1:, 0] * stats.norm.pdf((xm @ t).item())) / (2 * h)
    SV = J @ V @ J.T * (scale / at_mean) ** 2
    eq_vm("slopes_vm", m.slopes_vm, SV, rtol=1e-5)
    se = np.sqrt(np.diag(arr(m.slopes_vm))).reshape(-1, 1)
    eq("slopes_std_err", m.slopes_std_err, se, rtol=1e-9)
    z = arr(m.slopes) / se
    same("slopes_z_stat", len(m.slopes_z_stat), len(z))
    for i in range(len(z)):
        eq("slopes_z_stat", list(m.slopes_z_stat[i]), [z[i, 0], pnorm(z[i, 0])], rtol=1e-9, scale=0, atol=1e-14)
    if s["diag"]:
        sp_check(m.Pinkse_error, m.KP_error, m.PS_error, y, p, f, W)
        with sut("sp_tests"):
            a = spreg.sp_tests(regprob=None, obj_list=[w, xb, y - p, gr])
        sp_check(*a, y, p, f, W)
    else:
        ok(not hasattr(m, "Pinkse_error"), "spatial tests reported that were not requested")
    ok(("CONFUSION MATRIX" in m.summary) == s["pred"], "predflag=%s but the confusion matrix is %sin the summary" % (s["pred"], "" if not s["pred"] else "not "))
    return {"labels": [s["optim"], s["scalem"], "slx%d" % s["slx"], s["dt"], s["form"]]}


def sp_check(pe, kp, ps, y, p, f, W):
    u = y - p
    v = p * (1 - p)
    gr = f * u / v
    n = len(y)
    T = np.trace(W @ W) + np.trace(W @ W.T)
    s2 = (f * f / v).sum() / n
    stat("Pinkse LM error", pe, (gr.T @ W @ gr).item() ** 2 / (s2 ** 2 * T), 1, rtol=1e-5)
    D = np.diag(v[:, 0])
    mi = (u.T @ W @ u).item() / np.sqrt(np.trace(W @ D @ W @ D) + np.trace(W.T @ D @ W @ D))
    eq("Kelejian-Prucha Moran", kp[0], mi, rtol=1e-6, atol=1e-9)
    eq("its p-value", kp[1], pnorm(float(kp[0])), rtol=1e-9, atol=1e-14)
    us = u / np.sqrt(v)
    stat("Pinkse-Slade", ps, (us.T @ W @ us).item() ** 2 / T, 1, rtol=1e-5)


SUBS = [Sub("wide", gen.wide(strat, n=(150, 320), ks=(5, 8)), run, quick=90, thorough=600),
        Sub("probit", strat, run, quick=700, thorough=12000)]

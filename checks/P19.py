"""Non-spatial panels: pooled OLS, fixed and random effects."""
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import gen, ref, panel
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "Pooled, fixed- and random-effects panels"
RULE = ("N x T x k panels with serially correlated and onset regressors, unit effects (also correlated with x), five data layouts, constant columns, SLX orders and selections; "
        "non-trivial = every coefficient, covariance, variance component and statistic compared with the transformed regression of the stacked data")
ASSUMPTIONS = ["equilibrated condition of the (demeaned) regressors below 1e4", "at least one time-varying regressor of every kind: T >= 2"]


def strat():
    return st.fixed_dictionaries(dict(panel.spec(), robust=st.sampled_from([None, None, "white"]), diag=st.booleans(), spat=st.booleans()))


def strat_re():
    return st.fixed_dictionaries(dict(panel.spec(), robust=st.none(), diag=st.booleans(), spat=st.booleans(), inv=st.sampled_from([0, 0, 0, 1, 2]),
                                      xs=st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -24, 2.0 ** 20])))


def good(M, lim=1e4):
    if M.shape[1] > M.shape[0] / 3 or ref.cond(M) > lim:
        raise Reject("ill-conditioned")
    return M


def common(m, c, names, yn, nt):
    same("n", m.n, c.N * c.T)
    same("t", m.t, c.T)
    same("name_x", list(m.name_x), names)
    same("name_y", m.name_y, yn)
    same("slx_lags", m.slx_lags, nt)


def bsk(o, i, name, df, statistic, p, rtol=1e-7):
    same("test", o["Test"][i], name)
    same("df of " + name, int(o["df"][i]), df)
    eq(name, o["Statistic"][i], statistic, rtol=rtol, atol=1e-9)
    eq("p-value of " + name, o["p-value"][i], p, rtol=1e-6, atol=1e-12)


def run_pooled(s):
    c = panel.build(s)
    X = good(ref.const(c.XL))
    with sut("PooledOLS"):
        m, nm, yn = panel.call(s, c, "PooledOLS", robust=s["robust"], nonspat_diag=s["diag"], spat_diag=s["spat"])
    r = ref.ols(c.y, X)
    common(m, c, ["CONSTANT"] + nm, yn, s["slx"])
    same("k", m.k, X.shape[1])
    vm = r.vm if s["robust"] is None else ref.white_vm(X, r.u, r.xtxi, dfc=X.shape[1])
    eq_coef("betas", m.betas, r.betas, np.sqrt(np.diag(vm)).reshape(-1, 1), rtol=1e-7)
    eq_vm("vm", m.vm, vm, rtol=1e-6)
    ys = np.abs(c.y).max()
    eq("u", m.u, r.u, rtol=1e-8, scale=ys)
    eq("predy", m.predy, r.predy, rtol=1e-8, scale=ys)
    eq("y", m.y, c.y, rtol=1e-14)
    eq("x", m.x, X, rtol=1e-11)
    eq("sig2", m.sig2, r.sig2, rtol=1e-7)
    eq("sig2ML", m.sig2ML, r.sig2n, rtol=1e-7)
    eq("utu", m.utu, r.utu, rtol=1e-7)
    eq("logll", m.logll, r.logl, rtol=1e-8, atol=1e-6)
    eq("aic", m.aic, r.aic, rtol=1e-8, atol=1e-6)
    eq("schwarz", m.schwarz, r.sc, rtol=1e-8, atol=1e-6)
    stat("F", m.f_stat, r.f, df=X.shape[1] - 1, df2=m.n - X.shape[1], dist="f", rtol=1e-6)
    eq("mean_y", m.mean_y, c.y.mean(), rtol=1e-9, atol=1e-12 * ys)
    eq("std_y", m.std_y, c.y.std(ddof=1), rtol=1e-9)
    inference(m, "t" if not s["robust"] else ("t" if hasattr(m, "t_stat") else "z"))
    table(m, ["CONSTANT"] + nm, dist="t" if hasattr(m, "t_stat") else "z")
    return {"labels": [s["lay"], "slx%d" % s["slx"], "robust:%s" % s["robust"]]}


def run_fe(s):
    c = panel.build(s)
    X = c.XL
    Xd, yd = good(panel.demean(X, c.N)), panel.demean(c.y, c.N)
    with sut("PanelFE"):
        m, nm, yn = panel.call(s, c, "PanelFE")
    N, T, k = c.N, c.T, X.shape[1]
    common(m, c, nm, yn, s["slx"])
    same("k", m.k, k)
    # least squares with one dummy per unit
    L = np.hstack([X, np.kron(np.ones((T, 1)), np.eye(N))])
    bl = np.linalg.lstsq(L, c.y, rcond=None)[0]
    b = ref.lsq(Xd, yd)[0]
    e = yd - Xd @ b
    df = N * T - N
    s2 = float((e ** 2).sum()) / df
    vm = s2 * ref.xtxi(Xd)
    se = np.sqrt(np.diag(vm)).reshape(-1, 1)
    same("df_resid", int(m.df_resid), df)
    eq_coef("betas", m.betas, b, se, rtol=1e-6)
    eq_coef("betas against the dummy-variable regression", m.betas, bl[:k], se, rtol=1e-6)
    ys = np.abs(c.y).max() + np.abs(X * b.T).max()
    eq("fixed effects", m.fixed_effects, bl[k:], rtol=1e-6, scale=ys)
    eq("mu_i", m.mu_i, bl[k:], rtol=1e-6, scale=ys)
    eq("mean of the fixed effects", m.mean_mu_i, bl[k:].mean(), rtol=1e-6, atol=1e-6 * ys)
    eq("sig2", m.sig2, s2, rtol=1e-6)
    eq_vm("vm", m.vm, vm, rtol=1e-6)
    eq("std_err", m.std_err, se, rtol=1e-6)
    eq("predy", m.predy, X @ b, rtol=1e-7, scale=ys)
    eq("u", m.u, c.y - X @ b, rtol=1e-7, scale=ys)
    eq("y", m.y, c.y, rtol=1e-14)
    eq("x", m.x, X, rtol=1e-11)
    inference(m, "t" if hasattr(m, "t_stat") else "z")
    table(m, nm, dist="t" if hasattr(m, "t_stat") else "z")
    return {"labels": [s["lay"], "slx%d" % s["slx"]]}


def run_re(s):
    c = panel.build(s)
    X = good(ref.const(c.XL))
    N, T, k = c.N, c.T, X.shape[1]
    Xm, ym = X.reshape(T, N, k).mean(0), c.y.reshape(T, N).mean(0).reshape(-1, 1)
    good(Xm, 1e3)
    Xd = panel.demean(c.XL, N)
    valid = Xd.std(0) > 1e-9 * np.sqrt((c.XL ** 2).mean(0))
    if not valid.any():
        raise Reject("no regressor varies over time")
    Xd = good(Xd[:, valid])
    yd = panel.demean(c.y, N)
    with sut("PanelRE"):
        m, nm, yn = panel.call(s, c, "PanelRE", spat_diag=s["spat"])
    common(m, c, ["CONSTANT"] + nm, yn, s["slx"])
    bf = ref.lsq(Xd, yd)[0]
    e = yd - Xd @ bf
    se2 = float((e ** 2).sum()) / (N * T - N - Xd.shape[1])
    eb = ym - Xm @ ref.lsq(Xm, ym)[0]
    sb = float((eb ** 2).sum()) / (N - k)
    mu2 = max(0.0, sb - se2 / T)
    eq("sigma2_epsilon", m.sigma2_epsilon, se2, rtol=1e-7)
    eq("sigma2_mu", m.sigma2_mu, mu2, rtol=1e-6, scale=sb)
    th = 1 - np.sqrt(se2 / (se2 + T * mu2))
    eq("theta", m.theta, th, rtol=1e-6, atol=1e-6)
    if mu2 == 0:
        ok("negative" in str(m.warning), "no warning about the negative variance of the unit effects")
    th = float(m.theta)
    ysr, Xs = panel.demean(c.y, N, 1 - th), panel.demean(X, N, 1 - th)
    r = ref.ols(ysr, Xs)
    eq_coef("betas", m.betas, r.betas, np.sqrt(np.diag(r.vm)).reshape(-1, 1), rtol=1e-6)
    eq("sig2", m.sig2, r.sig2n, rtol=1e-6)
    eq_vm("vm", m.vm, r.sig2n * r.xtxi, rtol=1e-6)
    ys = np.abs(c.y).max() + np.abs(X * r.betas.T).max()
    eq("predy", m.predy, X @ r.betas, rtol=1e-6, scale=ys)
    eq("u", m.u, c.y - X @ r.betas, rtol=1e-6, scale=ys)
    inference(m, "t" if hasattr(m, "t_stat") else "z")
    table(m, ["CONSTANT"] + nm, dist="t" if hasattr(m, "t_stat") else "z")
    # Hausman: within against random effects, slopes only
    vi = 1 + np.flatnonzero(valid)
    D = se2 * ref.xtxi(Xd) - arr(m.vm)[np.ix_(vi, vi)]
    d = bf - arr(m.betas)[vi]
    sc = np.sqrt(np.diag(se2 * ref.xtxi(Xd)))
    Dn = D / np.outer(sc, sc)
    same("degrees of freedom of the Hausman test", int(m.hausman_df), len(vi))
    if np.linalg.cond(Dn) < 1e6 and np.abs(np.linalg.eigvalsh(Dn)).min() > 1e-5:
        h = float(((d / sc.reshape(-1, 1)).T @ np.linalg.solve(Dn, d / sc.reshape(-1, 1))).item())
        eq("Hausman statistic", m.hausman_stat, h, rtol=1e-4, atol=1e-6)
        eq("Hausman p-value", m.hausman_p, stats.chi2.sf(m.hausman_stat, len(vi)), rtol=1e-6, atol=1e-10)
    return {"labels": [s["lay"], "slx%d" % s["slx"], "mu2=0" if mu2 == 0 else "mu2>0"] + ([] if valid.all() else ["invariant"])}


SUBS = [Sub("wide-pooled", gen.wide(strat, n=(60, 130), ks=(5, 11), key="N", kpath=("k",)), run_pooled, quick=64, thorough=400),
        Sub("wide-fixed", gen.wide(strat, n=(60, 130), ks=(5, 11), key="N", kpath=("k",)), run_fe, quick=64, thorough=400),
        Sub("wide-random", gen.wide(strat_re, n=(60, 130), ks=(5, 11), key="N", kpath=("k",)), run_re, quick=64, thorough=400),
        Sub("pooled", strat, run_pooled, quick=500, thorough=8000),
        Sub("fixed", strat, run_fe, quick=500, thorough=8000),
        Sub("random", strat_re, run_re, quick=500, thorough=8000)]

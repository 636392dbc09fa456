"""Homoskedastic GMM (Drukker, Egger and Prucha) spatial error estimators."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, gmm
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *
from vlib import gmmcheck as gc

TITLE = "GMM homoskedastic"
RULE = ("exogenous / endogenous / spatial-lag models x moment variants hom, hom_sc, het x 1-4 iterations x weights families; non-trivial = first-step lambda "
        "recovered from the coefficients, every step's lambda judged against the weighted moment minimum and the covariance recomputed at the reported values")
ASSUMPTIONS = ["instruments equilibrated condition < 1e3, regressors < 300",
               "lambda accepted within the precision of a numerical-gradient quasi-Newton search (objective gap 2e-7 of the moment scale or 2e-3)"]
NAMES = {"exog": "GM_Error_Hom", "endog": "GM_Endog_Error_Hom", "combo": "GM_Combo_Hom", "combo_end": "GM_Combo_Hom"}


def weight(b, As, u, l):
    """variance of the moments at filter l and residuals u"""
    if b.H is None:
        return gmm.psi_hom(b.W, As, u, l)
    a, _ = gmm.a_vectors(b.W, As, u, l, b.H, b.reg.fit(l).Zs)
    return gmm.psi_hom(b.W, As, u, l, a)


def vm(b, As, u, l):
    n = b.n
    mom = gmm.Quad(u, b.W, As)
    e = u - l * (b.W @ u)
    s2, m3 = float((e ** 2).mean()), float((e ** 3).mean())
    Zs = b.reg.zlin(l)
    D = np.column_stack([np.diag(A) for A in As])
    if b.H is None:
        V = gmm.psi_hom(b.W, As, u, l)
        P = np.linalg.inv(Zs.T @ Zs / n)
        return gmm.omega(mom, l, V, P, s2 * Zs.T @ Zs / n, m3 * b.Z.T @ D / n, n), s2
    a, P = gmm.a_vectors(b.W, As, u, l, b.H, Zs)
    V = gmm.psi_hom(b.W, As, u, l, a)
    return gmm.omega(mom, l, V, P, s2 * b.H.T @ b.H / n, (s2 * b.H.T @ np.hstack(a) + m3 * b.H.T @ D) / n, n), s2


def good_weight(V):
    d = np.sqrt(np.diag(V))
    return np.linalg.cond(V / np.outer(d, d)) < 1e5


def step(what, b, m, As, prev, s):
    """one iteration: coefficients from the filter `prev`, lambda from its weighted moments"""
    gc.filtered(what, s, b, m, prev)
    u = arr(m.u)
    lam = float(arr(m.betas).ravel()[-1])
    V = weight(b, As, u, prev)
    if not good_weight(V):
        raise Reject("ill-conditioned moment variance")
    gmm.check_min(what + "weighted moments: ", gmm.Quad(u, b.W, As), lam, np.linalg.inv(V))
    want, s2 = vm(b, As, u, lam)
    eq(what + "sig2", m.sig2, s2, rtol=1e-8)
    if np.all(np.diag(want) > 0) and good_weight(weight(b, As, u, lam)):
        eq_vm(what + "vm", m.vm, want, rtol=1e-5)
    return lam


def first_step(what, b, m, As):
    c = b.reg.recover(arr(m.betas)[:-1])
    ok(c[0][1] < 1e-5, "%scoefficients are not those of any filtered regression (misfit %.3g standard errors)" % (what, c[0][1]))
    mom = gmm.Quad(b.reg.fit(0.0).u, b.W, As)
    return gmm.any_of([x for x, e in c if e < 1e-5], lambda x: gmm.check_min(what + "first-step moments: ", mom, x))


def run(s):
    b = gc.build(s)
    return judge(s, b, NAMES[s["est"]])


def judge(s, b, cls):
    kw = dict(A1=s["A1"])
    As = gmm.A_pair(b.W, s["A1"])
    m = gc.call(s, b, cls, max_iter=1, **kw)
    what = "%s(A1=%s): " % (cls, s["A1"])
    prev = first_step(what, b, m, As)
    lam = step(what, b, m, As, prev, s)
    same(what + "iterations", m.iteration, 1)
    done = 1
    eps = 1e-5 if s["eps"] is None else s["eps"]
    for it in range(2, s["iters"] + 1):
        what = "%s(A1=%s, max_iter=%d): " % (cls, s["A1"], it)
        kw2 = dict(kw, max_iter=it)
        if s["eps"] is not None:
            kw2["epsilon"] = s["eps"]
        if s["A1"] == b.get("default_A1", "hom_sc"):
            kw2.pop("A1")   # the default
        m2 = gc.call(s, b, cls, **kw2)
        if abs(abs(lam - prev) - eps) < 1e-9:
            break
        if abs(lam - prev) <= eps:
            same(what + "iterations after convergence", m2.iteration, it - 1)
            ok("onvergence" in m2.iter_stop, what + "iter_stop: %r" % m2.iter_stop)
            eq(what + "converged betas", m2.betas, arr(m.betas), rtol=1e-9)
            break
        same(what + "iterations", m2.iteration, it)
        new = step(what, b, m2, As, lam, s)
        prev, lam, m, done = lam, new, m2, it
    return {"labels": [s["est"], s["A1"], "iter%d" % done]}


SUBS = [Sub("wide", gen.wide(gc.strat({"A1": st.sampled_from(["hom_sc", "hom", "het"]), "iters": st.sampled_from([1, 2]), "eps": st.sampled_from([None])})), run, quick=90, thorough=600),
        Sub("hom", gc.strat({"A1": st.sampled_from(["hom_sc", "hom", "het"]), "iters": st.sampled_from([1, 1, 2, 3, 4]),
                             "eps": st.sampled_from([None, None, 1e-3, 0.05])}), run, quick=1000, thorough=15000)]

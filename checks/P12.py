"""Heteroskedastic GMM (Arraiz, Drukker, Kelejian and Prucha) spatial error estimators."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, gmm
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *
from vlib import gmmcheck as gc

TITLE = "GMM heteroskedastic"
RULE = ("exogenous / endogenous / spatial-lag models x step1c x 1-4 iterations x inversion method x weights families; non-trivial = first-step lambda "
        "recovered from the coefficients, every step's lambda judged against the weighted moment minimum and the covariance recomputed at the reported values")
ASSUMPTIONS = ["instruments equilibrated condition < 1e3, regressors < 300",
               "the power expansion of the inverse converges (|lambda| * spectral radius < 0.95) or the true inverse is requested",
               "lambda accepted within the precision of a numerical-gradient quasi-Newton search (objective gap 2e-7 of the moment scale or 2e-3)"]
NAMES = {"exog": "GM_Error_Het", "endog": "GM_Endog_Error_Het", "combo": "GM_Combo_Het", "combo_end": "GM_Combo_Het"}


def weight(b, As, u, l, filt=True, Zp=None, lin=False, zl=None):
    if b.H is None:
        return gmm.psi_het(b.W, As, u, l)
    Zs = b.reg.zlin(l) if lin else b.reg.fit(l if zl is None else zl).Zs
    P = None if Zp is None else gmm.weights_P(b.H, Zp)
    a, _ = gmm.a_vectors(b.W, As, u, l, b.H, Zs, filt, P)
    return gmm.psi_het(b.W, As, u, l, a)


def vm(b, As, u, l):
    n = b.n
    mom = gmm.Quad(u, b.W, As)
    e2 = ((u - l * (b.W @ u)) ** 2)
    Zs = b.reg.zlin(l)
    if b.H is None:
        V = gmm.psi_het(b.W, As, u, l)
        P = np.linalg.inv(Zs.T @ Zs / n)
        return gmm.omega(mom, l, V, P, Zs.T @ (e2 * Zs) / n, np.zeros((b.Z.shape[1], 2)), n)
    a, P = gmm.a_vectors(b.W, As, u, l, b.H, Zs)
    V = gmm.psi_het(b.W, As, u, l, a)
    # sandwich: (P'Sdd P, P'Sdl w'; ., w V w') with w = (J'V^-1 J)^-1 J'V^-1
    return gmm.omega(mom, l, V, P, b.H.T @ (e2 * b.H) / n, b.H.T @ (e2 * np.hstack(a)) / n, n)


def good_weight(V):
    d = np.sqrt(np.diag(V))
    return np.linalg.cond(V / np.outer(d, d)) < 1e5


class Clamped(Exception):
    pass


def clamp_index(s, b):
    """spreg limits the last coefficient before lambda to [-0.9, 0.9] in the models with endogenous variables"""
    return b.Z.shape[1] - 1 if s["est"] != "exog" and b.get("clamped", True) else None


def step(what, b, m, As, prev, s, wprev=None):
    ci = clamp_index(s, b)
    raw = b.reg.fit(prev).b
    gc.filtered(what, s, b, m, prev, clampk=ci)
    u = arr(m.u)
    lam = float(arr(m.betas).ravel()[-1])
    def judged(l, **tol):
        V = weight(b, As, u, l, zl=prev)
        if not good_weight(V):
            raise Reject("ill-conditioned moment variance")
        gmm.check_min(what + "weighted moments: ", gmm.Quad(u, b.W, As), lam, np.linalg.inv(V), **tol)
    if wprev is None:
        judged(prev)
    else:
        b.wprev = [gmm.any_of(wprev, lambda l: judged(l, gap=3e-5, near=2e-2))]
    want = vm(b, As, u, lam)
    if np.all(np.diag(want) > 0) and good_weight(weight(b, As, u, lam)):
        eq_vm(what + "vm", m.vm, want, rtol=1e-5)
    return lam, ci is not None and abs(float(raw[ci, 0])) > 0.9


def first_step(what, b, m, As, s):
    """-> filter used for the coefficients, judged against the first-step moments"""
    ci = clamp_index(s, b)
    f0 = b.reg.fit(0.0)
    u0, hit = f0.u, False
    if ci is not None and abs(float(f0.b[ci, 0])) > 0.9:
        hit = True
        b0 = f0.b.copy()
        b0[ci] = gc.clampv(b0[ci])
        u0 = b.y - b.Z @ b0
    bb = arr(m.betas)[:-1]
    cl = ci if ci is not None and abs(abs(float(bb[ci, 0])) - 0.9) < 1e-12 else None
    c = b.reg.recover(bb, clamp=cl)
    ok(c[0][1] < 1e-5, "%scoefficients are not those of any filtered regression (misfit %.3g standard errors)" % (what, c[0][1]))
    c = [x for x, e in c if e < 1e-5]
    mom = gmm.Quad(u0, b.W, As)
    if not s["step1c"]:
        return gmm.any_of(c, lambda x: gmm.check_min(what + "first-step moments: ", mom, x)), hit
    if b.get("pin1c"):
        # (known) the filter of the first iteration is the unweighted minimum, that of its moments the weighted one
        try:
            x = gmm.any_of(c, lambda x: gmm.check_min(what + "first-step moments: ", mom, x))
            b.wprev = mom.minima(np.linalg.inv(weight(b, As, u0, x, filt=False, Zp=b.Z, lin=True)))
            b.differ = min(abs(l - x) for l in b.wprev) > 1e-3
            return x, hit
        except Violation:
            pass
    # the weighting of step 1c uses the unweighted first-step minimum, which is not reported:
    # the recovered filter must be a weighted minimum for one of its candidates
    errs = []
    for l1 in mom.minima():
        V = weight(b, As, u0, l1, filt=False, Zp=b.Z, lin=True) if b.H is not None else weight(b, As, u0, l1)
        if not good_weight(V) or (b.H is not None and not ref.expandable(b.W, l1)):
            raise Reject("ill-conditioned moment variance")
        try:
            return gmm.any_of(c, lambda x: gmm.check_min(what + "step 1c moments: ", mom, x, np.linalg.inv(V), gap=5e-6, near=1e-2)), hit
        except Violation as v:
            errs.append(v)
    raise errs[0]


def run(s):
    b = gc.build(s, yend_scale=4.0)
    cls = NAMES[s["est"]]
    out, hit = judge(s, b, cls)
    if hit and s["est"] == "endog":
        raise Violation("%s: coefficient of the last endogenous variable limited to [-0.9, 0.9]" % cls, key="het-clamp")
    return out


def judge(s, b, cls):
    As = gmm.A_pair(b.W, "het")
    kw = {}
    if s["step1c"]:
        kw["step1c"] = True
        if s["est"] != "exog":
            kw["inv_method"] = s["inv"]
    m = gc.call(s, b, cls, max_iter=1, **kw)
    what = "%s(step1c=%s): " % (cls, s["step1c"])
    prev, hit = first_step(what, b, m, As, s)
    b.wprev = b.get("wprev")
    lam, h2 = step(what, b, m, As, prev, s, b.wprev)
    if b.wprev:
        prev = b.wprev[0]
    same(what + "iterations", m.iteration, 1)
    hit = hit or h2
    done = 1
    eps = 1e-5 if s["eps"] is None else s["eps"]
    for it in range(2, s["iters"] + 1):
        what = "%s(step1c=%s, max_iter=%d): " % (cls, s["step1c"], it)
        kw2 = dict(kw, max_iter=it)
        if s["eps"] is not None:
            kw2["epsilon"] = s["eps"]
        m2 = gc.call(s, b, cls, **kw2)
        if abs(abs(lam - prev) - eps) < 1e-9:
            break
        if abs(lam - prev) <= eps:
            same(what + "iterations after convergence", m2.iteration, it - 1)
            ok("onvergence" in m2.iter_stop, what + "iter_stop: %r" % m2.iter_stop)
            eq(what + "converged betas", m2.betas, arr(m.betas), rtol=1e-9)
            break
        same(what + "iterations", m2.iteration, it)
        new, h2 = step(what, b, m2, As, lam, s)
        hit = hit or h2
        prev, lam, m, done = lam, new, m2, it
    return {"labels": [s["est"], "1c" if s["step1c"] else "no1c", "iter%d" % done, "clamped" if hit else "free"]}, hit


SUBS = [Sub("wide", gen.wide(gc.strat({"step1c": st.booleans(), "inv": st.sampled_from(["power_exp", "true_inv"]), "iters": st.sampled_from([1, 2]), "eps": st.sampled_from([None])})), run, quick=90, thorough=600),
        Sub("het", gc.strat({"step1c": st.booleans(), "inv": st.sampled_from(["power_exp", "true_inv"]), "iters": st.sampled_from([1, 1, 2, 3, 4]),
                             "eps": st.sampled_from([None, None, 1e-3, 0.05])}), run, quick=1000, thorough=15000,
            probe=[{'m': 1, 'n': 39, 'iters': 1, 'named': False, 'vm': True, 'step1c': True, 'wl': 2, 'slx': 0, 'lagq': False, 'est': 'endog', 'd': {'seed': 1, 'rho': 0.3, 'x': 'scaled',
                    'noise': 3.0, 'lam': 0.6, 'k': 2, 'het': 1, 'yscale': 100.0}, 'w': {'n': 20, 'seed': 39, 'kind': 'knn', 't': 'r', 'ids': 'perm'}, 'eps': None, 'inv': 'power_exp', 'extra': 0},
                   {'vm': False, 'extra': 0, 'iters': 1, 'n': 67, 'w': {'seed': 0, 't': 'r', 'kind': 'blocks', 'ids': 'str', 'n': 20}, 'slx': 0, 'lagq': True, 'wl': 2, 'd': {'yscale': 100.0, 'het': 0,
                    'noise': 0.5, 'lam': 0.6, 'seed': 570382, 'k': 1, 'x': 'dummy', 'rho': 0.6}, 'step1c': False, 'named': True, 'est': 'endog', 'm': 2, 'eps': None, 'inv': 'true_inv'}])]

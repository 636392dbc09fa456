"""Kelejian-Prucha 1998/99 GMM spatial error estimators."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, gmm
from vlib.core import Sub, sut, series_ok, Reject
from vlib.cmp import *
from vlib import gmmcheck as gc

TITLE = "KP98 GMM"
RULE = ("exogenous / endogenous / spatial-lag error models x nine weights families x instrument lag orders x SLX x 1-2 endogenous variables; "
        "non-trivial = lambda judged against the moment minimum and every other quantity against the filtered regression")
ASSUMPTIONS = ["instruments equilibrated condition < 1e3, regressors < 300",
               "lambda accepted within the precision of a numerical-gradient quasi-Newton search (objective gap 2e-7 of the moment scale or 2e-3)"]


def run(s):
    b = gc.build(s)
    cls = gc.CLS[s["est"]]
    lam = judge(cls + ": ", s, b, gc.call(s, b, cls))
    return {"labels": [s["est"], "slx%d" % s["slx"], "bound" if abs(lam) > .98 else "inner"]}


def judge(what, s, b, m):
    lam = float(arr(m.betas).ravel()[-1])
    first = b.reg.fit(0.0)
    gmm.check_min(what, gmm.KP(first.u, b.W), lam)
    r = gc.filtered(what, s, b, m, lam)
    eq(what + "sig2", m.sig2, r.s2, rtol=1e-8)
    eq_vm(what + "vm", m.vm, r.s2 * ref.xtxi(r.Zh), rtol=1e-6)
    return lam


def run_hard(s):
    """hard_bound raises exactly when lambda (or rho) reaches the bounds, else changes nothing"""
    import spreg
    s["d"]["rho"] = 0.0
    if s["near"] < 0:       # negative dependence is only strong where W has an eigenvalue near minus one
        s["w"].update(kind="rook", t="r")
    s["est"] = {"combo": "exog", "combo_end": "endog"}.get(s["est"], s["est"])
    b = gc.build(s)
    g = gen.rng(s["d"]["seed"], 91)
    e = g.standard_normal((b.n, 1))
    u = np.linalg.solve(np.eye(b.n) - s["near"] / max(1.0, ref.specrad(b.W)) * b.W, e) * s["amp"]
    if s["near"] == -0.999:
        ev, V = np.linalg.eig(b.W)
        u = u + 30 * s["amp"] * V[:, [int(np.argmin(ev.real))]].real
    b.y = b.y + u
    b.reg = gmm.Reg(b.y, b.Z, b.W, b.H)
    cls = gc.CLS[s["est"]] + s["fam"]
    if s["fam"] == "_Het" and s["est"] == "endog":
        raise Reject("see P12")
    free = gc.call(s, b, cls)
    lam = float(arr(free.betas).ravel()[-1])
    try:
        hard = gc.call(s, b, cls, hard_bound=True)
    except Violation as v:
        ok("ounds" in str(v), "%s hard_bound: %s" % (cls, v))
        hard = None
    ok(not (hard is not None and abs(lam) >= 0.99), "%s: hard_bound did not raise at lambda=%.6g" % (cls, lam))
    if hard is None:
        # earlier steps of the weighted estimators may hit the bound too
        ok(abs(lam) >= 0.99 or s["fam"] == "_Hom", "%s: hard_bound raised with lambda=%.6g inside the bounds" % (cls, lam))
    else:
        eq(cls + " betas with hard_bound", hard.betas, arr(free.betas), rtol=1e-10)
        eq(cls + " vm with hard_bound", hard.vm, arr(free.vm), rtol=1e-10)
    return {"labels": [cls, "raised%+d" % np.sign(lam) if hard is None else "quiet"]}


SUBS = [Sub("wide", gen.wide(gc.strat({})), run, quick=120, thorough=800),
        Sub("kp", gc.strat({}), run, quick=1200, thorough=20000),
        Sub("hard_bound", gc.strat({"near": st.sampled_from([0.5, 0.97, 0.999, -0.97, -0.999]), "amp": st.sampled_from([1.0, 30.0]),
                                    "fam": st.sampled_from(["", "_Hom", "_Het"])}), run_hard, quick=400, thorough=5000)]

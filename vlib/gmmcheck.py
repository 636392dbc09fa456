"""Shared case builder and oracle for the GMM spatial error estimators (P10-P12)."""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref, names, gmm
from .core import sut, series_ok, Reject, Violation
from .cmp import *


def strat(extra, transforms=("r", "r", "r", "s"), n=(25, 70)):
    def f():
        return st.fixed_dictionaries(dict({
            "est": st.sampled_from(["exog", "exog", "endog", "combo", "combo_end"]),
            "n": st.integers(*n), "w": gen.w_spec(n=20, transforms=transforms),
            "d": gen.data_spec(k=st.integers(1, 3)), "m": st.sampled_from([1, 1, 2]), "extra": st.integers(0, 2),
            "wl": st.sampled_from([1, 1, 2]), "lagq": st.booleans(), "slx": st.sampled_from([0, 0, 0, 1]), "vm": st.booleans(),
            "named": st.booleans()}, **extra))
    return f


def build(s, yend_scale=1.0):
    """-> model bundle: y, X (with constant and SLX terms), Z, H (None for OLS), names"""
    n, k = s["n"], int(s["d"]["k"])
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    X0 = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    has_end = s["est"] in ("endog", "combo_end")
    if has_end:
        Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X0, s["m"], s["m"] + s["extra"])
        y = gen.gen_y(s["d"], X0, W, Z=Ye) + u0 * s["d"]["yscale"]
        Ye = Ye * yend_scale * s["d"]["yscale"]
    else:
        Ye, Q = np.zeros((n, 0)), np.zeros((n, 0))
        y = gen.gen_y(s["d"], X0, W)
    nx = ["x%d" % j for j in range(k)]
    yn, qn = ["e%d" % j for j in range(Ye.shape[1])], ["q%d" % j for j in range(Q.shape[1])]
    base = {v: X0[:, [j]] for j, v in enumerate(nx)}
    base.update({v: Ye[:, [j]] for j, v in enumerate(yn)})
    base.update({v: Q[:, [j]] for j, v in enumerate(qn)})
    base["yy"] = y
    mk = lambda L: np.hstack([names.col(v, base, W) for v in L])
    b = ref.NS(n=n, k=k, w=w, W=W, y=y, X0=X0, Ye=Ye, Q=Q, nx=nx, yn=yn, qn=qn, has_end=has_end)
    b.name_x = ["CONSTANT"] + nx + names.lagnames(nx, s["slx"])
    b.name_z = b.name_x + yn
    b.H, b.name_h = None, None
    inst = []
    if s["est"].startswith("combo"):
        b.name_z = b.name_z + ["W_yy"]
        for p in range(1, s["wl"] + 1):
            inst += names.lagnames(nx, 1, s["slx"] + p)
            if s["lagq"]:
                inst += names.lagnames(qn, 1, p)
    b.Z = mk(b.name_z)
    if s["est"] != "exog":
        b.name_h = b.name_x + qn + inst
        b.H = mk(b.name_h)
        if b.H.shape[1] > n / 3 or ref.cond(b.H) > 1e3:
            raise Reject("ill-conditioned instruments")
    b.reg = gmm.Reg(y, b.Z, W, b.H)
    if b.Z.shape[1] > n / 4 or ref.cond(b.reg.fit(0.0).Zh) > 300:
        raise Reject("ill-conditioned regressors")
    return b


def call(s, b, cls, **kw):
    import spreg
    if b.get("call"):
        return b.call(cls, **kw)
    a = [b.y, b.X0]
    nm = {}
    if s["named"]:
        nm = dict(name_x=list(b.nx), name_y="yy")
    if b.has_end:
        a += [b.Ye, b.Q]
        if s["named"]:
            nm.update(name_yend=list(b.yn), name_q=list(b.qn))
    if s["est"].startswith("combo"):
        kw.update(w_lags=s["wl"], lag_q=s["lagq"])
    with series_ok(b.W), sut(cls):
        return getattr(spreg, cls)(*a, w=b.w, slx_lags=s["slx"], vm=s["vm"], **nm, **kw)


def filtered(what, s, b, m, lam_prev, tol=1e-6, clampk=None):
    """coefficients of the regression filtered by lam_prev; residual identities"""
    r = b.reg.fit(lam_prev)
    kz = b.Z.shape[1]
    bb = arr(m.betas).reshape(-1, 1)
    same(what + "number of coefficients", bb.shape[0], kz + 1)
    se = np.sqrt(np.diag(r.s2 * ref.xtxi(r.Zh)))
    want = r.b.copy()
    if clampk is not None:
        want[clampk] = clampv(want[clampk])
    eq_coef(what + "coefficients of the filtered regression", bb[:kz], want, se, rtol=tol)
    (b.get('props') or props)(what, s, b, m)
    return r


def clampv(v):
    return np.clip(v, -0.9, 0.9)


def props(what, s, b, m):
    kz = b.Z.shape[1]
    bb = arr(m.betas).reshape(-1, 1)
    lam = float(bb[-1, 0])
    ysc = np.abs(b.y).max() + np.abs(b.Z * bb[:kz].ravel()).max()
    eq(what + "predy", m.predy, b.Z @ bb[:kz], rtol=1e-9, scale=ysc)
    u = b.y - b.Z @ bb[:kz]
    eq(what + "u", m.u, u, rtol=1e-9, scale=ysc)
    eq(what + "e_filtered", m.e_filtered, u - lam * (b.W @ u), rtol=1e-9, scale=ysc)
    eq(what + "pr2", m.pr2, ref.pr2(b.y, b.Z @ bb[:kz]), rtol=1e-6, atol=1e-9)
    inference(m, "z", what=what)
    eq(what + "mean_y", m.mean_y, b.y.mean(), rtol=1e-9, atol=1e-12 * ysc)
    eq(what + "std_y", m.std_y, b.y.std(ddof=1), rtol=1e-9)
    same(what + "n", m.n, b.n)
    same(what + "k", m.k, kz)
    if s["est"].startswith("combo"):
        rho = float(bb[kz - 1, 0])
        eq(what + "rho", m.rho, rho, rtol=1e-12)
        if abs(rho) < 1:
            xb = b.Z[:, :-1] @ bb[:kz - 1]
            ph = np.linalg.solve(np.eye(b.n) - rho * b.W, xb)
            sc = max(np.abs(ph).max(), ysc)
            eq(what + "reduced-form prediction", m.predy_e, ph, rtol=1e-6, scale=sc)
            eq(what + "prediction error", m.e_pred, b.y - ph, rtol=1e-6, scale=sc)
            eq(what + "pr2_e", m.pr2_e, ref.pr2(b.y, ph), rtol=1e-5, atol=1e-7)
    if s["named"]:
        nm = b.name_z + ["lambda"]
        same(what + "names", list(getattr(m, "name_z", m.name_x)), nm)
        if b.name_h is not None and hasattr(m, "name_h"):
            same(what + "instrument names", sorted(m.name_h), sorted(b.name_h))
        table(m, nm)
    else:
        table(m)
    if b.H is not None and hasattr(m, "h"):
        eq(what + "instrument space", projd(arr(m.h)) - projd(b.H), np.zeros((b.n, b.n)), atol=1e-6, scale=0)


def projd(H):
    s = np.sqrt((H ** 2).sum(0))
    q = np.linalg.qr(H / s)[0]
    return q @ q.T


CLS = {"exog": "GM_Error", "endog": "GM_Endog_Error", "combo": "GM_Combo", "combo_end": "GM_Combo"}

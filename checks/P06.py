"""Spatial two-stage least squares (spatial lag model)."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref, names
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "GM_Lag"
RULE = ("random lag-model data x nine weights families x transforms x instrument lag orders 1-3 x SLX orders 0-2 with selections x 0-2 extra "
        "endogenous variables x lag_q x robust options; non-trivial = instruments, estimates, predictions and tests all compared")
ASSUMPTIONS = ["equilibrated condition of the instruments < 1e4 and of the projected regressors < 1e4",
               "power expansion of the estimated rho converges (spreg raises a documented error otherwise)"]


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(25, 80), "w": gen.w_spec(n=20, transforms=("r", "r", "r", "s", "b", "d")),
        "d": gen.data_spec(k=st.integers(1, 4)), "m": st.sampled_from([0, 0, 1, 2]), "extra": st.integers(0, 2),
        "wl": st.sampled_from([1, 1, 2, 3]), "slx": st.sampled_from([0, 0, 1, 1, 2]), "sel": st.integers(0, 15), "lagq": st.booleans(),
        "robust": st.sampled_from([None, None, "white", "hac"]), "k2n": st.booleans(), "imp": st.booleans(), "diag": st.booleans(),
        "form": st.sampled_from(["array", "frame"]), "const": st.booleans(), "vm": st.booleans(),
        "strong": st.booleans()})


def data(s):
    n, k = s["n"], int(s["d"]["k"])
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    if s.get("strong", True):
        s["d"]["noise"] = 0.5
    y, X = gen.build_xy(s["d"], n, W)
    if s["m"]:
        Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
        X0 = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
        y = gen.gen_y(s["d"], X0, W, Z=Ye) + u0 * s["d"]["yscale"]
    else:
        Ye, Q = np.zeros((n, 0)), np.zeros((n, 0))
    return n, k, w, W, y, X, Ye, Q


def setup(s, W, X, Ye, Q, y):
    """-> names and matrices of the model spreg documents"""
    n, k = X.shape
    nx = ["x%d" % j for j in range(k)]
    yn, qn = ["e%d" % j for j in range(Ye.shape[1])], ["q%d" % j for j in range(Q.shape[1])]
    base = {v: X[:, [j]] for j, v in enumerate(nx)}
    base.update({v: Ye[:, [j]] for j, v in enumerate(yn)})
    base.update({v: Q[:, [j]] for j, v in enumerate(qn)})
    base["yy"] = y
    sel = "all"
    snames = list(nx)
    if s["slx"]:
        msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
        if any(msk) and not all(msk):
            sel, snames = msk, [v for v, b in zip(nx, msk) if b]
    name_x = ["CONSTANT"] + nx + names.lagnames(snames, s["slx"])
    name_z = name_x + yn + ["W_yy"]
    inst = []
    for p in range(1, s["wl"] + 1):
        inst += names.lagnames(nx, 1, s["slx"] + p)
        if s["lagq"]:
            inst += names.lagnames(qn, 1, p)
    name_h = name_x + qn + inst
    mk = lambda L: np.hstack([names.col(v, base, W) for v in L])
    return dict(nx=nx, yn=yn, qn=qn, base=base, sel=sel, name_x=name_x, name_z=name_z, name_h=name_h,
                x=mk(name_x), z=mk(name_z), h=mk(name_h))


def estimate(s, w, y, X, Ye, Q, S, gwk=None, **over):
    import spreg
    n = X.shape[0]
    nin, Xin = list(S["nx"]), X
    if s["const"]:
        Xin, nin = ref.cat(X, np.full((n, 1), 2.0)), nin + ["cc"]
    kw = dict(w_lags=s["wl"], lag_q=s["lagq"], slx_lags=s["slx"], robust=s["robust"], gwk=gwk, sig2n_k=s["k2n"],
              spat_diag=s["diag"], spat_impacts="simple" if s["imp"] else None, vm=s["vm"])
    if S["sel"] != "all":
        kw["slx_vars"] = list(S["sel"])
        if s["const"]:
            Xin, nin = X, list(S["nx"])   # a selection refers to the columns given
    if s["form"] == "frame":
        a = [pd.Series(y.ravel(), name="yy"), pd.DataFrame(Xin, columns=nin)]
        if s["m"]:
            a += [pd.DataFrame(Ye, columns=S["yn"]), pd.DataFrame(Q, columns=S["qn"])]
    else:
        a = [y, Xin] + ([Ye, Q] if s["m"] else [])
        kw.update(name_y="yy", name_x=nin)
        if s["m"]:
            kw.update(name_yend=list(S["yn"]), name_q=list(S["qn"]))
    kw.update(over)
    with sut("GM_Lag"):
        return spreg.GM_Lag(*a, w=w, **kw)


def run(s):
    import libpysal
    n, k, w, W, y, X, Ye, Q = data(s)
    S = setup(s, W, X, Ye, Q, y)
    if S["h"].shape[1] > n - 4 or ref.cond(S["h"]) > 1e4:
        raise Reject("ill-conditioned instruments")
    gwk, K = None, None
    if s["robust"] == "hac":
        xy = gen.rng(s["d"]["seed"], 77).random((n, 2))
        gwk = libpysal.weights.Kernel(xy, k=5, function="triangular", fixed=False)
        K = ref.kernel_dense(gwk)
    ex = S["h"][:, len(S["name_x"]):]
    r = ref.tsls(y, S["x"], S["z"][:, len(S["name_x"]):], ex, robust=s["robust"], K=K, sig2n_k=s["k2n"])
    if ref.cond(r.Zh) > 1e4:
        raise Reject("weak identification")
    rho = float(r.betas[-1, 0])
    if not ref.expandable(W, rho) or abs(abs(rho) - 1) < 1e-4:
        raise Reject("power expansion does not converge")
    if s["robust"] == "hac" and np.any(np.diag(r.vm) <= 0):
        raise Reject("hac not positive")
    m = estimate(s, w, y, X, Ye, Q, S, gwk)
    # instruments and regressors
    same("name_z", list(m.name_z), S["name_z"])
    same("name_h as a set", sorted(m.name_h), sorted(S["name_h"]))
    names.check_columns("instrument", m.h, list(m.name_h), S["base"], W)
    names.check_columns("regressor", m.z, list(m.name_z), S["base"], W)
    se = np.sqrt(np.abs(np.diag(r.vm))).reshape(-1, 1)
    se0 = np.sqrt(r.sig2 * np.diag(r.varb)).reshape(-1, 1)
    ys = float(np.abs(y).max())
    same("n,k", (m.n, m.k), (n, r.k))
    eq_coef("betas", m.betas, r.betas, se0, rtol=1e-5)
    eq("rho is the last coefficient", m.rho, m.betas[-1])
    eq("u", m.u, r.u, rtol=1e-5, scale=ys)
    eq("predy", m.predy, r.predy, rtol=1e-5, scale=ys)
    eq("sig2", m.sig2, r.sig2, rtol=1e-5)
    eq_vm("vm", m.vm, r.vm, rtol=1e-4 if s["robust"] else 3e-5)
    inference(m, "z")
    table(m, S["name_z"])
    eq("pr2", m.pr2, ref.pr2(y, r.predy), rtol=1e-5, atol=1e-7)
    # reduced form, at the reported estimates
    b = arr(m.betas)
    lbl = ["m%d" % s["m"], "wl%d" % s["wl"], "slx%d%s" % (s["slx"], "" if S["sel"] == "all" else "sel"), "t:" + s["w"]["t"]]
    if abs(rho) < 1:
        xb = S["z"][:, :-1] @ b[:-1]
        ph = np.linalg.solve(np.eye(n) - b[-1, 0] * W, xb)
        # the series stops once a term's norm is below 1e-10, so its tail is bounded by that
        tail = 1e-9 / max(1e-3, 1 - abs(rho) * min(1.0, ref.specrad(W)))
        eq("predy_e", m.predy_e, ph, rtol=1e-7, scale=np.abs(ph).max(), atol=tail)
        eq("e_pred", m.e_pred, y - ph, rtol=1e-7, scale=np.abs(ph).max() + ys, atol=tail)
        eq("pr2_e", m.pr2_e, ref.pr2(y, ph), rtol=1e-5, atol=1e-6)
        ok("outside the boundary" not in m.summary, "boundary warning although |rho|<1")
    else:
        lbl.append("rho-out")
        ok("outside the boundary (-1, 1)" in m.summary, "no boundary warning although |rho|>=1")
    if s["diag"] and s["robust"] != "hac":
        S0 = W.sum()
        uWu = float((m.u.T @ W @ m.u).item())
        I = n / S0 * uWu / m.utu
        T = float(np.trace(W @ W + W.T @ W))
        a1 = m.u.T @ W @ S["z"]
        want = n * I ** 2 / ((T + 4 / m.sig2n * float((a1 @ r.varb @ a1.T).item())) / ((S0 / n) ** 2 * n))
        stat("ak_test", m.ak_test, want, 1, rtol=1e-4, atol=1e-6)
        ls = [l for l in m.summary.splitlines() if l.startswith("Anselin-Kelejian Test")]
        same("summary AK", ls[0].split()[2:], ["1", "%.3f" % m.ak_test[0], "%.4f" % m.ak_test[1]])
        if s["slx"] == 1 and not s["m"] and S["sel"] == "all":
            be, ga, vm = b[1:k + 1], b[k + 1:2 * k + 1], arr(m.vm)[1:, 1:]
            g = b[-1, 0] * be + ga
            G = np.hstack([b[-1, 0] * np.eye(k), np.eye(k), be])
            V = G @ vm @ G.T
            if np.linalg.cond(V) < 1e10:
                stat("common factor test", m.cfh_test, float((g.T @ np.linalg.solve(V, g)).item()), k, rtol=1e-5, atol=1e-7)
                lbl.append("cfh")
                ls = [l for l in m.summary.splitlines() if l.startswith("Common Factor Hypothesis Test")]
                same("summary CFH", ls[0].split()[4:], ["%d" % k, "%.3f" % m.cfh_test[0], "%.4f" % m.cfh_test[1]])
        else:
            ok(not hasattr(m, "cfh_test"), "common factor test reported for a model it does not apply to")
    return {"labels": lbl}


# -------------------------------------------------------------- boundary and identities
def strat_id():
    return st.fixed_dictionaries({
        "n": st.integers(25, 60), "w": gen.w_spec(n=20), "d": gen.data_spec(k=st.integers(1, 3), rho=st.sampled_from([0.9, 0.95, -0.9, 0.3])),
        "wl": st.integers(1, 2), "hb": st.booleans(), "s": gen.SEED})


def run_id(s):
    """hard_bound; rho can be driven outside (-1,1) by a y that is nearly its own lag"""
    import spreg
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    s["d"]["noise"] = 0.5
    y, X = gen.build_xy(s["d"], n, W)
    # blow up: y* with slope on Wy of about 1/|rho|
    g = gen.rng(s["s"], 4)
    X2 = X
    a = [1.0, 1.6, -1.6][int(g.integers(0, 3))]
    A = np.eye(n) - a * s["d"]["rho"] * W
    if np.linalg.cond(A) > 1e6:
        raise Reject("cond")
    y = np.linalg.solve(A, 1 + X / (X.std(0) + 1e-12) @ np.ones((X.shape[1], 1)) + 0.1 * g.standard_normal((n, 1)))
    C = ref.const(X)
    H = ref.lagpow(W, X, s["wl"])
    if ref.cond(ref.cat(C, H)) > 1e4:
        raise Reject("cond")
    r = ref.tsls(y, C, W @ y, H)
    if ref.cond(r.Zh) > 1e4:
        raise Reject("weak")
    rho = float(r.betas[-1, 0])
    if abs(abs(rho) - 1) < 1e-3:
        raise Reject("at the boundary")
    kw = dict(w=w, w_lags=s["wl"], hard_bound=s["hb"], spat_impacts=None)
    if s["hb"] and abs(rho) >= 1:
        try:
            spreg.GM_Lag(y, X, **kw)
        except Exception as e:
            ok("bounds" in str(e), "hard_bound raised something else: %r" % e)
        else:
            ok(False, "hard_bound=True accepted rho=%.4f" % rho)
        return {"labels": ["hard-bound"]}
    with sut("GM_Lag"):
        m = spreg.GM_Lag(y, X, **kw)
    eq("rho", m.rho, rho, rtol=1e-4)
    out = abs(float(np.squeeze(m.rho))) >= 1
    same("boundary warning shown", "outside the boundary (-1, 1)" in m.summary, out)
    if out:
        eq("predy_e flagged as zeros", m.predy_e, np.zeros((n, 1)))
        ok("Spatial Pseudo R-squared: omitted due to rho outside the boundary" in m.summary, "pseudo R2 not flagged as omitted")
    return {"labels": ["out" if out else "in"]}


SUBS = [Sub("wide", gen.wide(strat), run, quick=120, thorough=800),
        Sub("reference", strat, run, quick=900, thorough=15000), Sub("boundary", strat_id, run_id, quick=150, thorough=3000)]

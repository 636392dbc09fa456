"""OLS estimation and classical inference."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref
from vlib.core import Sub, sut, Violation
from vlib.cmp import *

TITLE = "OLS coefficients, variance, fit statistics and reported table"
RULE = ("random design families (8 shapes), n 8..90, k 1..6, int/float dtypes, Series/array y, constant "
        "columns in x, names given/omitted, sig2n_k on/off; non-trivial = the fit completed and every "
        "reported quantity was compared with an independent QR least-squares reference")
ASSUMPTIONS = ["designs have full column rank with equilibrated condition number < 1e6"]


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(8, 90),
        "d": gen.data_spec(k=st.integers(1, 6)), "spike": st.sampled_from([0, 0, 0, 1, 2]),
        "sig2n_k": st.booleans(),
        "nonspat": st.booleans(),
        "names": st.booleans(),
        "yform": st.sampled_from(["col", "flat", "series", "frame"]),
        "xform": st.sampled_from(["array", "frame", "int", "fortran"]),
        "const": st.sampled_from([0, 0, 1, 2]),
        "vm": st.booleans(),
        "yconst": st.booleans(),
    })


def build(s):
    n = s["n"]
    s["d"]["k"] = min(s["d"]["k"], n - 4)
    y, X = gen.build_xy(s["d"], n)
    if s.get("spike"):        # an indicator of a single observation
        X[:, -1] = 0.0
        X[[0, n - 1, n // 2][s["d"]["seed"] % 3], -1] = [0, 1.0, 1e-3][s["spike"]]
    if s["yconst"]:
        y = y + 1000.0 * s["d"]["yscale"]
    return n, y, X


def run(s):
    import spreg
    n, y, X = build(s)
    if s["xform"] == "int":
        X = np.round(X * 3)
    names = ["v%d" % i for i in range(X.shape[1])]
    # insert constant columns: they must be removed (with a warning), not break the fit
    Xin, nin = X, list(names)
    if s["const"] >= 1:
        Xin = np.hstack([X[:, :1], np.full((n, 1), 7.0), X[:, 1:]])
        nin = names[:1] + ["cst"] + names[1:]
    if s["const"] == 2:
        Xin = np.hstack([Xin, np.zeros((n, 1))])
        nin = nin + ["zero"]
    keep = [j for j in range(X.shape[1]) if np.ptp(X[:, j]) > 0]
    R = ref.const(X[:, keep])
    if not keep or np.linalg.matrix_rank(R) < R.shape[1] or ref.cond(R) > 1e6:
        from vlib.core import Reject
        raise Reject("rank deficient")
    yin = {"col": y, "flat": y.ravel(), "series": pd.Series(y.ravel(), name="ynm"),
           "frame": pd.DataFrame({"ynm": y.ravel()})}[s["yform"]]
    xin = Xin
    if s["xform"] == "frame":
        xin = pd.DataFrame(Xin, columns=nin)
    elif s["xform"] == "int":
        xin = Xin.astype(int)
    elif s["xform"] == "fortran":
        xin = np.asfortranarray(Xin)
    kw = {}
    if s["names"] and s["xform"] != "frame":
        kw["name_x"] = list(nin)
    if s["names"] and s["yform"] in ("col", "flat"):
        kw["name_y"] = "ynm"
    with sut("OLS"):
        m = spreg.OLS(yin, xin, sig2n_k=s["sig2n_k"], nonspat_diag=s["nonspat"], vm=s["vm"], **kw)
    r = ref.ols(y, R, s["sig2n_k"])
    tol = max(1e-8, 1e-14 * ref.cond(R) ** 2 * 10)
    same("n", m.n, r.n)
    same("k", m.k, r.k)
    se = np.sqrt(np.diag(r.vm))
    ys = float(np.abs(y).max())
    # orthogonality of residuals is exactly what defines least squares
    eq("x'x", m.xtx, R.T @ R, rtol=1e-10, scale=np.sqrt(np.outer((R**2).sum(0), (R**2).sum(0))))
    eq_coef("betas", m.betas, r.betas, se.reshape(-1, 1) + np.abs(r.betas), rtol=tol * 100)
    eq("predy", m.predy, r.predy, rtol=tol, scale=ys)
    eq("u", m.u, r.u, rtol=tol, scale=ys)
    eq("predy + u", arr(m.predy) + arr(m.u), y, rtol=1e-12, scale=ys)
    ss = max(1.0, (ys / np.sqrt(r.sig2n)) ** 2)
    eq("utu", m.utu, r.utu, rtol=tol * ss)
    eq("sig2n", m.sig2n, r.sig2n, rtol=tol * ss)
    eq("sig2n_k", m.sig2n_k, r.sig2n_k, rtol=tol * ss)
    eq("sig2", m.sig2, r.sig2, rtol=tol * ss)
    eq_vm("vm", m.vm, r.vm, rtol=tol * 100 * ss)
    eq("mean_y", m.mean_y, y.mean(), rtol=1e-12)
    eq("std_y", m.std_y, y.std(ddof=1), rtol=1e-9 * ss ** .5)
    eq("r2", m.r2, r.r2, atol=tol * ss)
    eq("ar2", m.ar2, r.ar2, atol=tol * ss * 10)
    inference(m, "t")
    want = ["CONSTANT"] + ([names[j] for j in keep] if (s["names"] or s["xform"] == "frame")
                           else None or [])
    if s["names"] or s["xform"] == "frame":
        same("name_x", list(m.name_x), want)
        table(m, want, "t")
    else:
        same("len(name_x)", len(m.name_x), r.k)
        table(m, list(m.name_x), "t")
    if kw.get("name_y") or s["yform"] in ("series", "frame"):
        same("name_y", m.name_y, "ynm")
    else:
        same("name_y", m.name_y, "dep_var")
    if s["const"] or len(keep) < X.shape[1]:
        ok("removed for being constant" in m.summary or "constant" in getattr(m, "warning", ""),
           "constant column dropped silently")
    if s["nonspat"]:
        eq("F", m.f_stat[0], r.f, rtol=tol * ss * 100, atol=1e-9)
        from scipy import stats
        eq("F p", m.f_stat[1], stats.f.sf(float(m.f_stat[0]), r.k - 1, r.n - r.k), rtol=1e-9, atol=1e-14)
        eq("logll", m.logll, r.logl, rtol=tol * ss, scale=r.n)
        eq("aic", m.aic, r.aic, rtol=tol * ss, scale=r.n)
        eq("schwarz", m.schwarz, r.sc, rtol=tol * ss, scale=r.n)
        eq("sig2ML", m.sig2ML, r.sig2n, rtol=tol * ss)
    return {"nontrivial": True, "labels": [s["xform"], s["yform"], "const%d" % s["const"], s["d"]["x"]]}


# ------------------------------------------------------------------ equivariance
def strat_eqv():
    return st.fixed_dictionaries({"n": st.integers(10, 60), "d": gen.data_spec(k=st.integers(1, 4)),
                                  "seed": gen.SEED, "white": st.booleans()})


def run_eqv(s):
    """y -> a y + X c and X -> X A: exact behaviour of least squares under affine maps."""
    import spreg
    n = s["n"]
    y, X = gen.build_xy(s["d"], n)
    g = gen.rng(s["seed"], 3)
    k = X.shape[1]
    if ref.cond(ref.const(X)) > 1e4:
        from vlib.core import Reject
        raise Reject("ill conditioned")
    A = np.eye(k) + 0.3 * g.uniform(-1, 1, (k, k))
    if np.linalg.cond(A) > 50:
        A = np.eye(k)
    c = g.normal(size=(k, 1)) / X.std(0).reshape(-1, 1)
    a = float(g.uniform(0.5, 3)) * (-1 if s["seed"] % 2 else 1)
    y2 = a * y + X @ c * y.std()
    with sut("OLS"):
        kw = {"robust": "white"} if s["white"] else {}
        m1 = spreg.OLS(y, X, **kw)
        m2 = spreg.OLS(y2, X @ A, **kw)
    B = np.zeros((k + 1, k + 1))
    B[0, 0] = 1
    B[1:, 1:] = np.linalg.inv(A)
    b = a * arr(m1.betas)
    b[1:] += c * y.std()
    V = B @ (a * a * arr(m1.vm)) @ B.T
    eq_vm("vm under y->ay+Xc, X->XA", m2.vm, V, rtol=1e-5)
    eq_coef("betas under y->ay+Xc, X->XA", m2.betas, B @ b, np.sqrt(np.diag(V)).reshape(-1, 1) + np.abs(B @ b), rtol=1e-6)
    eq("u scales", m2.u, a * arr(m1.u), rtol=1e-7, scale=np.abs(y2).max())
    return {"labels": ["white" if s["white"] else "classic"]}


SUBS = [Sub("wide", gen.wide(strat), run, quick=120, thorough=800),
        Sub("reference", strat, run, quick=900, thorough=20000),
        Sub("affine", strat_eqv, run_eqv, quick=300, thorough=6000)]

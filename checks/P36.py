"""Matrix helpers against their dense definitions."""
import copy
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from vlib import gen, ref
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "Matrix utilities"
RULE = ("spatial lags, filters, power series and true inverses (pre- and post-multiplied, vectors and matrices, dense, CSR and CSC weights), sparse/dense product, stack, broadcast, extrema, diagonal, inverse and log-determinant helpers, "
        "GMM weighting-matrix builders, symmetrisation and nearest-neighbour weights, against dense definitions over weights families, transforms, ids, formats and parameters; non-trivial = a parameter away from zero or n > 3")
ASSUMPTIONS = ["convergence is demanded when the absolute row sums of parameter times weights stay below 0.97; otherwise the series may refuse, but a value it returns has to solve the system",
               "determinants positive (the documented use)", "products |parameter| x spectral radius within 0.03 of one are not tried"]


def D(a):
    return np.asarray(a.toarray() if sp.issparse(a) else a, dtype=float)


def strat_inv():
    return st.fixed_dictionaries({"n": st.integers(3, 50), "w": gen.w_spec(n=20, transforms=("r", "r", "b", "d", "o", "v", "s")), "rho": st.sampled_from([0.0, 0.1, 0.5, -0.5, 0.9, -0.9, 0.95, 0.9995, -0.9995, 1.2, -1.3, 3.0]), "scale": st.sampled_from(["rad", "rad", "row", "raw"]),
                                  "c": st.integers(1, 3), "form": st.sampled_from(["W", "W", "csr", "csc"]), "post": st.booleans(), "seed": gen.SEED, "im": st.sampled_from(["power_exp", "power_exp", "true_inv", None]), "dt": st.sampled_from(["float", "float", "int"]),
                                  "mag": st.sampled_from([1.0, 1e3, 1e-3]), "T": st.integers(1, 3), "lags": st.integers(1, 4), "thr": st.sampled_from([None, None, 1e-6])})


def run_inv(s):
    import spreg
    from spreg import utils as U
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    g = gen.rng(s["seed"], 701)
    v = g.standard_normal((n, s["c"])) * s["mag"]
    if s["dt"] == "int":
        v = np.round(v * 5).astype(int)
    rad, row = ref.specrad(W), np.abs(W).sum(1).max()
    rho = s["rho"] / {"rad": max(rad, 1e-3), "row": row, "raw": 1.0}[s["scale"]]
    I = np.eye(n)
    sw = w.sparse
    obj = {"W": w, "csr": sp.csr_matrix(sw), "csc": sp.csc_matrix(sw)}[s["form"]]
    labels = []
    # ------------------------------------------------------------- (I - rho W)^-1
    kw = {}
    if s["im"]:
        kw["inv_method"] = s["im"]
    if s["thr"]:
        kw["threshold"] = s["thr"]
    near = 0.97 < abs(rho) * rad < 1.03 and not (0.999 < abs(rho) < 1)
    A = I - rho * W
    sing = np.linalg.cond(A) > 1e10
    v0 = np.array(v, copy=True)
    arg = v
    if not near and not sing:
        must = abs(rho) * row < 0.97 or s["im"] == "true_inv"
        y = None
        try:
            with sut("inverse_prod", expect=() if must else (Exception,)):
                y = U.inverse_prod(obj, arg, rho, post_multiply=s["post"], **kw)
        except Violation:
            raise
        except Exception as e:
            ok("will not converge" in str(e), "inverse_prod failed with %s: %s" % (type(e).__name__, e))
            ok(abs(rho) * row >= 0.97, "inverse_prod refused a convergent series")
            labels.append("refused")
        if y is not None:
            same("inverse_prod shape", np.shape(y), (s["c"], n) if s["post"] else (n, s["c"]))
            M = A.T if s["post"] else A
            yy = np.asarray(y, dtype=float)
            yy = yy.T if s["post"] else yy
            eq("inverse_prod: (I - rho W) applied to the result", M @ yy, v, rtol=1e-9, atol=10 * (s["thr"] or 1e-9) + 1e-13 * np.linalg.cond(A) * float(np.abs(v).max()))
            labels.append("%s-%s" % (s["im"] or "default", s["form"]))
        ok(np.array_equal(v, v0), "inverse_prod changed its data")
        # a limited number of terms is the truncated series
        with sut("power_expansion with a limit"):
            k = 3
            try:
                pt = U.power_expansion(obj, v, rho, max_iterations=k, threshold=0)
            except Exception as e:
                if "will not converge" not in str(e):
                    raise
                ok(abs(rho) * row >= 0.97, "power_expansion refused a convergent series")
                pt = None
        if pt is not None:
            tot = sum(np.linalg.matrix_power(rho * W, i) @ v for i in range(k + 1))
            eq("power_expansion of %d terms" % k, pt, tot, rtol=1e-10, atol=1e-12 * float(np.abs(v).max()))
    try:
        with sut("inverse_prod with an unknown method", expect=(Exception,)):
            U.inverse_prod(w, v, 0.1, inv_method="nope")
        ok(False, "inverse_prod accepted an unknown method")
    except Violation:
        raise
    except Exception:
        pass
    # ------------------------------------------------------------- filters and lags
    T = s["T"]
    vv = g.standard_normal((n * T, s["c"])) * s["mag"]
    WT = np.kron(np.eye(T), W)
    with sut("get_spFilter"):
        f = U.get_spFilter(obj, rho, vv)
    eq("get_spFilter (T=%d)" % T, f, vv - rho * WT @ vv, rtol=1e-11, scale=float(np.abs(vv).max() * (1 + abs(rho) * row)))
    with sut("get_lags"):
        l1 = U.get_lags(w, vv[:n], s["lags"])
        l2 = U.get_lags(w, vv, s["lags"], panel=True)
    for nm, l, M, x in (("get_lags", l1, W, vv[:n]), ("get_lags panel", l2, WT, vv)):
        want, cur = [], x
        for _ in range(s["lags"]):
            cur = M @ cur
            want.append(cur)
        eq(nm, D(l), np.hstack(want), rtol=1e-11)
        same(nm + " shape", l.shape, (x.shape[0], s["lags"] * s["c"]))
    if s["lags"] > 1:
        for at in range(1, s["lags"]):
            with sut("get_lags_split"):
                a, b = U.get_lags_split(w, vv[:n], s["lags"], at)
            same("get_lags_split widths", (a.shape[1], b.shape[1]), (at * s["c"], (s["lags"] - at) * s["c"]))
            eq("get_lags_split", np.hstack([a, b]), D(l1), rtol=1e-12)
    for at in (0, s["lags"]):
        try:
            with sut("get_lags_split", expect=(ValueError,)):
                U.get_lags_split(w, vv[:n], s["lags"], at)
            ok(False, "get_lags_split(%d, %d) did not refuse" % (s["lags"], at))
        except ValueError:
            pass
    # ------------------------------------------------------------- endogenous lag and its instruments
    x, q, ye, y = vv[:n], g.standard_normal((n, 2)), g.standard_normal((n, 1)), g.standard_normal((n, 1))
    L = s["lags"]
    for lag_q in (True, False):
        with sut("set_endog"):
            e1, q1 = U.set_endog(y, x, w, ye, q, L, lag_q)
            e0, q0 = U.set_endog(y, x, w, None, None, L, lag_q)
            e2, q2 = U.set_endog_sparse(y, x, sp.csr_matrix(sw), ye, q, L, lag_q)
            e3, q3 = U.set_endog_sparse(y, x, sp.csr_matrix(sw), None, None, L, lag_q)
        base = np.hstack([x, q]) if lag_q else x
        want, cur = [q], base
        for _ in range(L):
            cur = W @ cur
            want.append(cur)
        for nm, e, qq in (("set_endog", e1, q1), ("set_endog_sparse", e2, q2)):
            eq(nm + " endogenous", e, np.hstack([ye, W @ y]), rtol=1e-12)
            eq(nm + " instruments", qq, np.hstack(want), rtol=1e-11)
        for nm, e, qq in (("set_endog", e0, q0), ("set_endog_sparse", e3, q3)):
            eq(nm + " (no yend) endogenous", e, W @ y, rtol=1e-12)
            eq(nm + " (no yend) instruments", qq, D(l1), rtol=1e-11)
    return {"labels": labels + [s["w"]["t"]], "nontrivial": rho != 0}


# ------------------------------------------------------------------------ sparse/dense helpers
def strat_sp():
    return st.fixed_dictionaries({"n": st.integers(1, 30), "k": st.integers(1, 5), "m": st.integers(1, 5), "fa": st.sampled_from(["nd", "csr", "csc"]), "fb": st.sampled_from(["nd", "csr", "csc"]), "seed": gen.SEED, "out": st.booleans(), "dens": st.sampled_from([0.1, 0.5, 1.0]),
                                  "w": gen.w_spec(n=20, transforms=("r", "r", "b", "d", "o", "v", "s")), "wn": st.integers(4, 40), "rho": st.sampled_from([0.3, -0.4, 0.7, 0.0])})


def run_sp(s):
    from spreg import sputils as S, utils as U, w_utils
    g = gen.rng(s["seed"], 702)
    n, k, m = s["n"], s["k"], s["m"]

    def mat(r, c):
        return g.standard_normal((r, c)) * (g.random((r, c)) < s["dens"])

    def form(a, f):
        return {"nd": lambda: a.copy(), "csr": lambda: sp.csr_matrix(a), "csc": lambda: sp.csc_matrix(a)}[f]()

    A, B, C = mat(n, k), mat(k, m), mat(n, m)
    fa, fb, out = s["fa"], s["fb"], s["out"]
    sparse_in = fa != "nd" or fb != "nd"
    with sut("spdot"):
        r = S.spdot(form(A, fa), form(B, fb), array_out=out)
        r2 = S.spdot(form(A, fa).T, form(C, fb), array_out=out)
    for nm, rr, want in (("spdot", r, A @ B), ("spdot transposed", r2, A.T @ C)):
        eq(nm, D(rr), want, rtol=1e-12, atol=1e-14)
        same(nm + " shape", rr.shape, want.shape)
        same(nm + " sparse result", sp.issparse(rr), fa != "nd" and fb != "nd" and not out)
    A2 = mat(n, k)
    if (fa == "nd") == (fb == "nd"):
        with sut("spmultiply"):
            r = S.spmultiply(form(A, fa), form(A2, fb), array_out=out)
        eq("spmultiply", D(r), A * A2, rtol=1e-13)
        same("spmultiply sparse result", sp.issparse(r), fa != "nd" and not out)
    if (fa == "nd" and fb == "nd") or "csr" in (fa, fb):
        with sut("sphstack"):
            r = S.sphstack(form(A, fa), form(C, fb), array_out=out)
        eq("sphstack", D(r), np.hstack([A, C]), rtol=0, atol=0)
        same("sphstack shape", r.shape, (n, k + m))
        same("sphstack sparse result", sp.issparse(r), sparse_in and not out)
    v = g.standard_normal((n, 1))
    if fa in ("nd", "csr"):
        with sut("spbroadcast"):
            r = S.spbroadcast(form(A, fa), v, array_out=out)
        eq("spbroadcast", D(r), A * v, rtol=1e-13)
        same("spbroadcast shape", r.shape, A.shape)
    with sut("spmin/spmax/spisfinite"):
        a = form(A, fa)
        mn, mx, fin = S.spmin(a), S.spmax(a), S.spisfinite(a)
    eq("spmin", mn, A.min())
    eq("spmax", mx, A.max())
    same("spisfinite", bool(fin), True)
    for bad in (np.nan, np.inf, -np.inf):
        A3 = A.copy()
        A3[n // 2, k // 2] = bad
        with sut("spisfinite"):
            same("spisfinite with %r" % bad, bool(S.spisfinite(form(A3, fa))), False)
    for pair in (("nd", [[1.0]]),):
        try:
            with sut("spdot of a list", expect=(Exception,)):
                S.spdot(pair[1], pair[1])
            ok(False, "spdot accepted lists")
        except Violation:
            raise
        except Exception:
            pass
    # ------------------------------------------------------------- square, weights-like
    wn = s["wn"]
    s["w"]["n"] = wn
    w, W = gen.build_w(s["w"])
    rad = ref.specrad(W)
    rho = s["rho"] / max(1.0, rad)
    M = np.eye(wn) - rho * W
    f = "csc" if fa == "csr" else fa
    with sut("splogdet/spinv/spfill_diagonal"):
        ld = S.splogdet(form(M, f))
        iv = S.spinv(form(M, f))
        fd = S.spfill_diagonal(form(M, fa), 2.5)
    eq("splogdet", ld, np.linalg.slogdet(M)[1], rtol=1e-9, atol=1e-10)
    eq("spinv", D(iv) @ M, np.eye(wn), rtol=1e-9)
    M2 = M.copy()
    np.fill_diagonal(M2, 2.5)
    eq("spfill_diagonal", D(fd), M2)
    sw = sp.csr_matrix(w.sparse)
    WtW = W.T @ W
    t = np.trace(WtW) / wn
    with sut("weighting matrices"):
        a1 = U.get_A1_het(sw)
        h1 = U.get_A1_hom(sw)
        h2 = U.get_A1_hom(sw, scalarKP=True)
        a2 = U.get_A2_hom(sw)
    eq("get_A1_het", D(a1), WtW - np.diag(np.diag(WtW)), rtol=1e-12)
    eq("get_A1_hom", D(h1), WtW - t * np.eye(wn), rtol=1e-12)
    eq("get_A1_hom scaled", D(h2), (WtW - t * np.eye(wn)) / (1 + t ** 2), rtol=1e-12)
    eq("get_A2_hom", D(a2), (W + W.T) / 2, rtol=1e-12)
    # moments of a residual vector, by their definition as quadratic forms
    e = g.standard_normal((wn, 1))
    with sut("_moments2eqs"):
        G, gg = U._moments2eqs(a1, sw, e)
    Q = [D(a1), W]
    for lam in (0.0, 0.4, -0.7, 1.3):
        f_ = e - lam * W @ e
        want = [float((f_.T @ q @ f_).item()) / wn for q in Q]
        got = gg.reshape(-1) - G @ np.array([lam, lam ** 2])
        eq("moment conditions at lambda=%s" % lam, got, want, rtol=1e-9, scale=float(np.abs(gg).max() + np.abs(G).max()))
    # ------------------------------------------------------------- symmetrisation
    raw = gen.dense_w(s["w"])
    with sut("symmetrizable"):
        sm = w_utils.symmetrizable(w)
    symraw = bool(np.allclose(raw, raw.T, rtol=1e-13, atol=0))
    base = raw if s["w"]["t"] != "s" else W
    same("symmetrizable", bool(sm), symraw)
    if symraw and s["w"]["t"] in ("r", "d", "b", "o", "s", "v"):
        with sut("symmetrize"):
            z = D(w_utils.symmetrize(w))
        eq("symmetrize is symmetric", z, z.T, rtol=1e-12)
        eq("symmetrize keeps the eigenvalues", np.sort(np.linalg.eigvalsh((z + z.T) / 2)), np.sort(np.linalg.eigvals(W).real), rtol=1e-7, atol=1e-7)
    return {"labels": [fa + "*" + fb, s["w"]["t"]], "nontrivial": n > 3}


# ------------------------------------------------------------------------ distance-fraction weights
def strat_d():
    return st.fixed_dictionaries({"n": st.integers(4, 60), "k": st.integers(1, 8), "seed": gen.SEED, "ub": st.sampled_from([np.inf, np.inf, 0.3, 0.15]), "tr": st.sampled_from(["power", "exponential", "Power", "EXPONENTIAL"]), "metric": st.sampled_from(["Euclidean", "Euclidean", "Arc"]), "leaf": st.sampled_from([None, 5])})


def run_d(s):
    from spreg import utils as U
    n, k = s["n"], min(s["k"], s["n"] - 1)
    xy = gen.rng(s["seed"], 703).random((n, 2))
    if s["metric"] == "Arc":
        ll = xy * [40, 30] + [-100, 20]
        lo, la_ = np.radians(ll[:, 0]), np.radians(ll[:, 1])
        P = np.c_[np.cos(la_) * np.cos(lo), np.cos(la_) * np.sin(lo), np.sin(la_)]
        d = 2 * np.arcsin(np.minimum(1, np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1)) / 2)) * 6371.0
        ub = s["ub"] * 3000
        pts = ll
    else:
        d = np.sqrt(((xy[:, None] - xy[None]) ** 2).sum(-1))
        ub, pts = s["ub"], xy
    dd = d.copy()
    np.fill_diagonal(dd, np.inf)
    kw = {} if s["leaf"] is None else {"leafsize": s["leaf"]}
    nb = [[j for j in np.argsort(dd[i])[:k] if dd[i, j] <= ub] for i in range(n)]
    if any(not b for b in nb):
        raise Reject("a point without neighbours within the bound")
    with sut("make_wnslx"):
        got = U.make_wnslx(pts, (k, ub, s["tr"]), distance_metric=s["metric"], **kw)
    want = np.zeros((n, n))
    pat = np.zeros((n, n), bool)
    for i in range(n):
        mx = max(d[i, j] for j in nb[i])
        for j in nb[i]:
            r = d[i, j] / mx
            want[i, j] = 1 - r if s["tr"].lower() == "power" else r
            pat[i, j] = True
    same("make_wnslx shape", got.shape, (n, n))
    eq("make_wnslx", D(got), want, rtol=1e-6, atol=1e-7)
    st_ = np.zeros((n, n), bool)
    c = got.tocoo()
    st_[c.row, c.col] = True
    ok(np.array_equal(st_, pat), "make_wnslx stores other neighbours than the %d nearest within the bound" % k)
    return {"labels": [s["metric"], s["tr"].lower(), "bounded" if np.isfinite(ub) else "free"]}


SUBS = [Sub("inverse-lags", strat_inv, run_inv, quick=1600, thorough=30000), Sub("sparse", strat_sp, run_sp, quick=1600, thorough=30000), Sub("distance", strat_d, run_d, quick=500, thorough=10000)]

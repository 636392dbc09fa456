"""Equation systems: seemingly unrelated regressions, their inputs in every accepted form, dense references."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats
from . import gen, ref, reg
from .core import Reject

FORMS = ["dict", "dict", "dict", "named", "frame", "table", "long"]


def spec(n=(16, 50), m=(2, 4), kmax=3, endog=False, transforms=("r", "r", "r", "s"), regimes=False):
    d = {"n": st.integers(*n), "m": st.integers(*m), "ks": st.lists(st.integers(1, kmax), min_size=4, max_size=4), "eqk": st.booleans(), "common": st.sampled_from([0, 0, 0, 1]),
         "cor": st.sampled_from([0.0, 0.5, 0.9, -0.4]), "seed": gen.SEED, "noise": st.sampled_from([1.0, 0.3, 3.0]), "ys": st.sampled_from([1.0, 1.0, 100.0, 0.01]),
         "xk": st.sampled_from(["normal", "shift", "scale", "corr", "dummy"]), "form": st.sampled_from(FORMS), "rho": st.sampled_from([0.0, 0.4, 0.7, -0.3]),
         "lam": st.sampled_from([0.0, 0.4, 0.7, -0.3]), "w": gen.w_spec(n=20, transforms=transforms)}
    if endog:
        d["ms"] = st.lists(st.integers(1, 2), min_size=4, max_size=4)
        d["ov"] = st.lists(st.integers(0, 1), min_size=4, max_size=4)
    if regimes:
        d["R"], d["lab"], d["lay"], d["box"] = st.sampled_from([2, 2, 3]), reg.SPEC["lab"], reg.SPEC["lay"], reg.SPEC["box"]
        d["d"] = st.fixed_dictionaries({"seed": gen.SEED})
    return d


def build(s, endog=False, lag=False, err=False):
    n, m = s["n"], s["m"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    g = gen.rng(s["seed"], 401)
    L = np.linalg.cholesky(np.full((m, m), max(s["cor"], -0.8 / (m - 1))) + np.eye(m) * (1 - max(s["cor"], -0.8 / (m - 1))))
    E = g.standard_normal((n, m)) @ L.T * s["noise"] * g.uniform(0.5, 2, m)
    c = ref.NS(n=n, m=m, w=w, W=W, y={}, X={}, Z={}, Q={}, nx={}, ny={}, nz={}, nq={})
    ev = max(1.0, np.abs(np.linalg.eigvals(W)).max())
    X0 = None
    common = g.standard_normal((n, 1))
    for r in range(m):
        k = s["ks"][0] if (s["eqk"] or s["common"]) else s["ks"][r]
        X = g.standard_normal((n, k))
        if s["xk"] == "shift":
            X = X + 5 + np.arange(k)
        elif s["xk"] == "scale":
            X = X * 10.0 ** (np.arange(k) - 1.0)
        elif s["xk"] == "corr":
            X = X + 1.3 * common
        elif s["xk"] == "dummy":
            X[:, 0] = g.random(n) < 0.5
            X[:4, 0] = [0, 1, 0, 1]
        if s["common"]:
            X0 = X if X0 is None else X0
            X = X0
        c.X[r] = ref.const(X)
        c.nx[r] = ["v%s%d" % ("" if s["common"] else "%d_" % r, j) for j in range(k)]
        xb = 1.0 + (X / (X.std(0) + 1e-12)) @ g.uniform(-1.5, 2, (k, 1))
        e = E[:, r:r + 1]
        if endog:
            p = s["ms"][0] if s["eqk"] else s["ms"][r]
            q = p + s["ov"][r]
            c.Q[r] = g.standard_normal((n, q)) + 0.2 * common
            c.Z[r] = c.Q[r] @ (g.uniform(0.7, 1.4, (q, p)) * np.where(g.random((q, p)) < 0.3, -1, 1)) + 0.5 * e / s["noise"] + 0.6 * g.standard_normal((n, p))
            xb = xb + c.Z[r] @ g.uniform(-1, 1.5, (p, 1))
            c.nz[r] = ["z%d_%d" % (r, j) for j in range(p)]
            c.nq[r] = ["q%d_%d" % (r, j) for j in range(q)]
        B = np.eye(n) - (s["lam"] if err else 0.0) * (1 if r % 2 == 0 else 0.5) / ev * W
        A = np.eye(n) - (s["rho"] if lag else 0.0) * (1 if r % 2 == 0 else 0.5) / ev * W
        c.y[r] = np.linalg.solve(A, xb + np.linalg.solve(B, e)) * s["ys"]
        c.ny[r] = "out%d" % r
    if "R" in s:
        c.lab = reg.labels(s, n)
    return c


def inputs(s, c, first, endog=False):
    """-> (positional bigy, bigX[, bigyend, bigq]), keyword arguments, names {y, x, z, q}; `first` is the number the class starts its default names with"""
    m, form = c.m, s["form"]
    kw = {}
    cp = lambda d: {r: d[r].copy() for r in range(m)}
    if form == "long" and (s["common"] or len({len(c.nx[r]) for r in range(m)}) > 1 or endog):
        form = "frame"
    if form in ("frame", "table"):
        cols = {}
        for r in range(m):
            cols[c.ny[r]] = c.y[r][:, 0]
            for j, v in enumerate(c.nx[r]):
                cols[v] = c.X[r][:, 1 + j]
            if endog:
                for j, v in enumerate(c.nz[r]):
                    cols[v] = c.Z[r][:, j]
                for j, v in enumerate(c.nq[r]):
                    cols[v] = c.Q[r][:, j]
        df = pd.DataFrame(cols)
        if form == "table":
            df = {k: list(v) for k, v in cols.items()}
        kw["df"] = df
        pos = [[c.ny[r] for r in range(m)], [list(c.nx[r]) for r in range(m)]]
        names = ref.NS(y=dict(c.ny), x={r: ["Constant_%d" % (r + 1)] + c.nx[r] for r in range(m)})
        if endog:
            pos += [[list(c.nz[r]) for r in range(m)], [list(c.nq[r]) for r in range(m)]]
            names.z, names.q = {r: list(c.nz[r]) for r in range(m)}, {r: list(c.nq[r]) for r in range(m)}
        return pos, kw, names
    pos = [cp(c.y), cp(c.X)]
    if endog:
        pos += [cp(c.Z), cp(c.Q)]
    if form == "named":
        names = ref.NS(y=dict(c.ny), x={r: ["Const%d" % r] + c.nx[r] for r in range(m)})
        kw = dict(name_bigy=dict(c.ny), name_bigX={r: list(names.x[r]) for r in range(m)})
        if endog:
            names.z, names.q = {r: list(c.nz[r]) for r in range(m)}, {r: list(c.nq[r]) for r in range(m)}
            kw.update(name_bigyend={r: list(c.nz[r]) for r in range(m)}, name_bigq={r: list(c.nq[r]) for r in range(m)})
        return pos, kw, names
    fy, fx = first
    names = ref.NS(y={r: "dep_var_%d" % (r + fy) for r in range(m)},
                   x={r: ["Constant_%d" % (r + fx)] + ["var_%d_%d" % (j + 1, r + fx) for j in range(len(c.nx[r]))] for r in range(m)})
    if endog:
        names.z = {r: ["end_%d_%d" % (j + 1, r + 1) for j in range(c.Z[r].shape[1])] for r in range(m)}
        names.q = {r: ["inst_%d_%d" % (j + 1, r + 1) for j in range(c.Q[r].shape[1])] for r in range(m)}
    if form == "long":      # one row per unit and period, rows in any order of periods, then split by the library itself
        from spreg import sur_dictxy
        k = len(c.nx[0])
        per = [1970 + 10 * r for r in range(m)]
        g = gen.rng(s["seed"], 402)
        rows = [(i, r) for i in range(c.n) for r in range(m)]
        if s["seed"] % 2:
            rows = [(i, r) for r in g.permutation(m) for i in range(c.n)]
        if s["seed"] % 3 == 0:      # any order, the units first appearing in their own
            rest = [(i, r) for i in range(c.n) for r in range(1, m)]
            rows = [(i, 0) for i in range(c.n)] + [rest[i] for i in g.permutation(len(rest))]
        cols = {"unit": [500 + i for i, r in rows], "year": [per[r] for i, r in rows], "out": [c.y[r][i, 0] for i, r in rows]}
        for j in range(k):
            cols["v%d" % j] = [c.X[r][i, 1 + j] for i, r in rows]
        by, bx, ny, nx = sur_dictxy(pd.DataFrame(cols), ["out"], [["v%d" % j for j in range(k)]], space_id=["unit"], time_id=["year"])
        names = ref.NS(y={r: "out_%d" % per[r] for r in range(m)}, x={r: ["Constant_%d" % per[r]] + ["v%d_%d" % (j, per[r]) for j in range(k)] for r in range(m)})
        return [by, bx], dict(name_bigy=ny, name_bigX=nx), names
    return pos, kw, names


# ------------------------------------------------------------------ references
def stack(d):
    n, m = d[0].shape[0], len(d)
    K = [d[r].shape[1] for r in range(m)]
    M = np.zeros((n * m, sum(K)))
    p = 0
    for r in range(m):
        M[r * n:(r + 1) * n, p:p + K[r]] = d[r]
        p += K[r]
    return M, K


def split(b, K):
    o, p = {}, 0
    for r, k in enumerate(K):
        o[r] = b[p:p + k]
        p += k
    return o


def gls(y, X, S):
    """generalised least squares of the stacked system with error covariance S kron I"""
    m, n = len(y), y[0].shape[0]
    M, K = stack(X)
    L = np.linalg.cholesky(np.linalg.inv(S)).T           # L'L = S^-1
    T = np.kron(L, np.eye(n))
    b = ref.lsq(T @ M, T @ np.vstack([y[r] for r in range(m)]))[0]
    return split(b, K), ref.xtxi(T @ M)


def resid(y, X, b):
    return np.hstack([y[r] - X[r] @ b[r] for r in range(len(y))])


def ols(y, X):
    return {r: ref.lsq(X[r], y[r])[0] for r in range(len(y))}


def logdet(S):
    return np.linalg.slogdet(S)[1]


def corr(S):
    d = np.sqrt(np.diag(S))
    return S / np.outer(d, d)


def good(X, lim=1e3):
    for r in X:
        if X[r].shape[1] > X[r].shape[0] / 3 or ref.cond(X[r]) > lim:
            raise Reject("ill-conditioned")
    return X


def good_sig(S, lim=1e4):
    if np.linalg.cond(corr(S)) > lim or not np.all(np.diag(S) > 0):
        raise Reject("singular residual covariance")
    return S


def wald(b, V, R):
    d = R @ b
    A = R @ V @ R.T
    sc = np.sqrt(np.diag(A))
    return ((d / sc.reshape(-1, 1)).T @ np.linalg.solve(A / np.outer(sc, sc), d / sc.reshape(-1, 1))).item()

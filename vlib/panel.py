"""Panel cases: long (stacked by period) data and its other layouts, dense references."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from . import gen, ref
from .core import Reject

LAYOUTS = ["long", "long", "wide", "longdf", "widedf", "series"]


def spec(transforms=("r", "r", "r", "s"), N=(12, 36), T=(2, 2, 3, 3, 4, 5, 14), k=(1, 3), kinds=None, slx=(0, 0, 0, 1, 2)):
    return {"N": st.integers(*N), "T": st.sampled_from(list(T)), "k": st.integers(*k), "w": gen.w_spec(n=20, transforms=transforms, kinds=kinds),
            "seed": gen.SEED, "xk": st.sampled_from(["normal", "shift", "unit", "corr", "onset", "dummy"]), "mu": st.sampled_from([0.0, 0.7, 2.0]),
            "fe": st.booleans(), "lam": st.sampled_from([0.0, 0.4, 0.7, -0.3]), "rho": st.sampled_from([0.0, 0.3, 0.6]), "ys": st.sampled_from([1.0, 1.0, 50.0, 0.02]),
            "noise": st.sampled_from([1.0, 0.4, 2.5]), "lay": st.sampled_from(LAYOUTS), "named": st.booleans(), "const": st.sampled_from([0, 0, 0, 1]),
            "slx": st.sampled_from(list(slx)), "sel": st.integers(0, 15), "vm": st.booleans()}


def build(s, model="error"):
    """-> c: N, T, k, W, y (NT x 1), X (NT x k), stacked by period"""
    N, T, k = s["N"], s["T"], s["k"]
    s["w"]["n"] = N
    w, W = gen.build_w(s["w"])
    g = gen.rng(s["seed"], 301)
    X = g.standard_normal((T, N, k))
    unit = g.standard_normal((1, N, k))
    if s["xk"] in ("unit", "corr"):
        X = X * 0.7 + unit
    if s["xk"] == "corr":
        X = X + 1.2 * g.standard_normal((T, N, 1))
    if s["xk"] == "shift":
        X = X + 4.0 + np.arange(k)
    if s["xk"] == "dummy":
        X[:, :, 0] = g.random((T, N)) < 0.4
        X[0, :2, 0], X[-1, :2, 0] = [0, 1], [1, 0]
    if s["xk"] == "onset":        # a variable that is constant in the first period
        X[0, :, k - 1] = 0.0
        X[1:, :, k - 1] = g.random((T - 1, N)) < 0.5
        X[1, :3, k - 1] = [1, 0, 1]
    if s.get("inv") and k > 1:    # a regressor that does not vary over time
        X[:, :, (s["inv"] - 1) % k] = unit[:, :, (s["inv"] - 1) % k] + (4.0 if s["xk"] == "shift" else 0.0)
    X = X * s.get("xs", 1.0)
    b = (g.uniform(-2, 2, (k, 1)) + 0.5) / s.get("xs", 1.0)
    mu = s["mu"] * g.standard_normal((N, 1))
    if s["fe"]:
        mu = mu + 0.8 * X.mean(0).sum(1, keepdims=True) * (s["mu"] > 0) / s.get("xs", 1.0)
    ev = max(1.0, np.abs(np.linalg.eigvals(W)).max())
    A = np.linalg.inv(np.eye(N) - (s["rho"] if model == "lag" else 0.0) / ev * W)
    B = np.linalg.inv(np.eye(N) - (s["lam"] if model == "error" else 0.0) / ev * W)
    Y = np.stack([A @ (1.0 + X[t] @ b + mu + B @ (g.standard_normal((N, 1)) * s["noise"])) for t in range(T)]) * s["ys"]
    c = ref.NS(N=N, T=T, k=k, w=w, W=W, y=Y.reshape(-1, 1), X=X.reshape(N * T, k))
    c.WT = np.kron(np.eye(T), W)
    c.nx = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kap", "lam", "mu"][:k]
    if not s["lay"].startswith("wide") and s["seed"] % 3 == 0:      # long data keep digits in the names
        c.nx = ["a1", "b20", "c1990", "d", "a10", "a100", "b2", "e", "f", "g3", "h", "z12"][:k]
    c.sel = None
    if s["slx"]:
        c.sel = [bool((s["sel"] >> j) & 1) for j in range(k)]
        if not any(c.sel) or all(c.sel):
            c.sel = None
    c.XL, c.names = c.X, list(c.nx)
    if s["slx"]:
        use = [j for j in range(k) if c.sel is None or c.sel[j]]
        M = c.X[:, use]
        for p in range(1, s["slx"] + 1):
            M = c.WT @ M
            c.XL = np.hstack([c.XL, M])
            c.names += ["W%s_%s" % ("" if p == 1 else str(p), c.nx[j]) for j in use]
    return c


def demean(M, N, phi=0.0):
    """remove (1 - phi) times the unit means"""
    T = M.shape[0] // N
    m = M.reshape(T, N, -1)
    return (m - (1 - phi) * m.mean(0)).reshape(M.shape)


def args(s, c):
    """the same data in the layout of the case -> (y, x, name arguments, expected variable names, expected name of y)"""
    N, T, k = c.N, c.T, c.k
    y, X = c.y.copy(), c.X.copy()
    lay = s["lay"]
    extra = s["const"]
    nm = list(c.nx)
    kw = {}
    cols = list(nm)
    if extra:       # a constant column, dropped with a warning
        pos = gen.rng(s["seed"], 302).integers(0, k + 1)
        X = np.insert(X, pos, 3.0, axis=1)
        cols = np.insert(np.array(nm, dtype=object), pos, "kappa").tolist()
    K = X.shape[1]
    yn, generic = "outcome", True
    if lay.startswith("wide"):
        Yw = y.reshape(T, N).T
        Xw = np.hstack([X[:, j].reshape(T, N).T for j in range(K)])
        wide = ["%s%d" % (v, 70 + 10 * t) for v in cols for t in range(T)]
        yw = ["%s%d" % (yn, 70 + 10 * t) for t in range(T)]
        if lay == "widedf":
            y, X, generic = pd.DataFrame(Yw, columns=yw), pd.DataFrame(Xw, columns=wide), False
        else:
            y, X = Yw, Xw
            if s["named"]:
                kw, generic = dict(name_y=yw, name_x=wide), False
    elif lay == "longdf":
        y, X, generic = pd.DataFrame(y, columns=[yn]), pd.DataFrame(X, columns=cols), False
    elif lay == "series":
        y, generic = pd.Series(y.ravel(), name=yn), False
        if K == 1:
            X = pd.Series(X.ravel(), name=cols[0])
        else:
            X = pd.DataFrame(X, columns=cols)
    elif s["named"]:
        kw, generic = dict(name_y=yn, name_x=list(cols)), False
    names = list(c.names)
    if generic:
        m = {v: "var_%d" % (j + 1) for j, v in enumerate(c.nx)}
        names = [v[:v.find("_") + 1] + m[v[v.find("_") + 1:]] if v not in m else m[v] for v in names]
        yn = "dep_var"
    if s["slx"]:
        kw["slx_lags"] = s["slx"]
        if c.sel is not None:
            kw["slx_vars"] = list(c.sel)
    return y, X, kw, names, yn


def call(s, c, cls, **kw):
    import spreg
    y, X, nkw, names, yn = args(s, c)
    o = getattr(spreg, cls)(y, X, c.w, vm=s["vm"], **nkw, **kw)
    return o, names, yn

"""Generators: every case is a small JSON spec drawn by Hypothesis; `build_*`
functions turn a spec into arrays / weights deterministically.

Continuous data come from numpy's Philox stream keyed by an integer drawn by
Hypothesis (so they are a pure function of the drawn spec, replay from it, and
stay well-conditioned), while sizes, options, weights family, transforms,
scales and data shapes are drawn individually and shrink individually.
"""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


def rng(*key):
    return np.random.Generator(np.random.Philox(key=np.array(
        [sum((int(k) + 1) * 1000003 ** i for i, k in enumerate(key)) % (2**63), 7], dtype=np.uint64)))


# ---------------------------------------------------------------- weights
W_KINDS = ["rook", "queen", "knn", "ring", "rand", "band", "dist", "asym", "blocks"]


def w_spec(n=st.integers(12, 60), kinds=None, transforms=("r",), ids=("int", "perm", "str")):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(list(kinds or W_KINDS)),
        "n": n if not isinstance(n, int) else st.just(n),
        "seed": SEED,
        "t": st.sampled_from(list(transforms)),
        "ids": st.sampled_from(list(ids)),
    })


def dense_w(s):
    """Raw (untransformed) n x n weights, zero diagonal, no islands."""
    n, kind = int(s["n"]), s["kind"]
    g = rng(s["seed"], 11)
    D = np.zeros((n, n))
    if kind in ("rook", "queen"):
        c = max(2, int(np.floor(np.sqrt(n))))
        pos = [(i // c, i % c) for i in range(n)]
        for i in range(n):
            for j in range(n):
                a, b = abs(pos[i][0] - pos[j][0]), abs(pos[i][1] - pos[j][1])
                if (kind == "rook" and a + b == 1) or (kind == "queen" and max(a, b) == 1):
                    D[i, j] = 1.0
    elif kind == "knn":
        k = int(g.integers(2, min(6, n - 1) + 1))
        xy = g.random((n, 2))
        d = ((xy[:, None, :] - xy[None, :, :]) ** 2).sum(-1)
        np.fill_diagonal(d, np.inf)
        for i in range(n):
            D[i, np.argsort(d[i], kind="stable")[:k]] = 1.0
    elif kind == "ring":
        k = int(g.integers(1, min(3, (n - 1) // 2) + 1))
        for i in range(n):
            for h in range(1, k + 1):
                D[i, (i + h) % n] = D[i, (i - h) % n] = 1.0
    elif kind == "band":
        for i in range(n - 1):
            D[i, i + 1] = D[i + 1, i] = 1.0
        for i in range(0, n - 3, 2):
            D[i, i + 3] = D[i + 3, i] = 1.0
    elif kind == "dist":     # symmetric inverse-distance general weights
        xy = g.random((n, 2))
        d = np.sqrt(((xy[:, None, :] - xy[None, :, :]) ** 2).sum(-1))
        np.fill_diagonal(d, np.inf)
        cut = np.sort(d, axis=1)[:, min(3, n - 2)]
        m = d <= np.maximum(cut[:, None], cut[None, :])
        D = np.where(m, 1.0 / (d + 0.05), 0.0)
    elif kind == "rand":     # random symmetric graph + ring backbone
        p = min(0.9, 3.0 / n)
        U = np.triu((g.random((n, n)) < p), 1).astype(float)
        D = U + U.T
        for i in range(n - 1):
            D[i, i + 1] = D[i + 1, i] = 1.0
    elif kind == "asym":     # asymmetric, non-binary
        p = min(0.9, 3.0 / n)
        D = (g.random((n, n)) < p) * (0.2 + g.random((n, n)))
        for i in range(n):
            D[i, (i + 1) % n] = 0.2 + g.random()
    elif kind == "blocks":   # disconnected components
        b = max(3, n // 3)
        for i in range(n):
            for j in range(n):
                if i != j and i // b == j // b and abs(i - j) <= 2:
                    D[i, j] = 1.0
        for i in range(n):   # leftover single unit joins its predecessor
            if D[i].sum() == 0:
                D[i, i - 1] = D[i - 1, i] = 1.0
    np.fill_diagonal(D, 0.0)
    return D


def transform_dense(D, t):
    if t == "r":
        return D / D.sum(1, keepdims=True)
    if t == "b":
        return (D != 0).astype(float)
    if t == "o":
        return D
    if t == "d":
        return D / D.sum()
    if t == "v":
        S = D / np.sqrt((D ** 2).sum(1, keepdims=True))
        return S * (D.shape[0] / S.sum())
    if t == "s":            # spectral: general weights scaled by the max row sum
        return D / D.sum(1).max()
    raise ValueError(t)


def ids_of(s, n=None):
    n = int(n or s["n"])
    how = s.get("ids", "int")
    if how == "perm":
        return [int(i) + 100 for i in rng(s["seed"], 5).permutation(n)]
    if how == "str":
        return ["u%03d" % int(i) for i in rng(s["seed"], 6).permutation(n)]
    return list(range(n))


def to_w(D, ids=None, transform=None):
    """libpysal W whose sparse matrix is exactly D (row order = ids order)."""
    from libpysal.weights import W
    n = D.shape[0]
    ids = ids if ids is not None else list(range(n))
    nb, wt = {}, {}
    for i in range(n):
        js = np.nonzero(D[i])[0]
        nb[ids[i]] = [ids[j] for j in js]
        wt[ids[i]] = [float(D[i, j]) for j in js]
    w = W(nb, wt, id_order=list(ids), silence_warnings=True)
    if transform:
        w.transform = transform
    return w


def build_w(s):
    """-> (libpysal W, dense numpy matrix actually used)."""
    D = dense_w(s)
    t = s.get("t", "r")
    ids = ids_of(s)
    if t == "s":
        Dt = transform_dense(D, "s")
        return to_w(Dt, ids), Dt
    if t == "o":
        return to_w(D, ids), D
    w = to_w(D, ids, transform=t)
    return w, transform_dense(D, t)


# ---------------------------------------------------------------- data
X_KINDS = ["normal", "uniform", "int", "shifted", "scaled", "corr", "dummy", "skew"]


def x_matrix(n, k, kind, seed):
    g = rng(seed, 21)
    Z = g.standard_normal((n, k))
    if kind == "uniform":
        X = g.random((n, k)) * 10
    elif kind == "int":
        X = np.round(Z * 4).astype(float)
        for j in range(k):
            if np.ptp(X[:, j]) == 0:
                X[0, j] += 1
    elif kind == "shifted":
        X = Z + 5.0 * (1 + np.arange(k))
    elif kind == "scaled":
        X = Z * 10.0 ** ((np.arange(k) % 5) - 2)
    elif kind == "corr":
        X = Z + 1.5 * g.standard_normal((n, 1))
    elif kind == "dummy":
        X = Z.copy()
        d = (g.random(n) < 0.4).astype(float)
        d[:3] = [1, 0, 1]
        X[:, 0] = d
    elif kind == "skew":
        X = np.exp(0.6 * Z)
    else:
        X = Z
    return X


def data_spec(n=None, k=st.integers(1, 4), rho=st.sampled_from([0.0, 0.3, 0.6, -0.4]),
              lam=st.sampled_from([0.0, 0.3, 0.6, -0.4]), xkinds=None, extra=None):
    d = {
        "k": k if not isinstance(k, int) else st.just(k),
        "x": st.sampled_from(list(xkinds or X_KINDS)),
        "seed": SEED,
        "rho": rho, "lam": lam,
        "het": st.sampled_from([0, 0, 1]),
        "noise": st.sampled_from([1.0, 0.5, 3.0]),
        "yscale": st.sampled_from([1.0, 1.0, 100.0, 0.01]),
    }
    if n is not None:
        d["n"] = n
    d.update(extra or {})
    return st.fixed_dictionaries(d)


def gen_y(d, X, W=None, Z=None, g=None):
    n, k = X.shape
    g = g or rng(d["seed"], 31)
    b = g.uniform(-2, 2, size=(k, 1)) + 0.5
    sd = X.std(0)
    sd[sd == 0] = 1
    xb = 1.0 + (X / sd) @ b
    if Z is not None and Z.shape[1]:
        xb = xb + Z @ g.uniform(0.5, 1.5, size=(Z.shape[1], 1))
    e = g.standard_normal((n, 1)) * d["noise"]
    if d["het"]:
        e = e * (0.4 + np.abs(X[:, :1] / sd[0] - (X[:, :1] / sd[0]).mean()))
    y = xb + e
    if W is not None:
        I = np.eye(n)
        ev = max(1e-12, np.abs(np.linalg.eigvals(W)).max())
        A = I - d["rho"] / max(1.0, ev) * W
        B = I - d["lam"] / max(1.0, ev) * W
        y = np.linalg.solve(A, xb + np.linalg.solve(B, e))
    return y * d["yscale"]


def build_xy(d, n, W=None):
    X = x_matrix(n, int(d["k"]), d["x"], d["seed"])
    y = gen_y(d, X, W)
    return y, X


def build_endog(seed, X, m, l, W=None, strength=1.0):
    """m endogenous regressors, l >= m excluded instruments, common error part u."""
    n = X.shape[0]
    g = rng(seed, 41)
    Q = g.standard_normal((n, l)) + 0.3 * g.standard_normal((n, 1))
    u = g.standard_normal((n, 1))
    P = g.uniform(0.6, 1.4, size=(l, m)) * np.where(g.random((l, m)) < 0.3, -1, 1)
    Ye = Q @ P * strength + 0.5 * u + 0.7 * g.standard_normal((n, m)) \
        + 0.2 * (X[:, :1] - X[:, :1].mean()) / (X[:, :1].std() + 1e-12)
    return Ye, Q, u


def wide(base, n=(110, 260), ks=(7, 11), key="n", kpath=("d", "k"), more=None):
    """The same cases in larger samples and, half of the time, with many regressors."""
    @st.composite
    def f(draw):
        s = draw(base())
        s[key] = draw(st.integers(*n))
        for a, b in (more or {}).items():
            if a in s:
                s[a] = draw(b)
        if ks and draw(st.booleans()):
            o = s
            for q in kpath[:-1]:
                o = o[q]
            o[kpath[-1]] = draw(st.integers(*ks))
        return s
    return f

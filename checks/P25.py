"""Nonlinear SLX."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats
from scipy.optimize import minimize
from vlib import gen, ref
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "nonlinear SLX"
RULE = ("point patterns (random, jittered lattice, clustered, with a remote point, any unit) x Euclidean or arc distance x neighbour counts x distance bounds x exponential / power decay, one for all or one per variable "
        "x selections x containers; non-trivial = distance weights, optimum, predictions, fit, covariance and names compared with dense brute-force references")
ASSUMPTIONS = ["no two points closer than a thousandth of the pattern's extent, no distance within 1e-9 of the bound", "optimality judged when the search reports success"]


def strat():
    return st.fixed_dictionaries({"n": st.integers(30, 80), "k": st.integers(1, 3), "seed": gen.SEED, "pat": st.sampled_from(["unif", "unif", "grid", "clust", "remote"]), "unit": st.sampled_from([1.0, 1.0, 1000.0, 0.01]),
                                  "metric": st.sampled_from(["Euclidean", "Euclidean", "Arc"]), "nb": st.lists(st.integers(2, 10), min_size=3, max_size=3), "bound": st.lists(st.sampled_from([None, None, 0.15, 0.3, 0.5]), min_size=3, max_size=3),
                                  "tr": st.lists(st.sampled_from(["exponential", "exponential", "power", "Power"]), min_size=3, max_size=3), "mult": st.sampled_from(["one", "one", "each", "sel"]), "sel": st.integers(0, 7),
                                  "box": st.sampled_from(["array", "array", "frame", "points"]), "al": st.lists(st.sampled_from([1.0, 2.0, 4.0]), min_size=3, max_size=3), "noise": st.sampled_from([0.3, 1.0]),
                                  "vf": st.sampled_from([1, 1, 0]), "vm": st.booleans(), "const": st.booleans()})


def coords(s, g):
    n = s["n"]
    if s["pat"] == "grid":
        q = int(np.ceil(np.sqrt(n)))
        C = np.array([(i % q, i // q) for i in range(n)], float) + g.uniform(-0.3, 0.3, (n, 2))
        C /= q
    elif s["pat"] == "clust":
        c = g.uniform(0, 1, (5, 2))
        C = c[np.arange(n) % 5] + 0.08 * g.standard_normal((n, 2))
    else:
        C = g.uniform(0, 1, (n, 2))
    if s["pat"] == "remote":
        C[-1] = [4.0, 4.0]
    return C


def dist(C, metric):
    if metric == "Euclidean":
        return np.sqrt(((C[:, None] - C[None]) ** 2).sum(2))
    lon, lat = np.radians(C[:, 0]), np.radians(C[:, 1])
    P = np.c_[np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]
    ch = np.sqrt(((P[:, None] - P[None]) ** 2).sum(2))
    return 6371.0 * 2 * np.arcsin(np.clip(ch / 2, 0, 1))      # km


def base(D, k, bound, tr):
    """-> (mask of neighbours, fraction of the largest distance or triangular weight)"""
    n = len(D)
    M = np.zeros((n, n), bool)
    for i in range(n):
        o = [j for j in np.argsort(D[i], kind="stable") if j != i][:k]
        M[i, [j for j in o if D[i, j] < bound]] = True
    mx = np.where(M, D, 0).max(1, keepdims=True)
    F = np.where(M, D / np.where(mx > 0, mx, 1), 0.0)
    if tr.lower() == "power":
        F = np.where(M, 1 - F, 0.0)
    return M, F


def wmat(M, F, tr, a, grad=False):
    with np.errstate(all="ignore"):
        if tr.lower() == "power":
            V = np.where(F > 1e-14, F, 0.0) ** a
            if grad:
                V = np.where(F > 1e-14, V * np.log(np.where(F > 1e-14, F, 1.0)), 0.0)
        else:
            V = np.exp(-a * F) * (-F if grad else 1)
    return np.where(M, V, 0.0)


def run(s):
    import spreg
    n, k = s["n"], s["k"]
    g = gen.rng(s["seed"], 601)
    C = coords(s, g)
    if s["metric"] == "Arc":
        C = np.c_[C[:, 0] * 20 - 10, C[:, 1] * 20 + 30]
    else:
        C = C * s["unit"]
    D = dist(C, s["metric"])
    ext = D.max()
    if (D + ext * np.eye(n)).min() < 1e-3 * ext:
        raise Reject("coincident points")
    msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
    if s["mult"] != "sel" or not any(msk) or all(msk):
        msk = [True] * k
    idx = [j for j in range(k) if msk[j]]
    each = s["mult"] == "each" or (s["mult"] == "sel" and s["seed"] % 3)
    full = s["seed"] % 2 == 0 or s["mult"] == "each"      # parameters for every variable or for the selected ones only
    rng_ = [(s["nb"][j], np.inf if s["bound"][j] is None else s["bound"][j] * ext, s["tr"][j]) for j in range(3)]
    for p in rng_:
        if np.isfinite(p[1]) and np.abs(D - p[1]).min() < 1e-9 * ext:
            raise Reject("distance at the bound")
    if each:
        par = [rng_[j] for j in idx]
        arg = [rng_[j] for j in range(k)] if full else list(par)
        if not full and len(idx) == 1:
            arg = [par[0]]
    else:
        par, arg = [rng_[0]] * len(idx), [rng_[0]]
    B = [base(D, *p) for p in par]
    if any(not (M.sum(1) > 0).any() for M, F in B):
        raise Reject("no neighbours within the bound")
    X = g.standard_normal((n, k)) + np.arange(k)
    Xc = ref.const(X)
    wx = lambda al, grad=False: np.hstack([wmat(M, F, p[2], al[i], grad) @ X[:, [idx[i]]] for i, ((M, F), p) in enumerate(zip(B, par))])
    h = len(idx)
    at = [s["al"][i] for i in range(h)]
    if ref.cond(ref.cat(Xc, wx(at))) > 300 or ref.cond(ref.cat(Xc, wx(at, True))) > 300:
        raise Reject("not identified")
    y = 1 + X @ g.uniform(0.5, 1.5, (k, 1)) + wx([s["al"][i] for i in range(h)]).sum(1, keepdims=True) + s["noise"] * g.standard_normal((n, 1))
    nx = ["x%d" % j for j in range(k)]
    kw = {}
    if s["box"] == "array":
        ya, xa, ca = y.copy(), X.copy(), C.copy()
        kw = dict(name_y="yy", name_x=list(nx))
        if s["const"]:
            xa, kw["name_x"] = np.hstack([np.ones((n, 1)), xa]), ["one"] + nx
        cn = "unknown"
    else:
        ix = np.arange(n) + (s["seed"] % 3) * 7
        ya, xa = pd.DataFrame({"yy": y[:, 0]}, index=ix), pd.DataFrame(X, columns=nx, index=ix)
        if s["box"] == "frame":
            ca, cn = pd.DataFrame(C, columns=["lon", "lat"], index=ix), ["lon", "lat"]
        else:
            import geopandas as gpd
            gn = [None, 3, "geometry"][s["seed"] % 3]
            ca, cn = gpd.GeoSeries(gpd.points_from_xy(C[:, 0], C[:, 1]), index=ix, name=gn), "unknown" if gn is None else str(gn)
    if not all(msk):
        kw["slx_vars"] = list(msk)
    fit = lambda vf: spreg.NSLX(ya, xa, ca, params=list(arg), distance_metric=s["metric"], var_flag=vf, vm=s["vm"], **kw)
    try:
        with sut("NSLX"):
            m = fit(s["vf"])
    except Violation as v:
        if "Singular variance" not in str(v):
            raise
        with sut("NSLX"):
            m = fit(0)
        G = wx(arr(m.betas).ravel()[-h:], True)
        d = np.sqrt((G ** 2).sum(0))
        ok(not np.all(np.isfinite(G)) or d.min() < 1e-6 * max(d.max(), 1.0) or np.linalg.cond(G) > 1e6, "NSLX: singular variance matrix reported with regular gradients")
        raise Reject("no information on a distance parameter")
    what = "NSLX: "
    b = arr(m.betas).reshape(-1, 1)
    same("n, k", (m.n, m.k, len(b)), (n, 1 + k + h, 1 + k + h))
    wn = ["W%s_%s" % (p[2][0], nx[j]) for p, j in zip(par, idx)]
    same("name_x", list(m.name_x), ["CONSTANT"] + nx + wn)
    same("name_y", m.name_y, "yy")
    same("name_coords", m.name_coords, cn)
    same("knn", list(m.knn), [p[0] for p in (par if each else par[:1])])
    same("d_upper_bound", list(m.d_upper_bound), [p[1] for p in (par if each else par[:1])])
    al = b[-h:, 0]
    if not np.all(np.isfinite(b)):
        raise Reject("search diverged") if not m.success else AssertionError("non-finite estimates reported as a success")
    if not np.all(np.isfinite(wx(al))):
        raise Reject("decay parameter out of range") if not m.success else AssertionError("success with an infinite criterion")
    sse = lambda bb: float(((y - Xc @ bb[:-h].reshape(-1, 1) - wx(bb[-h:]).sum(1, keepdims=True)) ** 2).sum())
    fit = Xc @ b[:-h] + wx(al).sum(1, keepdims=True)
    eq("predy", m.predy, fit, rtol=1e-7, scale=np.abs(y).max())
    eq("u", m.u, y - fit, rtol=1e-7, scale=np.abs(y).max())
    S = float(((y - fit) ** 2).sum())
    eq("utu", m.utu, S, rtol=1e-7)
    eq("sig2", m.sig2, S / n, rtol=1e-7)
    ll = -n / 2 * (1 + np.log(2 * np.pi) + np.log(S / n))
    eq("ll", arr(m.ll).ravel(), [ll], rtol=1e-8, atol=1e-7)
    eq("aic", arr(m.aic).ravel(), [-2 * ll + 2 * m.k], rtol=1e-8, atol=1e-6)
    eq("schwarz", arr(m.schwarz).ravel(), [-2 * ll + m.k * np.log(n)], rtol=1e-8, atol=1e-6)
    # the criterion
    start = np.concatenate([ref.lsq(Xc, y)[0][:, 0], np.ones(h)])
    ok(S <= sse(start) * (1 + 1e-9), "the criterion at the estimates (%.8g) is worse than at the starting values (%.8g)" % (S, sse(start)))
    prof = lambda a: float(((lambda r: r - Xc @ ref.lsq(Xc, r)[0])(y - wx(a).sum(1, keepdims=True)) ** 2).sum())
    if m.success:
        ok(prof(al) >= S * (1 - 1e-5), "coefficients are not least squares given the distance parameters: criterion %.10g against %.10g" % (S, prof(al)))
        for i in range(h):
            for d in (-0.02, 0.02):
                a = al.copy()
                a[i] += d * max(abs(a[i]), 0.5)
                if np.all(np.isfinite(wx(a))) and not (par[i][2].lower() == "power" and a[i] <= 0):
                    ok(prof(a) >= S * (1 - 1e-4), "distance parameter %d is not at a minimum: %.8g at %.6g, %.8g at %.6g" % (i, S, al[i], prof(a), a[i]))
    # covariance
    known = []
    V = arr(m.vm)
    if s["vf"] == 1:
        G = wx(al, True)
        if np.linalg.cond(G) < 1e6:
            J = np.hstack([Xc, G])
            sc = np.sqrt((J ** 2).sum(0))
            full_v = S / n * np.linalg.inv((J / sc).T @ (J / sc)) / np.outer(sc, sc)
            blk = np.zeros_like(V)
            blk[:-h, :-h] = S / n * ref.xtxi(Xc)
            blk[-h:, -h:] = S / n * ref.xtxi(G)
            ship = blk.copy()
            Gs = np.zeros_like(G)
            for i, ((M, F), p) in enumerate(zip(B, par)):
                if p[2].lower() == "power":
                    Gs[:, i] = G[:, i]
                else:
                    with np.errstate(all="ignore"):
                        Gs[:, [i]] = np.where(M, -np.exp(-al[i] * F) * np.log(al[i] * F) * F, 0.0) @ X[:, [idx[i]]]
            if np.all(np.isfinite(Gs)):
                ship[-h:, -h:] = S / n * ref.xtxi(Gs) if np.linalg.cond(Gs) < 1e6 else np.nan
            else:
                ship[-h:, -h:] = np.nan
            if not close(V, full_v, 1e-5):
                if any(p[2].lower() == "exponential" for p in par):
                    ok(not np.isfinite(ship).all() or close(V, ship, 1e-5), "vm is neither the covariance nor that of the listed finding: %s" % V)
                    known.append(("nslx-grad", "exponential decay: gradient times log(alpha d)"))
                else:
                    eq_vm("vm", V, blk, rtol=1e-5)
                known.append(("nslx-block", "covariances between coefficients and distance parameters are left out"))
    else:
        eq_vm("vm", V, 2 * S / n * arr(m.ihess), rtol=1e-7)
    ok(V.shape == (1 + k + h,) * 2, "vm: shape %s" % (V.shape,))
    if np.all(np.diag(V) > 0):
        inference(m, dist="z")
    return {"labels": [s["metric"], s["pat"], s["mult"], "ok" if m.success else "nosuccess"], "known": known, "nontrivial": bool(m.success)}


def close(A, B, tol):
    d = np.sqrt(np.abs(np.diag(B)))
    return bool(np.all(np.abs(A - B) <= tol * np.outer(d, d)))


def strat_num():
    return st.fixed_dictionaries({"seed": gen.SEED, "n": st.integers(150, 220), "h": st.integers(1, 2), "nb": st.integers(5, 8), "noise": st.sampled_from([0.4, 0.6])})


def run_num(s):
    """the numerical covariance matrix estimates the analytical one on large regular data"""
    import spreg
    n, h = s["n"], s["h"]
    g = gen.rng(s["seed"], 602)
    C, X = g.uniform(0, 1, (n, 2)), g.standard_normal((n, h))
    M, F = base(dist(C, "Euclidean"), s["nb"], np.inf, "exponential")
    y = 1 + X.sum(1, keepdims=True) + sum(wmat(M, F, "exponential", a) @ X[:, [i]] for i, a in zip(range(h), (2.0, 3.0))) + s["noise"] * g.standard_normal((n, 1))
    with sut("NSLX"):
        m = spreg.NSLX(y, X, C, params=[(s["nb"], np.inf, "exponential")], var_flag=0)
    if not m.success:
        raise Reject("search not successful")
    al = arr(m.betas).ravel()[-h:]
    J = ref.cat(ref.const(X), *[wmat(M, F, "exponential", al[i], True) @ X[:, [i]] for i in range(h)])
    if ref.cond(J) > 30 or not (np.all(al > 0.5) and np.all(al < 6)):
        raise Reject("badly determined")
    r = float(np.exp(np.log(np.diag(arr(m.vm)) / np.diag(float(m.sig2) * ref.xtxi(J))).mean()))
    ok(0.62 < r < 1.6, "numerical variances are %.3g times the analytical ones" % r)
    return {"labels": ["h%d" % h]}


SUBS = [Sub("numerical-vm", strat_num, run_num, quick=60, thorough=600),
        Sub("nslx", strat, run, quick=500, thorough=8000)]

"""Endogenous regime search returns a valid contiguous partition."""
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref, snap
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "Endogenous regime search"
RULE = ("seven families of symmetric contiguity graphs (also disconnected, with row-standardised, original or other transformations of the weights) x attributes (standardised, none, discrete with equal neighbours) x OLS, 2SLS, spatial lag, "
        "statsmodels and attribute-only scores x numbers of clusters x quorums x island rules, and the three endogenous-regimes estimators; every cut is compared with all alternatives by brute force; non-trivial = at least one cut made")
ASSUMPTIONS = ["quorum large enough for every regional regression (k + 5)", "the minimum spanning forest may be any of equal length", "optim_k itself is not judged (only that its answer is used)",
               "a search whose best total increases with a cut (possible for instrumental variables) may end with the documented ValueError"]
KINDS = ["rook", "queen", "knn", "ring", "rand", "band", "dist"]


def graph(s, n):
    d = dict(s["w"], n=n)
    D = gen.dense_w(d)
    D = np.maximum(D, D.T)
    g = gen.rng(s["seed"], 601)
    if s["parts"]:          # disconnected parts of the map
        lab = np.zeros(n, int)
        cuts = sorted({int(n * f) for f in ((0.4,), (0.35, 0.7))[s["parts"] - 1]})
        for i, v in enumerate(cuts):
            lab[v:] = i + 1
        D = D * (lab[:, None] == lab[None, :])
        for v in set(lab):      # every part connected by a path
            ix = np.where(lab == v)[0]
            for a, b in zip(ix[:-1], ix[1:]):
                D[a, b] = D[b, a] = max(D[a, b], 1.0)
    p = g.permutation(n) if s["shuf"] else np.arange(n)
    D = D[np.ix_(p, p)]
    return gen.to_w(D, ids=gen.ids_of(d, n), transform=s["w"]["t"]), D


def comps(n, edges):
    """labels of connected components (smallest member first)"""
    p = list(range(n))

    def f(i):
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i
    for a, b in edges:
        p[f(a)] = f(b)
    root = {}
    return np.array([root.setdefault(f(i), len(root)) for i in range(n)])


def canon(lab):
    d = {}
    return np.array([d.setdefault(v, len(d)) for v in np.asarray(lab).tolist()])


def mst_length(n, pairs, dist):
    p = list(range(n))

    def f(i):
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i
    tot = 0.0
    for k in np.argsort(dist, kind="stable"):
        a, b = f(pairs[k][0]), f(pairs[k][1])
        if a != b:
            p[a] = b
            tot += dist[k]
    return tot


class Score:
    """sum of squared residuals of separate regressions, region by region"""
    def __init__(self, c, fam, center=np.mean):
        self.c, self.fam, self.center, self.memo = c, fam, center, {}

    def one(self, ix):
        key = ix.tobytes()
        if key not in self.memo:
            self.memo[key] = self._one(ix)
        return self.memo[key]

    def _one(self, ix):
        c = self.c
        if self.fam == "data":
            d = c.data[ix]
            m = self.center(d, axis=0)
            return np.sqrt(((d - m) ** 2).sum(1)).sum()
        y, X = c.y[ix], ref.const(c.x[ix])
        if self.fam == "OLS" and c.get("slx"):
            X = ref.cat(X, (c.D[np.ix_(ix, ix)] > 0) @ c.x[ix])
        if self.fam in ("tsls", "lag", "LAG"):
            Z, Q = c.yend[ix], c.q[ix]
            H = ref.cat(X, Q)
            if ref.cond(H) > 1e4:
                raise Reject("ill-conditioned instruments")
            Qh = np.linalg.qr(H)[0]
            Xh = ref.cat(X, Qh @ (Qh.T @ Z))
            if ref.cond(Xh) > 1e4:
                raise Reject("ill-conditioned")
            b = ref.lsq(Xh, y)[0]
            u = y - ref.cat(X, Z) @ b
        else:
            if ref.cond(X) > 1e4:
                raise Reject("ill-conditioned")
            u = y - X @ ref.lsq(X, y)[0]
        return (u ** 2).sum()

    def total(self, lab):
        return sum(self.one(np.where(lab == v)[0]) for v in set(lab.tolist()))


def simulate(c, sc, tree, n_target, quorum, trace, lab_end, forest, ended):
    """follow the recorded cuts, each against every alternative"""
    n = c.n
    edges = list(tree)
    lab = comps(n, edges)
    prev = np.inf
    cur = sc.total(lab)
    i = 0
    while lab.max() + 1 < n_target:
        cand = []
        for k, e in enumerate(edges):
            l2 = comps(n, edges[:k] + edges[k + 1:])
            inside = l2[lab == lab[e[0]]]
            if np.unique(inside, return_counts=True)[1].min() < quorum:
                continue
            cand.append((sc.total(l2), k))
        if not cand:
            break
        best = min(cand)[0]
        if i >= len(trace):
            if ended == "increase" and best > prev * (1 - 1e-9):
                return i, best
            raise Violation("stopped at %d regions although a cut with total score %.8g is possible (score now %.8g)" % (lab.max() + 1, best, cur))
        labs, cut = trace[i]
        hit = [k for k, e in enumerate(edges) if {int(cut.in_node), int(cut.out_node)} == set(e)]
        same("edges removed by cut %d" % (i + 1), len(hit), 1)
        mine = [v for v, k in cand if k == hit[0]]
        ok(mine, "cut %d leaves a region below the quorum of %s" % (i + 1, quorum))
        ok(mine[0] <= best + 1e-7 * max(cur if np.isfinite(cur) else 0, best), "cut %d leaves a total score of %.8g, another cut %.8g" % (i + 1, mine[0], best))
        eq("score recorded with cut %d" % (i + 1), cut.score, mine[0], rtol=1e-7, scale=cur)
        del edges[hit[0]]
        lab = comps(n, edges)
        same("labels after cut %d" % (i + 1), canon(labs).tolist(), lab.tolist())
        ok(cut.score <= prev * (1 + 1e-9), "cut %d raised the total score from %.8g to %.8g" % (i + 1, prev, cut.score))
        prev = cur = float(cut.score)
        i += 1
    same("cuts recorded", len(trace), i)
    if ended == "increase":
        raise Violation("search ended with an increase of the score that no cut has")
    same("final labels", canon(lab_end).tolist(), lab.tolist())
    same("edges of the final forest", sorted(forest), sorted(edges))
    return i, cur


def spec():
    return st.fixed_dictionaries({"n": st.integers(24, 48), "w": gen.w_spec(n=20, kinds=KINDS, transforms=("r", "r", "o", "b", "v")), "seed": gen.SEED, "parts": st.sampled_from([0, 0, 0, 1, 2]), "shuf": st.booleans(),
                                  "k": st.integers(1, 3), "fam": st.sampled_from(["ols", "ols", "OLS", "tsls", "lag", "LAG", "stats", "data"]), "data": st.sampled_from(["std", "std", "none", "discrete", "other"]),
                                  "kc": st.integers(2, 5), "quorum": st.sampled_from([0, 0, 1, 2, 4]), "islands": st.sampled_from(["increase", "ignore"]), "aff": st.booleans(), "med": st.booleans(), "noise": st.sampled_from([0.3, 1.0, 3.0]),
                                  "trace": st.sampled_from([True, True, True, False]), "ow": st.integers(0, 2)})


def build(s):
    fam = s["fam"]
    n = min(s["n"], 36) if fam in ("OLS", "lag", "LAG", "tsls") else s["n"]
    w, D = graph(s, n)
    g = gen.rng(s["seed"], 602)
    c = ref.NS(n=n, w=w, D=D, k=s["k"])
    c.x = g.standard_normal((n, s["k"])) * 2 + 1
    reg0 = g.random(n) < 0.5
    e = g.standard_normal((n, 1)) * s["noise"]
    b = np.where(reg0[:, None], 1.0, g.uniform(-3, 3))
    c.y = 1 + c.x.sum(1, keepdims=True) * b + 2 * reg0[:, None] + e
    c.yend = c.q = None
    if fam == "OLS" and s.get("ow") == 2:
        c.slx = True
    if fam == "tsls":
        c.q = g.standard_normal((n, 1 + s["seed"] % 2))
        c.yend = c.q.sum(1, keepdims=True) * 1.5 + 0.5 * e / s["noise"] + 0.4 * g.standard_normal((n, 1))
        c.y = c.y + c.yend
    kind = s["data"]
    if kind == "none" and fam != "data":
        c.data = None
    elif kind == "discrete":
        c.data = g.integers(0, 2, (n, 2)).astype(float)
    elif kind == "other":
        c.data = g.uniform(0, 100, (n, 1 + s["k"]))
    else:
        c.data = (c.x - c.x.mean(0)) / c.x.std(0)
    if fam in ("lag", "LAG"):       # single-region 2SLS with the lag over the whole map
        W = w.full()[0]
        A = np.eye(n) - 0.4 / max(1.0, np.abs(np.linalg.eigvals(W)).max()) * W
        c.y = np.linalg.solve(A, c.y)
        c.yend = W @ c.y
        c.q = W @ c.x
    return c


def edges_of(M):
    M = M.tocoo()
    return sorted({tuple(sorted((int(a), int(b)))) for a, b in zip(M.row, M.col)})


def run(s):
    import spreg
    import statsmodels.api as sm
    from spreg import Skater_reg
    c = build(s)
    fam, n = s["fam"], c.n
    kk = 1 if fam == "data" else c.k + 1 + (1 if c.yend is not None else 0)
    if c.get("slx"):
        kk += c.k
    quorum = kk + 2 + s["quorum"] if fam != "data" else s["quorum"]
    parts = comps(n, [tuple(v) for v in np.argwhere(c.D > 0)])
    m0 = parts.max() + 1
    kw = {}
    if fam != "data":
        cls = {"ols": spreg.ols.BaseOLS, "OLS": spreg.OLS, "tsls": spreg.twosls.BaseTSLS, "lag": spreg.twosls_sp.BaseGM_Lag, "LAG": spreg.GM_Lag, "stats": sm.OLS}[fam]
        kw["data_reg"] = {"reg": cls, "y": c.y, "x": c.x}
        if fam == "tsls":
            kw["data_reg"].update(yend=c.yend, q=c.q)
        if fam in ("lag", "LAG") or fam == "OLS" and s["ow"]:
            kw["data_reg"]["w"] = c.w
        if c.get("slx"):
            kw["data_reg"]["slx_lags"] = 1
    if fam == "stats":
        kw["model_family"] = "statsmodels"
    init = {}
    dist = (lambda d: np.sqrt(((d[:, None, :] - d[None, :, :]) ** 2).sum(-1)))
    center = np.median if (s["med"] and fam == "data") else np.mean
    if center is np.median:
        init["center"] = np.median
    if s["aff"] and fam != "data":
        init["affinity"] = lambda d: np.exp(-dist(d) / 3)
        metric = lambda d: dist(d) / 3
    else:
        metric = dist
    kc = min(s["kc"], 3) if fam in ("OLS", "lag", "LAG") else s["kc"]
    target = kc + (m0 if m0 > 1 and s["islands"] == "increase" else 0)
    call = lambda tr: Skater_reg(**init).fit(kc, c.w, c.data, quorum=quorum, trace=tr, islands=s["islands"], **kw)
    wa = snap.Watch(w=c.w, data=c.data, **({"data_reg": kw["data_reg"]} if kw.get("data_reg") else {}))
    labels = [fam, s["data"], "parts%d" % m0]
    small = m0 > 1 and np.unique(parts, return_counts=True)[1].min() < quorum
    if n <= kc * quorum or small:
        try:
            call(True)
        except ValueError:
            wa.check("Skater_reg (rejected)")
            return {"nontrivial": False, "labels": labels + ["rejected"]}
        raise Violation("accepted %d clusters of at least %d from %d observations, smallest part %d" % (kc, quorum, n, np.unique(parts, return_counts=True)[1].min()))
    if m0 == 1:
        sc0 = Score(c, fam, center)
        sc0.total(parts)
    ended, m = "", None
    sk = Skater_reg(**init)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = sk.fit(kc, c.w, c.data, quorum=quorum, trace=True, islands=s["islands"], **kw)
        except ValueError as e:
            if "score increased" not in str(e):
                raise Violation("Skater_reg raised ValueError: %s" % e)
            ended = "increase"
    wa.check("Skater_reg")
    trace = sk._trace[1:]
    pairs = [tuple(v) for v in np.argwhere(np.triu(c.D) > 0).tolist()]
    Dm = np.ones((n, n)) if c.data is None else metric(c.data)
    sc = Score(c, fam, center)
    if ended:
        if fam not in ("tsls", "lag", "LAG", "data"):
            raise Violation("total score of separate least squares said to increase with a cut")
        raise Reject("score increases")
    forest = edges_of(m.minimum_spanning_forest_)
    removed = [tuple(sorted((int(v[1].in_node), int(v[1].out_node)))) for v in trace]
    tree = sorted(forest + removed)
    ok(set(tree) <= set(pairs), "the forest uses links that are not in the weights")
    same("parts connected by the initial forest", comps(n, tree).tolist(), parts.tolist())
    same("edges of the initial forest", len(tree), n - m0)
    eq("length of the minimum spanning forest", sum(Dm[a, b] for a, b in tree), mst_length(n, pairs, [Dm[a, b] for a, b in pairs]), rtol=1e-6, atol=1e-6)
    lab = np.asarray(m.current_labels_)
    ok(lab.shape == (n,), "labels of shape %s for %d observations" % (lab.shape, n))
    ok(m0 >= kc or lab.max() + 1 <= target, "%d regions, %d requested" % (lab.max() + 1, target))
    same("labels in use", sorted(set(lab.tolist())), list(range(lab.max() + 1)))
    cnt = np.unique(lab, return_counts=True)[1]
    ok(lab.max() + 1 == m0 or cnt.min() >= quorum, "region of %d observations with a quorum of %d" % (cnt.min(), quorum))
    inner = [(a, b) for a, b in pairs if lab[a] == lab[b]]
    same("regions connected in the graph", comps(n, inner).tolist(), canon(lab).tolist())
    cuts, end = simulate(c, sc, tree, target, quorum, trace, lab, forest, ended)
    # the public score of a partition
    fn = m.score_stats if fam == "stats" else m.score_spreg
    arg = (c.data if c.data is not None else np.ones((n, 1)), kw.get("data_reg"))
    if lab.max() == 0 and fam in ("lag", "LAG"):
        return {"nontrivial": False, "labels": labels + ["cuts0"]}
    got, per = fn(*arg)
    eq("score of the labels found", got, end, rtol=1e-7)
    if per and fam not in ("lag", "LAG"):
        for v in set(lab.tolist()):
            eq("score of region %s" % v, per[v], sc.one(np.where(lab == v)[0]), rtol=1e-7, scale=end)
    if lab.max() > (1 if fam in ("lag", "LAG") else 0):
        l2 = np.where(lab == lab.max(), 0, lab)
        eq("score of given labels", fn(*arg, all_labels=l2)[0], sc.total(l2), rtol=1e-7)
        ok(fn(*arg, all_labels=lab, quorum=int(cnt.min()) + 1)[0] == np.inf, "labels below the quorum have a finite score")
    if not s["trace"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m2 = call(False)
        same("labels without a trace", np.asarray(m2.current_labels_).tolist(), lab.tolist())
    wa.check("Skater_reg scores")
    return {"nontrivial": cuts > 0, "labels": labels + ["cuts%d" % cuts]}


# ------------------------------------------------------------------ estimators with endogenous regimes
def spec_est():
    return st.fixed_dictionaries({"n": st.integers(30, 60), "w": gen.w_spec(n=20, kinds=KINDS, transforms=("r", "r", "r", "b")), "seed": gen.SEED, "parts": st.just(0), "shuf": st.booleans(), "k": st.integers(1, 3),
                                  "cls": st.sampled_from(["OLS_Endog_Regimes", "TSLS_Endog_Regimes", "GM_Lag_Endog_Regimes"]), "kc": st.sampled_from([2, 3, 4, 0]), "quorum": st.integers(0, 4), "noise": st.sampled_from([0.3, 1.0]),
                                  "trace": st.booleans(), "frame": st.booleans(), "konst": st.sampled_from([0, 0, 1]), "spat": st.booleans(), "data": st.just("std"), "fam": st.just("ols"), "qd": st.sampled_from([0, 0, 0, 1])})


def run_est(s):
    import spreg
    cls = s["cls"]
    fam = {"OLS_Endog_Regimes": "ols", "TSLS_Endog_Regimes": "tsls", "GM_Lag_Endog_Regimes": "lag"}[cls]
    s = dict(s, fam=fam)
    if s["qd"]:
        s["n"] = 90 + s["n"]
    w_n = s["n"] if fam == "ols" or s["qd"] else min(s["n"], 40)
    s["fam"] = "ols"
    c = build(dict(s, n=w_n, fam="ols"))
    n = c.n
    g = gen.rng(s["seed"], 603)
    W = c.w.full()[0]
    if fam == "tsls":
        e = g.standard_normal((n, 1))
        c.q = g.standard_normal((n, 1))
        c.yend = 1.5 * c.q + 0.5 * e
        c.y = c.y + c.yend + 0.3 * e
        c.data = np.hstack([c.x, c.yend])
    elif fam == "lag":
        c.y = np.linalg.solve(np.eye(n) - 0.4 / max(1.0, np.abs(np.linalg.eigvals(W)).max()) * W, c.y)
        c.yend, c.q = W @ c.y, W @ c.x
    quorum = 2 + c.k + (fam != "ols") * 2 + 4 + s["quorum"]
    kw = {"n_clusters": s["kc"] or None, "quorum": quorum}
    if s["qd"] and fam == "ols":
        kw = {}
        quorum = max((c.k + 1) * 10, 30)
    kc = kw.get("n_clusters")
    if kc and n <= kc * quorum:
        raise Reject("too many regions")
    if not kc and n * 0.7 // quorum < 2:
        raise Reject("too few observations")
    if not s["trace"]:
        kw["trace"] = False
    nx = ["a", "b", "c"][:c.k]
    X = c.x
    if s["konst"]:
        X, nx1 = np.hstack([c.x, np.full((n, 1), 3.0)]), nx + ["k"]
    else:
        nx1 = list(nx)
    more = {}
    if cls == "OLS_Endog_Regimes":
        more = {"spat_diag": s["spat"]}
    elif cls == "TSLS_Endog_Regimes":
        more = {"spat_diag": s["spat"]}
    y, x = (pd.Series(c.y[:, 0], name="out"), pd.DataFrame(X, columns=nx1)) if s["frame"] else (c.y, X)
    nm = {} if s["frame"] else {"name_y": "out", "name_x": list(nx1)}
    pos = [y, x]
    if fam == "tsls":
        pos += [c.yend, c.q]
        nm.update(name_yend=["z"], name_q=["h"])
    wa = snap.Watch(y=y, x=x, w=c.w, yend=c.yend, q=c.q)
    sc = Score(c, fam)
    parts = comps(n, [tuple(v) for v in np.argwhere(c.D > 0)])
    m0 = parts.max() + 1 if parts.max() else 0
    small = m0 and np.unique(parts, return_counts=True)[1].min() < quorum
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = getattr(spreg, cls)(*pos, w=c.w, **nm, **kw, **more)
        except ValueError as e:
            if "Islands must be larger" in str(e) and small:
                raise Reject("parts below the quorum")
            if "score increased" in str(e) and fam != "ols":
                raise Reject("score increases")
            if "convolve" in str(e) or "v cannot be empty" in str(e):
                raise Reject("no cut possible")
            raise Violation("%s raised ValueError: %s" % (cls, e))
        except Exception as e:
            if not kc and type(e).__name__ == "IndexError":
                raise Reject("no cut possible")
            if "At least 2 regimes" in str(e):      # judged by the search: no cut reaches the quorum
                raise Reject("no cut possible")
            if "power expansion will not converge" in str(e) and abs(W).sum(1).max() > 1 + 1e-9:
                raise Reject("power expansion does not converge")
            raise
    wa.check(cls)
    lab = np.asarray(m.clusters)
    ok(lab.shape == (n,), "clusters: shape %s" % (lab.shape,))
    R = len(set(lab.tolist()))
    if R == 1:
        raise Reject("no cut possible")
    ok(not kc or R <= kc + m0, "%d regions, %s requested" % (R, kc))
    cnt = np.unique(lab, return_counts=True)[1]
    ok(cnt.min() >= quorum, "region of %d observations with a quorum of %d" % (cnt.min(), quorum))
    pairs = [tuple(v) for v in np.argwhere(np.triu(c.D) > 0).tolist()]
    same("regions connected in the graph", comps(n, [(a, b) for a, b in pairs if lab[a] == lab[b]]).tolist(), canon(lab).tolist())
    eq("score", m.score, sc.total(lab), rtol=1e-6)
    S = [float(v) for v in m.SSR]
    ok(all(b <= a * (1 + 1e-9) for a, b in zip(S, S[1:])), "SSR of successive partitions: %s" % S)
    if m0:
        raise Reject("disconnected map: the first partition has more regions")
    eq("SSR of the partition used", S[R - 2], m.score, rtol=1e-12)
    if kc:
        same("partitions scored", len(S), R - 1)
    else:
        same("regions chosen", R, max(2, spreg.optim_k(S)))
    if s["trace"] or not kc:
        same("clusters among the traced partitions", canon(m._trace[R - 1][0]).tolist(), canon(lab).tolist())
    else:
        ok(not hasattr(m, "_trace"), "intermediate partitions stored with trace=False")
    # the model reported is the one of these regimes
    one = {"OLS_Endog_Regimes": "OLS_Regimes", "TSLS_Endog_Regimes": "TSLS_Regimes", "GM_Lag_Endog_Regimes": "GM_Lag_Regimes"}[cls]
    pos2 = [c.y, c.x] + ([c.yend, c.q] if fam == "tsls" else []) + [lab]
    nm2 = dict(name_y="out", name_x=list(nx), name_regimes="Skater_reg")
    if fam == "tsls":
        nm2.update(name_yend=["z"], name_q=["h"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m0 = getattr(spreg, one)(*pos2, w=c.w, regime_err_sep=fam != "lag", **nm2, **more)
    for a in ("betas", "vm", "u", "predy"):
        eq("%s against %s with these regimes" % (a, one), getattr(m, a), getattr(m0, a), rtol=1e-9, scale=np.abs(getattr(m0, a)).max())
    same("results table", m.output.astype(str).to_dict(), m0.output.astype(str).to_dict())
    if fam != "lag":
        eq("sum of squared residuals", (m.u ** 2).sum(), m.score, rtol=1e-7)
    if not s["konst"]:
        cut = lambda v: [i for i in v.split("\n") if fam != "lag" or not i.startswith("Overall SSR")]     # there, the SSR of the search (one rho per regime)
        ok(cut(m.summary) == cut(m0.summary), "summary differs from that of %s with these regimes" % one)
    return {"nontrivial": True, "labels": [cls, "R%d" % R, "auto" if not kc else "fixed"]}


SUBS = [Sub("search", spec, run, quick=240, thorough=5000),
        Sub("estimators", spec_est, run_est, quick=100, thorough=2500)]

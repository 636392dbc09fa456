"""Results do not depend on the order or the labels of observations, regimes and regressors."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, meta, zoo, ref, surs, panel
from vlib.core import Sub, sut, Reject, Violation, series_ok

TITLE = "Permutation and relabelling"
RULE = ("51 estimator configurations x 9 families of weights (row-standardised and scaled) x designs with 1-2 endogenous variables and SLX terms: the observations are permuted together with weights and "
        "regimes, or ids / regime labels / regressors are renamed or reordered, and all coefficients, covariances, tests, fit measures, impacts and observation vectors are compared; non-trivial = "
        "stable case (noise of 1e-10 in the data moves no coefficient by 5% of its standard error) that was compared")
ASSUMPTIONS = ["equilibrated condition of regressors and instruments < 300, overall and in every regime", "tolerance = optimiser tolerance of the estimator + 100 x the response to noise of 1e-10"]

ALL = list(zoo.ZOO)
REG = [k for k, e in zoo.ZOO.items() if e.reg]
WALL = [k for k, e in zoo.ZOO.items() if e.spatial]


def base(s):
    e, c, kw = meta.case(s)

    def fit(c, **k2):
        with series_ok(c.W):
            return e.call(c, **dict(kw, **k2))
    with sut(s["e"]):
        f0 = meta.facts(fit(c))
        tol = meta.tolerances(fit, c, f0, e.tol, probit=e.kind == "probit")
    return e, c, fit, f0, tol


def take(c, perm):
    p = np.asarray(perm)
    c2 = c.copy()
    for k in ("y", "x", "yend", "q"):
        if c2[k] is not None:
            c2[k] = c2[k][p]
    c2["W"] = c.W[np.ix_(p, p)]
    c2["w"] = meta.relabel_w(c.w, p)
    if c.get("gwk") is not None:
        c2["gwk"] = zoo.kernel(c.n, c["gseed"], perm=p)
    if c.regimes is not None:
        c2["regimes"] = [c.regimes[i] for i in p]
    return c2


def run_perm(s):
    e, c, fit, f0, tol = base(s)
    n = c.n
    g = gen.rng(s["pseed"], 91)
    perm = {"rand": lambda: g.permutation(n), "rev": lambda: np.arange(n)[::-1], "roll": lambda: np.roll(np.arange(n), int(g.integers(1, n))),
            "sortreg": lambda: np.argsort([str(r) for r in c.regimes], kind="stable") if c.regimes else np.argsort(c.y.ravel()),
            "swap": lambda: np.r_[n - 1, np.arange(1, n - 1), 0]}[s["how"]]()
    c2 = take(c, perm)
    with sut(s["e"] + " on permuted observations"):
        f1 = meta.facts(fit(c2))
    want = {k: (v[perm] if k[0] == "obs" else v) for k, v in f0.items()}
    meta.compare("%s, observations permuted" % s["e"], f1, want, tol)
    return {"nontrivial": bool((perm != np.arange(n)).any()), "labels": [s["e"]]}


def run_ids(s):
    e, c, fit, f0, tol = base(s)
    ids = list(c.w.id_order)
    n = len(ids)
    g = gen.rng(s["pseed"], 92)
    p = g.permutation(n)
    new = {"int": lambda i: int(p[i]), "str": lambda i: "k%d" % p[i], "big": lambda i: 1000 * (n - i), "mixed": lambda i: "%05d" % (7 * (n - i)), "float": lambda i: float(p[i]) + 0.5,
           "tuple": lambda i: (int(p[i]) % 7, int(p[i]))}[s["how"]]
    mp = {v: new(i) for i, v in enumerate(ids)}
    c2 = c.copy()
    c2["w"] = meta.relabel_w(c.w, newid=mp)
    if c.get("gwk") is not None:
        c2["gwk"] = zoo.kernel(n, c["gseed"], ids=["g%d" % v for v in p])
    with sut(s["e"] + " with renamed ids"):
        f1 = meta.facts(fit(c2))
    meta.compare("%s, ids renamed (%s)" % (s["e"], s["how"]), f1, f0, tol)
    return {"nontrivial": True, "labels": [s["e"]]}


LABELS = [["a", "b", "c"], ["c", "b", "a"], [1, 2, 3], [3, 1, 2], [10, 9, 100], ["north", "Center", "isles"], [2.5, -1.5, 0.5], ["r 1", "r 2", "r0"], [0, 1, -1]]


def run_regnames(s):
    e, c, fit, f0, tol = base(s)
    labs = sorted(set(c.regimes), key=lambda r: c.regimes.index(r))
    new = LABELS[s["how"] % len(LABELS)]
    mp = dict(zip(labs, new))
    c2 = c.copy()
    c2["regimes"] = [mp[r] for r in c.regimes]
    if s["box"]:
        c2["regimes"] = np.array(c2["regimes"])
    with sut(s["e"] + " with renamed regimes"):
        f1 = meta.facts(fit(c2))
    pre = {str(a): str(b) for a, b in mp.items()}

    def ren(v):
        for a in sorted(pre, key=len, reverse=True):
            if v.startswith(a + "_"):
                return pre[a] + v[len(a):]
        return v
    want, t2 = {}, {}
    for k, v in f0.items():
        if k[0] in ("coef", "se", "z", "p"):
            k2 = (k[0], ren(k[1]))
        elif k[0] == "vm":
            k2 = ("vm", ren(k[1]), ren(k[2]))
        else:
            k2 = k
        want[k2], t2[k2] = v, tol[k]
    meta.compare("%s, regimes %s renamed %s" % (s["e"], labs, new[:len(labs)]), f1, want, t2)
    return {"nontrivial": True, "labels": [s["e"]]}


def run_cols(s):
    e, c, fit, f0, tol = base(s)
    g = gen.rng(s["pseed"], 93)
    c2 = c.copy()
    nm = c2["names"] = dict(c["names"])
    parts = [("x", "name_x")]
    if e.endog:
        parts += [("yend", "name_yend"), ("q", "name_q")]
    moved = False
    for k, name in parts:
        p = g.permutation(c[k].shape[1]) if k != "x" or s["how"] == "rand" else np.arange(c[k].shape[1])[::-1]
        moved |= bool((p != np.arange(len(p))).any())
        c2[k] = c[k][:, p]
        nm[name] = [nm[name][i] for i in p]
    if "Endog_Error_Het" in s["e"] and e.endog and c.yend.shape[1] > 1:
        b = [f0[k] for k in f0 if k[0] == "coef" and "e" in k[1] and k[1].split("_")[-1].startswith("e")]
        if max(abs(x) for x in b) >= 0.85:
            raise Reject("last endogenous coefficient limited to 0.9 (known finding of P12)")
    with sut(s["e"] + " with reordered columns"):
        f1 = meta.facts(fit(c2))
    skip = [("test", "chow"), ("test", "KP_error")]      # chow rows follow the order of the variables
    meta.compare("%s, columns reordered" % s["e"], f1, f0, tol, skip=skip)
    if ("test", "chow", "joint", 0) in f0:
        rows = lambda f: sorted((float("%.5g" % f["test", "chow", i, 0])) for i in range(len([k for k in f if k[:2] == ("test", "chow") and k[2] != "joint" and k[3] == 0])))
        t = max(tol[k] for k in tol if k[:2] == ("test", "chow"))
        a, b = rows(f1), rows(f0)
        if len(a) != len(b) or np.max(np.abs(np.array(a) - b) / (1 + np.abs(b))) > 1e-3 + t:
            raise Violation("%s, columns reordered: Chow statistics %s, expected %s" % (s["e"], a, b))
    return {"nontrivial": moved, "labels": [s["e"]]}


# ------------------------------------------------------------------ systems and panels
def sys_base(s, prep=None):
    import spreg
    cls = s["cls"]
    endog, lag, err = cls == "ThreeSLS" or (cls == "SURlagIV" and s["m"] % 2 == 0), cls == "SURlagIV", cls.startswith("SURerror")
    c = surs.build(s, endog=endog, lag=lag, err=err)
    m, n = c.m, c.n
    if prep:
        prep(c)

    def fit(c):
        pos = [c.y, c.X] + ([c.Z, c.Q] if endog else [])
        kw = dict(name_bigy=dict(c.ny), name_bigX={r: ["C%s" % c.eq[r]] + c.nx[r] for r in range(m)})
        if endog:
            kw.update(name_bigyend=dict(c.nz), name_bigq=dict(c.nq))
        if cls != "ThreeSLS":
            kw["w"] = c.w
        if cls == "SUR":
            kw.update(spat_diag=True, nonspat_diag=True)
        with series_ok(c.W):
            return getattr(spreg, cls)(*[{r: v.copy() for r, v in d.items()} for d in pos], **kw)

    def names(c):
        return [["%s|%s" % (c.eq[r], v) for v in ["const"] + c.nx[r] + (c.nz[r] if endog else []) + (["Wy"] if lag else [])] for r in range(m)]
    c.eq = {r: "E%d" % r for r in range(m)}
    for r in range(m):
        H = c.X[r] if not endog else np.hstack([c.X[r], c.Q[r]])
        if lag:
            H = np.hstack([H, c.W @ H[:, 1:]])
        if ref.cond(H) > 200:
            raise Reject("ill conditioned")
    rel = 1e-3 if err else 1e-7
    with sut(cls):
        f0 = meta.sysfacts(fit(c), names(c))
        tol = {k: rel * meta.natural(f0, k) for k in f0}
        c2 = ref.NS(**c)
        c2.y = {r: meta.noise(v, 1 + r) for r, v in c.y.items()}
        for k, e in meta.dist(f0, meta.sysfacts(fit(c2), names(c))).items():
            tol[k] += 100 * e
    for k in tol:
        if k[0] == "coef" and not tol[k] <= 0.05 * (f0["se", k[1]] + abs(f0[k])):
            raise Reject("unstable")
    return c, fit, names, f0, tol


def run_sys(s):
    cls = s["cls"]
    c, fit, names, f0, tol = sys_base(s)
    m, n = c.m, c.n
    g = gen.rng(s["pseed"], 94)
    c2 = ref.NS(**c)
    if s["how"] == "units":
        p = g.permutation(n)
        for a in ("y", "X", "Z", "Q"):
            setattr(c2, a, {r: v[p] for r, v in getattr(c, a).items()})
        c2.w, c2.W = meta.relabel_w(c.w, p), c.W[np.ix_(p, p)]
        want, t = {k: (v[p] if k[0] == "obs" else v) for k, v in f0.items()}, tol
    else:
        p = g.permutation(m)
        inv = {int(o): i for i, o in enumerate(p)}       # old equation -> new position
        for a in ("y", "X", "Z", "Q", "nx", "ny", "nz", "nq", "eq"):
            d = getattr(c, a)
            setattr(c2, a, {i: d[int(o)] for i, o in enumerate(p)} if d else d)

        def ren(k):
            if k[0] in ("sig", "corr"):
                return (k[0], inv[k[1]], inv[k[2]])
            if k[0] == "lam":
                return ("lam", inv[k[1]])
            if k[0] == "obs":
                return ("obs", "E%d" % inv[int(k[1][1:])])
            if k[:2] == ("test", "lamtest"):
                return k
            return k
        want, t = {ren(k): v for k, v in f0.items()}, {ren(k): v for k, v in tol.items()}
    with sut(cls + " after permuting " + s["how"]):
        f1 = meta.sysfacts(fit(c2), names(c2))
    meta.compare("%s, %s permuted" % (cls, s["how"]), f1, want, t)
    return {"nontrivial": bool((p != np.arange(len(p))).any()), "labels": [cls + " " + s["how"]]}


PANELS = ["Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "GM_KKP", "PanelFE", "PanelRE", "PooledOLS"]


def panel_base(s, prep=None):
    import spreg
    cls = s["cls"]
    if cls in ("Panel_RE_Error",):
        s["w"]["kind"], s["w"]["t"] = "dist", "s"
    c = panel.build(s, "lag" if "Lag" in cls else "error")
    if prep:
        prep(c)

    def fit(y, X, w):
        with series_ok(c.W):
            return getattr(spreg, cls)(y.copy(), X.copy(), w, name_x=list(c.nx), name_y="yy")

    def nm(m):
        k = len(np.asarray(m.betas).ravel())
        base = (["CONSTANT"] if k > len(c.nx) and not cls.startswith("Panel_FE") and cls != "PanelFE" else []) + list(c.nx)
        tail = {"Panel_FE_Lag": ["W_yy"], "Panel_FE_Error": ["lambda"], "Panel_RE_Lag": ["W_yy", "phi"], "Panel_RE_Error": ["lambda", "sigma2_u"], "GM_KKP": ["lambda", "s_v", "s_1"]}.get(cls, [])
        return base + tail
    with sut(cls):
        m0 = fit(c.y, c.X, c.w)
        f0 = meta.panfacts(m0, nm(m0))
        rel = 1e-7 if cls in ("PanelFE", "PanelRE", "PooledOLS") else 2e-3 if "RE_" in cls or cls == "GM_KKP" else 1e-4
        tol = {k: rel * meta.natural(f0, k) for k in f0}
        for sd in (1, 2):
            m1 = fit(meta.noise(c.y, sd), c.X, c.w)
            for k, e in meta.dist(f0, meta.panfacts(m1, nm(m1))).items():
                tol[k] += 100 * e
    for k in f0:
        if k[0] == "coef" and not (tol[k] <= 0.05 * (f0.get(("se", k[1]), 1.0) + abs(f0[k]))):
            raise Reject("unstable")
    return c, fit, nm, f0, tol


def run_panel(s):
    cls = s["cls"]
    c, fit, nm, f0, tol = panel_base(s)
    N, T = c.N, c.T
    g = gen.rng(s["pseed"], 95)
    if s["how"] == "units":
        p = g.permutation(N)
        full = np.concatenate([t * N + p for t in range(T)])
        w2 = meta.relabel_w(c.w, p)
    else:
        p = g.permutation(T)
        full = np.concatenate([t * N + np.arange(N) for t in p])
        w2 = c.w
    with sut(cls + " after permuting " + s["how"]):
        m1 = fit(c.y[full], c.X[full], w2)
        f1 = meta.panfacts(m1, nm(m1))
    want = {k: (v[full] if k[0] == "obs" and len(v) == N * T else v) for k, v in f0.items()}
    skip = [("obs", "e_filtered")] if cls == "Panel_RE_Error" else []     # a triangular factor: depends on the order by construction
    meta.compare("%s, %s permuted" % (cls, s["how"]), f1, want, tol, skip=skip)
    return {"nontrivial": bool((p != np.arange(len(p))).any()), "labels": [cls + " " + s["how"]]}


def strat_sys():
    return st.fixed_dictionaries(dict(surs.spec(endog=True), cls=st.sampled_from(["SUR", "SURerrorML", "SURerrorGM", "SURlagIV", "ThreeSLS"]), pseed=gen.SEED, how=st.sampled_from(["units", "equations"])))


def strat_panel():
    return st.fixed_dictionaries(dict(panel.spec(slx=(0,), T=(2, 3, 4)), cls=st.sampled_from(PANELS), pseed=gen.SEED, how=st.sampled_from(["units", "units", "periods"])))


HOW = ["rand", "rand", "rev", "roll", "sortreg", "swap"]
SUBS = [
    Sub("permute", lambda: meta.spec(ALL, more={"pseed": gen.SEED, "how": st.sampled_from(HOW)}), run_perm, quick=260, thorough=8000),
    Sub("ids", lambda: meta.spec(WALL, more={"pseed": gen.SEED, "how": st.sampled_from(["int", "str", "big", "mixed", "float", "tuple"])}), run_ids, quick=130, thorough=4000),
    Sub("regime_labels", lambda: meta.spec(REG, more={"how": st.integers(0, 20), "box": st.booleans()}), run_regnames, quick=120, thorough=4000),
    Sub("columns", lambda: meta.spec(ALL, more={"pseed": gen.SEED, "how": st.sampled_from(["rand", "rev"])}), run_cols, quick=160, thorough=4000),
    Sub("systems", strat_sys, run_sys, quick=100, thorough=3000),
    Sub("panels", strat_panel, run_panel, quick=100, thorough=3000),
]

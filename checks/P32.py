"""Equivalent representations of the data give equivalent results."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import sparse
from vlib import gen, meta, zoo, ref, panel
from vlib.core import Sub, sut, Reject, Violation, series_ok
from vlib.cmp import same
from checks import P33

TITLE = "Input containers"
RULE = ("51 estimator configurations and the panel estimators x representation of the dependent variable, regressors, endogenous variables, instruments, regimes (flat, column, integer, Fortran-ordered, strided, read-only "
        "arrays; Series; frames; any index) and weights (W, Graph, dense, CSR/CSC/COO matrix), and the panel and system estimators x eight integer types per variable: estimates, tests, fit, names and summary against plain arrays and a W object; non-trivial = stable case with at least "
        "one different representation")
ASSUMPTIONS = ["equilibrated condition of regressors and instruments < 300", "Graphs, dense and sparse matrices carry no transformation, so they are compared with a W object holding the same values untransformed",
               "tolerance = optimiser tolerance of the estimator + 100 x the response to noise of 1e-10"]
YF = ["small", "small", "col", "flat", "series", "series_idx", "frame", "frame_idx", "fortran", "strided", "readonly", "int"]
XF = ["small", "array", "series", "series_idx", "frame", "frame_idx", "frame_mixed", "fortran", "strided", "readonly", "int", "flat"]
ZF = ["small", "array", "flat", "frame", "frame_idx", "series", "fortran", "strided", "readonly"]
RF = ["list", "array", "series", "series_idx", "objarray", "readonly"]
WF = ["W", "W", "graph", "dense", "csr", "csc", "coo"]


def index(n, seed):
    g = gen.rng(seed, 71)
    return [list(g.permutation(n)), ["r%d" % i for i in range(n)], list(range(5, n + 5)), [0] * n, list(pd.date_range("2001-01-01", periods=n))][int(g.integers(0, 5))]


def strided(a):
    b = np.full((a.shape[0] * 2, a.shape[1] * 2), 7.0)
    b[::2, ::2] = a
    return b[::2, ::2]


def coarse(a, how):
    """the columns of a on the grid of a narrow type: 1 -> 0..200, 2 -> -100..100, 3 -> +-30000, 4 -> float32"""
    a = np.array(a, dtype=float)
    for j in range(a.shape[1]):
        v = a[:, j]
        if how == 4:
            a[:, j] = v.astype(np.float32)
        elif how and len(np.unique(v)) > 2:
            lo, hi = {1: (0, 200), 2: (-100, 100), 3: (-30000, 30000)}[how]
            a[:, j] = np.round(lo + (v - v.min()) / (v.max() - v.min()) * (hi - lo))
    return a


def box(a, form, names, seed):
    """-> (object, True when it carries the names)"""
    n, k = a.shape
    integer = bool(np.all(a == np.round(a)) and np.all(np.abs(a) < 1e6))
    if form == "int" and integer:
        return a.astype(np.int64), False
    if form == "small":
        return narrow(a, seed), False
    if form == "flat" and k == 1:
        return a.ravel().copy(), False
    if form in ("series", "series_idx") and k == 1:
        return pd.Series(a.ravel().copy(), name=names[0], index=index(n, seed) if form.endswith("idx") else None), True
    if form in ("frame", "frame_idx", "frame_mixed"):
        df = pd.DataFrame(a.copy(), columns=list(names), index=index(n, seed) if form.endswith("idx") else None)
        if form == "frame_mixed":
            for c in df.columns:
                if np.all(df[c] == df[c].round()) and df[c].abs().max() < 1e6:
                    df[c] = df[c].astype(int)
        return df, True
    if form == "fortran":
        return np.asfortranarray(a.copy()), False
    if form == "strided":
        return strided(a), False
    if form == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b, False
    return a.copy(), False


def box_reg(lab, form, seed, name="reg"):
    if form == "array":
        return np.array(lab), False
    if form == "readonly":
        b = np.array(lab)
        b.flags.writeable = False
        return b, False
    if form == "objarray":
        return np.array(lab, dtype=object), False
    if form.startswith("series"):
        return pd.Series(lab, name=name, index=index(len(lab), seed) if form.endswith("idx") else None), True
    return list(lab), False


def box_w(w, W, form, seed=0):
    if form in ("dense", "csr", "csc", "coo"):
        W = narrow(W, seed, (bool,) + TYPES[:-1])      # 0/1 matrices as booleans or small integers
    if form == "graph" and W.dtype != bool and seed % 2 and np.isin(W, (0, 1)).all():
        from libpysal.graph import Graph
        return Graph.from_sparse(sparse.csr_matrix(W.astype(bool)))
    if form == "graph":
        from libpysal.graph import Graph
        return Graph.from_W(w)
    if form == "dense":
        return np.array(W)
    if form in ("csr", "csc", "coo"):
        return {"csr": sparse.csr_matrix, "csc": sparse.csc_matrix, "coo": sparse.coo_matrix}[form](W)
    return w


NAMES = ("name_y", "name_x", "name_yend", "name_q", "name_h", "name_z", "name_regimes", "title")


def relabel(nm, s, c):
    """the names of the variables: as given, integers (the default labels of a frame) or "name", which is also an attribute of a Series"""
    if s["labels"] == "int":
        nm["name_y"], nm["name_regimes"] = "5", "7"
        for key, base in (("name_x", 10), ("name_yend", 30), ("name_q", 40)):
            if key in nm:
                nm[key] = [str(base + j) for j in range(len(nm[key]))]
    elif s["labels"] == "name":
        key = ["name_y", "name_x", "name_yend", "name_q"][s["seed"] % 4]
        if key in nm:
            nm[key] = "name" if key == "name_y" else ["name"] + list(nm[key][1:])
    elif s["labels"] == "none":                        # series without a name: the default names
        for key, form, k in (("name_y", s["yf"], 1), ("name_x", s["xf"], c.X.shape[1] if "X" in c else c.x.shape[1]), ("name_yend", s["zf"], len(nm.get("name_yend") or [])), ("name_q", s["qf"], len(nm.get("name_q") or []))):
            if form.startswith("series") and k == 1:
                nm.pop(key, None)
        if s["rf"].startswith("series"):
            nm.pop("name_regimes", None)
    return nm


def run(s):
    e, c, kw = meta.case(s)
    wf = s["wf"] if e.spatial else "W"
    for key in ("y", "x", "yend", "q"):
        if key in c and c[key] is not None:
            c[key] = coarse(c[key], s["grid"])
    if wf != "W":
        c["w"] = gen.to_w(c.W, list(c.w.id_order))
        if wf == "graph" and (c.W.sum(1) == 0).any():
            raise Reject("islands")

    def fit(c):
        with series_ok(c.W):
            return e.call(c, **kw)
    with sut(s["e"]):
        m0 = fit(c)
        f0 = meta.facts(m0)
        tol = meta.tolerances(fit, c, f0, e.tol, probit=e.kind == "probit")
    nm = c["names"] = relabel(dict(c["names"]), s, c)
    with sut(s["e"]):
        if s["labels"] != "str":
            m0 = fit(c)
            f0n = meta.facts(m0)
            if len(f0n) != len(f0):
                raise Reject("names that cannot be told apart")
            tol = dict(zip(f0n, [tol[k] for k in f0]))
            f0 = f0n
    c2 = c.copy()
    nm2 = c2["names"] = dict(nm)
    carried = []
    for key, name, form in (("y", "name_y", s["yf"]), ("x", "name_x", s["xf"]), ("yend", "name_yend", s["zf"]), ("q", "name_q", s["qf"])):
        if key in ("yend", "q") and not e.endog:
            continue
        names = nm.get(name, [None])
        names = names if isinstance(names, list) else [names]
        c2[key], has = box(c[key], form, [int(v) if v.isdigit() else v for v in names] if s["labels"] == "int" else names, s["seed"])
        if has:
            carried.append(name)
            if not s["both"]:
                nm2.pop(name, None)
    if e.reg:
        c2["regimes"], has = box_reg(c.regimes, s["rf"], s["seed"], {"int": 7, "none": None}.get(s["labels"], "reg"))
        if has and not s["both"]:
            nm2.pop("name_regimes", None)
    if e.spatial:
        c2["w"] = box_w(c.w, c.W, wf, s["seed"])
    forms = dict(y=s["yf"], x=s["xf"], yend=s["zf"], q=s["qf"], regimes=s["rf"], w=wf)
    used = {k: v for k, v in forms.items() if k in e.needs}
    with sut("%s with %s" % (s["e"], used)):
        m1 = fit(c2)
        f1 = meta.facts(m1)
    what = "%s with %s" % (s["e"], used)
    meta.compare(what, f1, f0, tol)
    for a in NAMES:
        if hasattr(m0, a):
            same("%s: %s" % (what, a), getattr(m1, a, None), getattr(m0, a))
    same(what + ": number of summary lines", len(m1.summary.splitlines()), len(m0.summary.splitlines()))
    return {"nontrivial": any(v not in ("col", "array", "list", "W") for v in used.values()), "labels": [s["e"], "w:" + wf]}


PAN = ["Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "GM_KKP", "ML_LagFE", "ML_ErrorFE", "ML_LagRE", "ML_ErrorPooled", "GM_ErrorRE", "GM_ErrorPooled", "ML_ErrorRE", "PooledOLS", "PanelFE", "PanelRE"]


def run_panel(s):
    """the weights of a panel in any form"""
    import spreg
    cls = s["cls"]
    c = panel.build(s, "lag" if "Lag" in cls else "error")
    w0 = gen.to_w(c.W, list(c.w.id_order))

    def fit(y, w):
        with series_ok(c.W):
            return getattr(spreg, cls)(y.copy(), c.X.copy(), w, name_x=list(c.nx), name_y="yy")

    def facts(m):
        b = np.asarray(m.betas, dtype=float).ravel()
        return meta.panfacts(m, ["b%d" % i for i in range(b.size)])
    rel = 2e-3 if "Lag" in cls or "Error" in cls or "KKP" in cls else 1e-7
    with sut(cls):
        m0 = fit(c.y, w0)
        f0 = facts(m0)
        tol = {k: rel * (meta.natural(f0, k) + (1.0 if k[0] == "coef" and ("se", k[1]) not in f0 else 0.0)) for k in f0}
        for sd in (1, 2):
            for k, d in meta.dist(f0, facts(fit(meta.noise(c.y, sd), w0))).items():
                tol[k] += 100 * d
    for k in f0:
        if k[0] == "coef" and not tol[k] <= 0.05 * (f0.get(("se", k[1]), 1.0) + abs(f0[k])):
            raise Reject("unstable")
    with sut("%s with %s weights" % (cls, s["wf"])):
        m1 = fit(c.y, box_w(w0, c.W, s["wf"], s["seed"]))
        f1 = facts(m1)
    meta.compare("%s with %s weights" % (cls, s["wf"]), f1, f0, tol)
    return {"nontrivial": s["wf"] != "W", "labels": [cls, s["wf"]]}


def narrow(a, seed, types=None):
    """a in one of the types that hold its values"""
    ok = [dt for dt in types or TYPES if np.array_equal(np.asarray(a).astype(dt).astype(float), a)]
    return a.astype(ok[seed % len(ok)]) if ok else a.copy()


TYPES = (np.uint8, np.int8, np.uint16, np.int16, np.int32, np.uint32, np.int64, np.uint64, np.float32)


def full_rank(X):
    if ref.cond(X) > 200:
        raise Reject("ill conditioned")


def run_panel_types(s):
    cls = s["cls"]

    def prep(c):
        c.y, c.X = coarse(c.y, s["grid"]), coarse(c.X, s["grid"])
        full_rank(ref.const(panel.demean(c.X, c.N)))
    c, fit, nm, f0, tol = P33.panel_base(s, prep)
    y = narrow(c.y, s["a"], TYPES[:-1]) if s["target"] != "x" else c.y
    X = narrow(c.X, s["b"], TYPES[:-1]) if s["target"] != "y" else c.X
    what = "%s with y of type %s and x of type %s" % (cls, y.dtype, X.dtype)
    with sut(what):
        m1 = fit(y, X, c.w)
    meta.compare(what, meta.panfacts(m1, nm(m1)), f0, tol)
    return {"nontrivial": y.dtype != float or X.dtype != float, "labels": [cls, str(y.dtype), str(X.dtype)]}


def run_sys_types(s):
    cls = s["cls"]

    def prep(c):
        c.y = {r: coarse(v, s["grid"]) for r, v in c.y.items()}
        for a in ("X", "Z", "Q"):
            if c.get(a):
                c[a] = {r: coarse(v, s["grid"]) for r, v in c[a].items()}
        for r in c.X:
            full_rank(c.X[r])
    c, fit, names, f0, tol = P33.sys_base(s, prep)
    c2 = ref.NS(**c)
    i = s["a"]
    for a in ("y", "X", "Z", "Q"):
        if c.get(a) and (s["target"] == "all" or s["target"] == a):
            c2[a] = {}
            for r, v in c[a].items():
                c2[a][r] = narrow(v, i, TYPES[:-1])
                i += s["b"]
    types = sorted({str(v.dtype) for a in ("y", "X", "Z", "Q") if c.get(a) for v in c2[a].values()})
    what = "%s with data of types %s" % (cls, ", ".join(types))
    with sut(what):
        f1 = meta.sysfacts(fit(c2), names(c))
    meta.compare(what, f1, f0, tol)
    return {"nontrivial": types != ["float64"], "labels": [cls] + types}


def run_panel_frames(s):
    """series and frames, one column per variable or per variable and period, whose labels become the names"""
    import spreg
    cls = s["cls"]
    c, fit, nm, f0, tol = P33.panel_base(s)
    N, T, k = c.N, c.T, c.X.shape[1]
    g = gen.rng(s["seed"], 77)
    if s["wide"] and T > 1:
        yw = c.y.reshape(T, N).T
        xw = np.hstack([c.X[:, [j]].reshape(T, N).T for j in range(k)])
        if s["labels"] == "int":
            ny, nx = list(range(T)), list(range(10, 10 + k * T))
            wy, wx = "0", [str(10 + j * T) for j in range(k)]
        else:
            ny, nx = ["yy%d" % (60 + t) for t in range(T)], ["%s_%d" % ("abcdef"[j], 60 + t) for j in range(k) for t in range(T)]
            wy, wx = "yy", ["%s_" % "abcdef"[j] for j in range(k)]
    else:
        yw, xw = c.y, c.X
        ny, nx = ([5], list(range(10, 10 + k))) if s["labels"] == "int" else (["yy"], list(c.nx))
        wy, wx = str(ny[0]), [str(v) for v in nx]
    idx = index(yw.shape[0], s["seed"]) if s["idx"] else None
    y, X = pd.DataFrame(yw, columns=ny, index=idx), pd.DataFrame(xw, columns=nx, index=idx)
    if s["series"] and y.shape[1] == 1:
        y = y[ny[0]]
        if s["labels"] == "none":
            y.name, wy = None, None
    kw = {}
    if g.random() < 0.2:
        y, kw["name_y"] = y.to_numpy().reshape(yw.shape), wy or "yy"
        wy = kw["name_y"]
    what = "%s with %s frames, %s labels" % (cls, "wide" if yw.shape[1] > 1 else "long", s["labels"])
    with sut(what), series_ok(c.W):
        m0 = getattr(spreg, cls)(c.y.copy(), c.X.copy(), c.w, name_x=wx, **({"name_y": wy} if wy else {}))
        m1 = getattr(spreg, cls)(y, X, c.w, **kw)
    for a in ("name_y", "name_x"):
        same("%s: %s" % (what, a), getattr(m1, a, None), getattr(m0, a, None))
    meta.compare(what, meta.panfacts(m1, nm(m1)), f0, tol)
    return {"nontrivial": True, "labels": [cls, what.split(" with ")[1]]}


def typed(f, targets):
    return st.tuples(f(), st.fixed_dictionaries({"a": st.integers(0, 50), "b": st.integers(0, 50), "grid": st.sampled_from([1, 2, 3]), "target": st.sampled_from(targets)})).map(lambda t: dict(t[0], **t[1]))


MORE = {"yf": st.sampled_from(YF), "xf": st.sampled_from(XF), "zf": st.sampled_from(ZF), "qf": st.sampled_from(ZF), "rf": st.sampled_from(RF), "wf": st.sampled_from(WF), "both": st.booleans(), "labels": st.sampled_from(["str", "str", "int", "name", "none"]), "grid": st.sampled_from([0, 0, 1, 2, 3, 4]), "seed": gen.SEED}
SUBS = [
    Sub("containers", lambda: meta.spec(list(zoo.ZOO), transforms=("r", "r", "r", "s", "b", "b"), more=MORE), run, quick=500, thorough=12000),
    Sub("panel_weights", lambda: st.fixed_dictionaries(dict(panel.spec(slx=(0,), T=(2, 3)), cls=st.sampled_from(PAN), wf=st.sampled_from(WF[2:]))), run_panel, quick=70, thorough=2000),
    Sub("panel_types", lambda: typed(P33.strat_panel, ["y", "x", "both", "both"]), run_panel_types, quick=160, thorough=4000),
    Sub("panel_frames", lambda: st.tuples(P33.strat_panel(), st.fixed_dictionaries({"seed": gen.SEED, "wide": st.booleans(), "idx": st.booleans(), "series": st.booleans(), "labels": st.sampled_from(["str", "int", "none"])})).map(lambda t: dict(t[0], **t[1])), run_panel_frames, quick=120, thorough=4000),
    Sub("system_types", lambda: typed(P33.strat_sys, ["all", "all", "X", "y"]), run_sys_types, quick=160, thorough=4000),
]

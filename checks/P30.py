"""Invalid input is rejected, valid input is not."""
import contextlib
import io
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, meta, zoo, ref, panel, surs
from vlib.core import Sub, sut, Reject, Violation, series_ok

TITLE = "Input validation"
RULE = ("one fault (missing / infinite value, wrong length, type or number of columns, weights with diagonal entries, of the wrong size or missing, unknown option, missing instruments, wrong regimes lists, too few observations or "
        "regimes) injected at a random place of a valid call of every estimator; the valid call must succeed, the faulty one must raise; non-trivial = both judged")
ASSUMPTIONS = ["any exception counts as a rejection; the equation systems pass missing values on: results that are missing throughout count as flagged", "GMM_Error announces an unknown estimator by a warning and falls back"]


def put(a, s, v):
    g = gen.rng(s["seed"], 101)
    b = np.array(a, dtype=float)
    b[int(g.integers(0, b.shape[0])), int(g.integers(0, b.shape[1]))] = v
    return pd.DataFrame(b, columns=["c%d" % j for j in range(b.shape[1])]) if s["frame"] else b


def bad_w(c, s, kind):
    g = gen.rng(s["seed"], 102)
    W = c.W.copy()
    n = W.shape[0]
    if kind == "diag":
        i = int(g.integers(0, n))
        W[i, i] = [1.0, -0.5, 1e-3][int(g.integers(0, 3))]
        return gen.to_w(W)
    m = n - 1 if g.random() < 0.5 else n + 1
    R = np.zeros((m, m))
    for i in range(m):
        R[i, (i + 1) % m] = R[i, (i - 1) % m] = 0.5
    return gen.to_w(R)


DATA = ["y", "x", "yend", "q"]


def faults(e, c):
    """names of the faults that apply"""
    f = []
    for a in DATA:
        if a in e.needs:
            f += [a + ":nan", a + ":inf", a + ":short", a + ":string", a + ":long", a + ":list3", a + ":bool"]
    f += ["y:twocol", "y:list", "y:object", "x:wide", "x:none"]
    if e.endog:
        f += ["q:missing"]
    if e.spatial:
        f += ["w:diag", "w:size", "w:kernel"]
        if e.cls not in ("OLS", "TSLS", "Probit", "OLS_Regimes", "TSLS_Regimes") or e.opts.get("spat_diag"):
            f += ["w:missing"]
    if "gwk" in e.needs:
        f += ["gwk:missing", "gwk:type", "gwk:diag"] + 3 * ["gwk:neg", "gwk:big"]
    if e.cls in ("OLS", "TSLS", "GM_Lag", "OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes"):
        f += ["robust"]
    if e.cls.startswith("ML_"):
        f += ["method"]
    if e.reg:
        f += ["regimes:short", "regimes:one", "regimes:few", "regimes:long", "regimes:none", "regimes:dict"]
        f += ["cols2regi", "constant_regi"]
    if e.slx and e.slxvars and e.spatial:
        f += ["slx_vars"]
    return f


def inject(e, c, kw, s, f):
    c, kw = c.copy(), dict(kw)
    c["names"] = {}
    if ":" in f and f.split(":")[0] in DATA:
        a, k = f.split(":")
        v = c[a]
        if k in ("nan", "inf"):
            x = np.nan if k == "nan" else [np.inf, -np.inf][s["seed"] % 2]
            c[a] = put(v, s, x)
        elif k == "short":
            c[a] = v[:-1]
        elif k == "long":
            c[a] = np.vstack([v, v[:1]])
        elif k == "string":
            b = v.astype(object)
            b[0, 0] = "abc"
            c[a] = b if not s["frame"] else v.astype(str)
        elif k == "object":
            c[a] = v.astype(str)
        elif k == "bool":
            c[a] = v > np.median(v)
        elif k == "twocol":
            c[a] = np.hstack([v, v])
        elif k == "list":
            c[a] = [float(i) for i in v.ravel()]
        elif k == "list3":
            c[a] = v.reshape(v.shape + (1,))
        elif k == "wide":
            c[a] = np.tile(v, (1, c.n))[:, :c.n + 3] + gen.rng(s["seed"], 103).standard_normal((c.n, c.n + 3))
        elif k in ("missing", "none"):
            c[a] = None
    elif f.startswith("w:"):
        k = f[2:]
        c["w"] = None if k == "missing" else zoo.kernel(c.n, s["seed"]) if k == "kernel" else bad_w(c, s, k)
        if k == "kernel":
            kw.pop("slx_lags", None)
    elif f.startswith("gwk:"):
        k = f[4:]
        if k == "missing":
            c["gwk"] = None
        elif k == "type":
            c["gwk"] = c.w
        else:
            c["gwk"] = off_kernel(c, s, k) if k != "diag" else half_kernel(gen.rng(s["seed"], 105).random((c.n, 2)))
    elif f == "robust":
        kw["robust"] = ["whitee", "HC0", "none", "cluster", "True"][s["seed"] % 5]
    elif f == "method":
        kw["method"] = ["foo", "fulll", "", "lu2"][s["seed"] % 4]
    elif f.startswith("regimes:"):
        k = f[8:]
        r = list(c.regimes)
        if k == "short":
            r = r[:-1]
        elif k == "long":
            r = r + r[:1]
        elif k == "one":
            r = [r[0]] * c.n
        elif k == "few":
            r = list(range(c.n // 2)) * 2 + [0] * (c.n % 2)
        elif k == "none":
            r = None
        elif k == "dict":
            r = dict(enumerate(r))
        c["regimes"] = r
    elif f == "cols2regi":
        kw["cols2regi"] = [True] * (c.x.shape[1] + (c.yend.shape[1] if e.endog else 0) + (1 if s["seed"] % 2 else -1))
    elif f == "constant_regi":
        kw["constant_regi"] = ["none", "two", "Many", "all"][s["seed"] % 4]
    elif f == "slx_vars":
        kw["slx_lags"] = 1
        kw["slx_vars"] = [True] * (c.k + 1) if s["seed"] % 2 else [True] * (c.k - 1)
    return c, kw


def half_kernel(xy):
    import libpysal
    k = libpysal.weights.Kernel(xy, k=4, function="quartic", fixed=False)
    return k


def off_kernel(c, s, k):
    """kernel weights with one off-diagonal entry below zero or above one"""
    w = zoo.kernel(c.n, s["d"]["seed"])
    g = gen.rng(s["seed"], 108)
    i = list(w.id_order)[int(g.integers(0, c.n))]
    j = [q for q, v in enumerate(w.neighbors[i]) if v != i]
    if not j:
        raise Reject("isolated unit")
    w.weights[i][j[int(g.integers(0, len(j)))]] = -0.2 if k == "neg" else 1.3
    return w


def judge(name, f, valid, faulty, ok=None):
    with sut(name + " (valid input)"):
        valid()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m = faulty()
    except Exception as x:
        return {"nontrivial": True, "labels": [f, type(x).__name__]}
    b = next((getattr(m, a) for a in ("betas", "bSUR", "b3SLS", "bSUR0") if getattr(m, a, None) is not None), np.nan)
    b = np.concatenate([np.ravel(np.asarray(v, dtype=float)) for v in b.values()]) if isinstance(b, dict) else np.asarray(b, dtype=float).ravel()
    raise Violation("%s accepted invalid input (%s) and reports coefficients %s" % (name, f, b[:4]))


def run(s):
    e, c, kw = meta.case(s, names=False)
    fs = faults(e, c)
    f = fs[s["f"] % len(fs)] if isinstance(s["f"], int) else s["f"]
    c2, kw2 = inject(e, c, kw, s, f)

    def valid():
        with series_ok(c.W):
            e.call(c, **kw)
    return judge(s["e"], f, valid, lambda: e.call(c2, **kw2))


# ------------------------------------------------------------------ panels
PANELS = ["PooledOLS", "PanelFE", "PanelRE", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "GM_KKP", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE", "ML_LagRE"]
PF = ["y:nan", "y:inf", "y:short", "y:string", "y:list", "x:nan", "x:inf", "x:short", "x:string", "x:list", "x:none", "w:diag", "w:size", "w:missing", "w:array", "name_x"]
FE = ("PanelFE", "Panel_FE_Lag", "Panel_FE_Error", "ML_ErrorFE", "ML_LagFE")


def run_panel(s):
    import spreg
    s["const"] = 0
    cls = s["cls"]
    if cls == "Panel_RE_Error":     # symmetric weights with distinct eigenvalues are its domain (see P20)
        s["w"] = dict(s["w"], t="s", kind="dist")
    c = panel.build(s)
    if cls not in dir(spreg):
        raise Reject("no such class")
    y, X, kw, names, yn = panel.args(s, c)
    pf = PF + ["x:invariant"] * 3 if cls in FE else PF
    f = pf[s["f"] % len(pf)]
    if cls.startswith("Panel_") or cls == "GM_KKP":
        kw.pop("slx_lags", None), kw.pop("slx_vars", None)
    if min(np.linalg.matrix_rank(panel.demean(c.XL, c.N)), c.XL.shape[1]) < c.XL.shape[1] or ref.cond(ref.const(c.XL)) > 300:
        raise Reject("collinear")
    g = gen.rng(s["seed"], 106)

    def put2(a, v):
        b = np.array(a, dtype=float)
        if b.ndim == 1:
            b = b.reshape(-1, 1)
        b[int(g.integers(0, b.shape[0])), int(g.integers(0, b.shape[1]))] = v
        return pd.DataFrame(b, columns=list(a.columns)) if isinstance(a, pd.DataFrame) else b
    y2, X2, w2, kw2 = y, X, c.w, dict(kw)
    a, k = (f + ":").split(":")[:2]
    if a in ("y", "x"):
        v = y if a == "y" else X
        if k in ("nan", "inf"):
            v = put2(v, np.nan if k == "nan" else -np.inf)
        elif k == "short":
            v = v[:-1]
        elif k == "string":
            v = np.asarray(v).astype(str) if s["seed"] % 2 else np.asarray(v).astype(object)
            v[0] = "abc"
        elif k == "list":
            v = [float(i) for i in np.asarray(v).ravel()]
        elif k == "invariant":      # a regressor that does not vary over time is not identified next to fixed effects
            b = np.array(v, dtype=float)
            b = b.reshape(-1, 1) if b.ndim == 1 else b
            base = g.standard_normal(c.N) * [1.0, 1e-7, 1e4][s["seed"] % 3] + [0.0, 3.0][s["seed"] // 3 % 2]
            base = np.round(base) if s["seed"] % 7 == 0 else base
            j = int(g.integers(0, c.k))
            if b.shape[0] == c.N * c.T:
                b[:, j] = np.tile(base, c.T)
            else:
                b[:, j * c.T:(j + 1) * c.T] = base[:, None]
            v = pd.DataFrame(b, columns=list(v.columns)) if isinstance(v, pd.DataFrame) else b
            if np.ptp(base) == 0:
                raise Reject("constant")
        elif k == "none":
            v = None
        y2, X2 = (v, X) if a == "y" else (y, v)
    elif f == "w:array":
        w2 = list(c.W)
    elif a == "w":
        w2 = None if k == "missing" else bad_w(c, s, k)
        if k == "size" and (c.N * c.T) % w2.n == 0:
            raise Reject("the panel could have that many units")
    else:
        if X.shape[1:] == () or isinstance(X, pd.Series):
            raise Reject("series")
        kw2["name_x"] = ["a%d" % j for j in range(X.shape[1] + 1)]
        if len(kw2["name_x"]) in (c.k, c.k * c.T):      # one name per variable, or per variable and period
            raise Reject("valid")
    call = lambda y, X, w, kw: getattr(spreg, cls)(y, X, w, **kw)
    if cls == "Panel_RE_Error":     # needs weights with distinct eigenvalues (see P20)
        try:
            call(y, X, c.w, kw)
        except np.linalg.LinAlgError:
            raise Reject("decomposition")
    return judge(cls, f, lambda: call(y, X, c.w, kw), lambda: call(y2, X2, w2, kw2))


# ------------------------------------------------------------------ systems
SYS = ["SUR", "SUR_spat", "ThreeSLS", "SURlagIV", "SURerrorGM", "SURerrorML"]
SF = ["nan", "inf", "short", "allshort", "string", "keys", "list", "none", "missing", "w:missing", "w:size", "df", "lens"]


def run_sys(s):
    import spreg
    cls = s["cls"]
    endog = cls in ("ThreeSLS", "SURlagIV")
    c = surs.build(s, endog=endog, lag=cls == "SURlagIV", err="error" in cls)
    surs.good(c.X, 100)
    E0 = surs.resid(c.y, c.X, surs.ols(c.y, c.X))
    surs.good_sig(E0.T @ E0)
    f = SF[s["f"] % len(SF)]
    wneed = cls not in ("SUR", "ThreeSLS")
    if f in ("df", "lens"):
        s["form"] = "frame"
    elif s["form"] in ("frame", "table", "long"):
        s["form"] = "dict"
    pos, kw, names = surs.inputs(s, c, (0, 1), endog=endog)
    if wneed:
        kw["w"] = c.w
    if cls == "SUR_spat":
        kw["spat_diag"] = True
    if cls == "SUR":
        kw["nonspat_diag"] = bool(s["seed"] % 3)
    g = gen.rng(s["seed"], 107)
    p2, k2 = [dict(v) if isinstance(v, dict) else list(v) for v in pos], dict(kw)
    r = int(g.integers(0, c.m))
    a = int(g.integers(0, len(pos)))
    if f.startswith("w:"):
        if not wneed:
            raise Reject("no weights")
        k2["w"] = None if f == "w:missing" else bad_w(c, s, "size")
    elif f == "df":
        del k2["df"]
    elif f == "lens":
        p2[a] = p2[a][:-1]
    elif f in ("nan", "inf"):
        v = np.array(p2[a][r], dtype=float)
        v[int(g.integers(0, c.n)), -1] = np.nan if f == "nan" else np.inf
        p2[a][r] = v
    elif f == "short":
        p2[a][r] = p2[a][r][:-1]
    elif f == "allshort":
        p2[a] = {q: p2[a][q][:-1] for q in p2[a]}
    elif f == "string":
        p2[a][r] = p2[a][r].astype(str)
    elif f == "keys":
        p2[a] = {"eq%d" % q: p2[a][q] for q in p2[a]}
    elif f == "list":
        a = a % 2
        p2[a] = list(p2[a].values())
    elif f == "none":
        if a > 1 and cls == "SURlagIV":
            raise Reject("endogenous variables are optional")
        p2[a] = None
    elif f == "missing":
        a = 1 + a % (len(pos) - 1)
        del p2[a][r]
    name = cls.split("_")[0]

    def faulty():
        with np.errstate(all="ignore"):
            m = getattr(spreg, name)(*p2, **k2)
        if f in ("nan", "inf"):
            b = next(getattr(m, q) for q in ("b3SLS", "bSUR") if hasattr(m, q))
            if all(np.isnan(np.asarray(b[q], dtype=float)).all() for q in b) and np.isnan(m.varb).all():
                raise Reject2("every estimate reported as missing")
        return m
    return judge(cls, f, lambda: getattr(spreg, name)(*pos, **kw), faulty)


# ------------------------------------------------------------------ nonlinear SLX
NF = ["y:nan", "y:inf", "y:short", "y:bool", "y:twocol", "x:nan", "x:inf", "x:short", "coords:none", "coords:short", "coords:str", "params:more", "params:kind", "params:none", "slx_vars"]


def run_nslx(s):
    import spreg
    n, k = s["n"], s["k"]
    g = gen.rng(s["seed"], 109)
    C, X = g.random((n, 2)), g.standard_normal((n, k))
    y = X @ g.uniform(-2, 2, (k, 1)) + g.standard_normal((n, 1))
    d = dict(y=y, x=X, coords=C, params=[(6, np.inf, "exponential")] * (1 if s["one"] else k))
    if k == 1:
        d["params"] = d["params"][:1]
    e = dict(d)
    f = NF[s["f"] % len(NF)]
    a, q = (f + ":").split(":")[:2]
    if q in ("nan", "inf"):
        e[a] = put(d[a], s, np.nan if q == "nan" else np.inf)
    elif q == "short":
        e[a] = d[a][:-1]
    elif q == "bool":
        e[a] = d[a] > 0
    elif q == "twocol":
        e[a] = np.hstack([y, y])
    elif q == "none":
        e[a] = None
    elif q == "str":
        e[a] = "here"
    elif q == "more":
        e["params"] = d["params"][:1] * (k + 2)
    elif q == "kind":
        e["params"] = [p[:2] + ("gaussian",) for p in d["params"]]
    else:
        if k < 2:
            raise Reject("one variable")
        e["slx_vars"], e["params"] = [True] * (k - 1) + [False], d["params"][:1] * (k + 1)
    return judge("NSLX", f, lambda: spreg.NSLX(options={"maxiter": 30}, **d), lambda: spreg.NSLX(options={"maxiter": 30}, **e))


class Reject2(Exception):
    pass


SUBS = [
    Sub("faults", lambda: meta.spec(list(zoo.ZOO), more={"f": st.integers(0, 1000), "seed": gen.SEED, "frame": st.booleans()}), run, quick=1000, thorough=16000),
    Sub("kernel", lambda: meta.spec([v for v in zoo.ZOO if "gwk" in zoo.ZOO[v].needs], more={"f": st.sampled_from(["gwk:neg", "gwk:big", "gwk:diag", "gwk:missing", "gwk:type"]), "seed": gen.SEED, "frame": st.booleans()}), run, quick=120, thorough=3000),
    Sub("panels", lambda: st.fixed_dictionaries(dict(panel.spec(slx=(0, 0, 1)), cls=st.sampled_from(PANELS), f=st.integers(0, 1000))), run_panel, quick=250, thorough=6000),
    Sub("systems", lambda: st.fixed_dictionaries(dict(surs.spec(endog=True, m=(2, 3), kmax=2), cls=st.sampled_from(SYS), f=st.integers(0, 1000))), run_sys, quick=200, thorough=5000),
    Sub("nslx", lambda: st.fixed_dictionaries({"n": st.integers(30, 50), "k": st.integers(1, 3), "seed": gen.SEED, "one": st.booleans(), "frame": st.booleans(), "f": st.integers(0, 1000)}), run_nslx, quick=60, thorough=1500),
]

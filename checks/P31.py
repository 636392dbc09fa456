"""Estimation neither modifies its inputs nor depends on earlier calls."""
import copy
import numpy as np
from hypothesis import strategies as st
from checks.P32 import box, box_reg, box_w, YF, XF, ZF, RF, WF
from vlib import gen, meta, zoo, ref, panel, surs, snap, reg
from vlib.core import Sub, sut, Reject, Violation, series_ok

TITLE = "Purity and history independence"
RULE = ("deep snapshots of all arguments (arrays, frames, name lists, dictionaries, weights) around every call; histories of 2-6 calls of different estimators, transformations of the weights and changes of "
        "the data in place, on shared objects, against the same call on fresh copies; sequences of diagnostics on one fitted model; non-trivial = history with a repeated or transformed object")
ASSUMPTIONS = ["the caches a weights object fills for itself (libpysal) are not part of its visible state", "equal calls are compared to 1e-9 (relative)"]


def eqfacts(what, f1, f0):
    tol = {k: 1e-9 * meta.natural(f0, k) + 1e-13 for k in f0}
    meta.compare(what, f1, f0, tol)


def fixnan(f):
    return f


def call(e, c, kw):
    with series_ok(c.W):
        return e.call(c, **kw)


def inputs(c, e, kw):
    d = {k: c[k] for k in e.needs if c.get(k) is not None}
    d.update({k: v for k, v in c["names"].items()})
    d.update(kw)
    return d


def run_inputs(s):
    e, c, kw = meta.case(s)
    nm = c["names"]
    c2 = c.copy()
    c2["names"] = dict(nm)
    for key, name, form in (("y", "name_y", s["yf"]), ("x", "name_x", s["xf"]), ("yend", "name_yend", s["zf"]), ("q", "name_q", s["qf"])):
        if key in ("yend", "q") and not e.endog:
            continue
        names = nm[name] if isinstance(nm[name], list) else [nm[name]]
        a, nn = c[key], list(names)
        if key == "x" and s["const"]:       # a constant column is dropped from the model, not from the caller's data
            a, nn = np.hstack([a, np.full((c.n, 1), 2.0)]), nn + ["konst"]
            c2["names"]["name_x"] = nn
            kw.pop("slx_lags", None)
        c2[key], has = box(a, form, nn, s["seed"])
        if has and not s["both"]:
            del c2["names"][name]
    if e.reg:
        c2["regimes"], has = box_reg(c.regimes, s["rf"], s["seed"])
        if e.name in ("OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "GM_Error_Regimes") and s["cols"] and not s["const"]:
            kw["cols2regi"] = [True] + [bool((s["cols"] >> j) & 1) for j in range(c.k - 1)] + ([True] * (c.yend.shape[1]) if e.endog else [])
            kw.pop("slx_lags", None)
        elif e.slx and e.slxvars and e.spatial and s["slx"] == 1 and not e.reg:
            kw["slx_vars"] = [True] + [False] * (c.k - 1)
    elif kw.get("slx_lags") and s["cols"]:
        kw["slx_vars"] = [True] + [False] * (c.k - 1)
    if e.spatial and s["wf"] != "W":
        c2["w"] = box_w(gen.to_w(c.W, list(c.w.id_order)), c.W, s["wf"])
    wa = snap.Watch(**inputs(c2, e, kw))
    with sut(s["e"]):
        m = call(e, c2, kw)
        wa.check(s["e"])
        f0 = meta.facts(m)
        str(m.summary)
        f1 = meta.facts(call(e, c2, kw))
    wa.check(s["e"] + " called twice")
    eqfacts("%s repeated on the same objects" % s["e"], f1, f0)
    return {"nontrivial": True, "labels": [s["e"]]}


# ------------------------------------------------------------------ histories on shared objects
POOL = [k for k, e in zoo.ZOO.items() if e.kind != "probit"]


def strat_hist():
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("fit"), "e": st.sampled_from(POOL), "slx": st.sampled_from([0, 0, 1])}),
        st.fixed_dictionaries({"op": st.just("fit"), "e": st.sampled_from(POOL), "slx": st.sampled_from([0, 0, 1])}),
        st.fixed_dictionaries({"op": st.just("again")}),
        st.fixed_dictionaries({"op": st.just("transform"), "t": st.sampled_from(["r", "s", "r"])}),
        st.fixed_dictionaries({"op": st.just("data"), "which": st.sampled_from(["y", "x"]), "i": st.integers(0, 1000)}),
        st.fixed_dictionaries({"op": st.just("regimes")}),
    )
    return st.fixed_dictionaries({"n": st.integers(60, 80), "w": gen.w_spec(n=20), "d": gen.data_spec(k=st.integers(2, 3)), "m": st.integers(1, 2), "extra": st.integers(0, 1), "R": st.just(2), "same": st.booleans(),
                                  "hist": st.lists(op, min_size=2, max_size=6)})


def fresh(c):
    """deep copies of the data, weights rebuilt from their links"""
    d = c.copy()
    for k in ("y", "x", "yend", "q"):
        d[k] = c[k].copy()
    d["regimes"] = list(c.regimes)
    w = c.w
    d["w"] = meta.relabel_w(w)
    d["names"] = copy.deepcopy(c["names"])
    return d


def run_hist(s):
    c = zoo.make(s, regimes=True, endog=True, R=2)
    n = c.n
    D0 = c.w.transformations["O"]
    rs = max(sum(v) for v in D0.values())
    from libpysal.weights import W
    # weights whose untransformed rows sum to at most one, so that either transformation is admissible
    raw = {i: [v / rs for v in D0[i]] for i in D0}
    c["w"] = W({i: list(c.w.neighbors[i]) for i in D0}, raw, id_order=list(c.w.id_order), silence_warnings=True)
    c["w"].transform = "r"
    c["gwk"] = zoo.kernel(n, s["d"]["seed"])
    c["names"] = {"name_y": "yy", "name_x": ["x%d" % j for j in range(c.k)], "name_yend": ["e%d" % j for j in range(c.yend.shape[1])], "name_q": ["q%d" % j for j in range(c.q.shape[1])], "name_regimes": "reg"}
    c["W"] = c.w.full()[0]
    lab = np.array(c.regimes, dtype=object)
    for r in set(c.regimes):
        H = ref.cat(ref.const(c.x), c.q, ref.lagpow(c.W, c.x, 2), c.W @ c.q)
        if ref.cond(H[lab == r]) > 300 or (lab == r).sum() < H.shape[1] + 5:
            raise Reject("ill conditioned")
    last, used, done = None, set(), []
    for i, o in enumerate(s["hist"]):
        if o["op"] == "transform":
            c["w"].transform = "r" if o["t"] == "r" else "o"
            c["W"] = c.w.full()[0]
            done.append("t" + o["t"])
            continue
        if o["op"] == "data":       # the caller changes a value of an array between calls
            a = c[o["which"]]
            a[o["i"] % n, 0] += a.std()
            done.append("data")
            continue
        if o["op"] == "regimes":
            c.regimes.reverse() if False else None
            a, b = 0, next(j for j in range(n) if c.regimes[j] != c.regimes[0])
            c.regimes[a], c.regimes[b] = c.regimes[b], c.regimes[a]
            done.append("reg")
            continue
        if o["op"] == "again":
            if last is None:
                continue
            name, slx = last
        else:
            name, slx = o["e"], o["slx"]
        last = (name, slx)
        e = zoo.ZOO[name]
        kw = {"slx_lags": 1} if slx and e.slx and e.spatial else {}
        f = fresh(c)
        sep = "sep" in name
        if sep and any(x == "reg" for x in done):
            continue        # swapped labels may leave islands within a regime
        try:
            with series_ok(c.W):
                ref_m = e.call(f, **kw)
            err = None
        except Reject:
            raise
        except Exception as x:
            err = x
        wa = snap.Watch(**inputs(c, e, kw))
        if err is not None:
            try:
                call(e, c, kw)
            except Exception as x2:
                if type(x2) is type(err) or isinstance(x2, Reject):
                    wa.check(name)
                    continue
                raise Violation("%s after %s raised %r, on fresh copies %r" % (name, done, x2, err))
            raise Violation("%s after %s gave a result, on fresh copies it raises %r" % (name, done, err))
        with sut("%s after %s" % (name, done)):
            m = call(e, c, kw)
        wa.check("%s after %s" % (name, done))
        eqfacts("%s after %s, against fresh copies" % (name, done), meta.facts(m), meta.facts(ref_m))
        used.add(name)
        done.append(name)
    return {"nontrivial": len(done) > 1, "labels": ["fits%d" % len([d for d in done if d in zoo.ZOO]), "distinct%d" % len(used)] + [d for d in done if d in ("tr", "ts", "data", "reg")]}


# ------------------------------------------------------------------ diagnostics of a fitted model
def run_diag(s):
    import spreg
    c = zoo.make(s, endog=True)
    kind = s["model"]
    with sut(kind):
        if kind == "OLS":
            m = spreg.OLS(c.y, c.x, nonspat_diag=s["nd"])
        else:
            m = spreg.TSLS(c.y, c.x, c.yend, c.q)
    if ref.cond(ref.cat(ref.const(c.x), c.q)) > 300:
        raise Reject("ill conditioned")
    w = c.w
    if kind == "OLS":
        F = {"f_stat": lambda: spreg.f_stat(m), "t_stat": lambda: spreg.t_stat(m), "r2": lambda: spreg.r2(m), "ar2": lambda: spreg.ar2(m), "se_betas": lambda: spreg.se_betas(m), "ll": lambda: spreg.log_likelihood(m),
             "aic": lambda: spreg.akaike(m), "sc": lambda: spreg.schwarz(m), "ci": lambda: spreg.condition_index(m), "jb": lambda: spreg.jarque_bera(m), "bp": lambda: spreg.breusch_pagan(m),
             "bpz": lambda: spreg.breusch_pagan(m, z=c.q), "kb": lambda: spreg.koenker_bassett(m), "kbz": lambda: spreg.koenker_bassett(m, z=c.q), "white": lambda: spreg.white(m), "vif": lambda: spreg.vif(m),
             "moran": lambda: (lambda t: [t.I, t.eI, t.vI, t.zI, t.p_norm])(spreg.MoranRes(m, w, z=True)), "lm": lambda: (lambda t: [t.lme, t.lml, t.rlme, t.rlml, t.sarma])(spreg.LMtests(m, w)),
             "lmx": lambda: (lambda t: [t.lmwx, t.lmspdurbin, t.rlmdurlag, t.rlmwx])(spreg.LMtests(m, w, tests=["lmwx", "lmspdurbin", "rlmdurlag", "rlmwx"])), "lme": lambda: spreg.LMtests(m, w, tests=["lme"]).lme}
    else:
        F = {"ak": lambda: (lambda t: [t.mi, t.ak, t.p])(spreg.AKtest(m, w)), "dwh": lambda: spreg.dwh(m), "t_stat": lambda: spreg.t_stat(m, z_stat=True), "pr2": lambda: spreg.pr2_aspatial(m), "se": lambda: spreg.se_betas(m)}
    obj = {k: v for k, v in vars(m).items() if isinstance(v, (np.ndarray, list, dict, str, int, float)) and k not in ("_cache",)}
    wa = snap.Watch(w=w, x=c.x, y=c.y, q=c.q, yend=c.yend, **{"m_" + k: v for k, v in obj.items()})
    first, names = {}, sorted(F)
    for o in s["ops"]:
        k = names[o % len(names)]
        with sut(k):
            v = {"/".join(map(str, p)): x for p, x in meta.flat({k: F[k]()})}
        wa.check(k)
        if k in first:
            for p in v:
                a, b = v[p], first[k][p]
                if not (abs(a - b) <= 1e-12 * (1 + abs(b)) or a != a and b != b):
                    raise Violation("%s changes from %r to %r when other diagnostics are computed in between" % (p, b, a))
        first.setdefault(k, v)
    return {"nontrivial": len(first) < len(s["ops"]), "labels": [kind]}


# ------------------------------------------------------------------ systems, panels, NSLX
def run_sys(s):
    import spreg
    cls = s["cls"]
    endog, lag, err = cls == "ThreeSLS" or (cls == "SURlagIV" and s["m"] % 2 == 0), cls == "SURlagIV", cls.startswith("SURerror")
    c = surs.build(s, endog=endog, lag=lag, err=err)
    for r in range(c.m):
        H = c.X[r] if not endog else np.hstack([c.X[r], c.Q[r]])
        if lag:
            H = np.hstack([H, c.W @ H[:, 1:]])
        if ref.cond(H) > 200:
            raise Reject("ill conditioned")
    pos, kw, names = surs.inputs(s, c, (0, 0), endog=endog)
    kw = dict(kw)
    if cls != "ThreeSLS":
        kw["w"] = c.w
    kw["nonspat_diag"] = True
    if cls == "SUR":
        kw["spat_diag"] = True
    if s["reg"] and cls in ("SUR", "ThreeSLS", "SURerrorML", "SURlagIV") and c.n >= 30:
        kw["regimes"] = reg.box(s, c.lab)
        for mk in reg.masks(c.lab).values():
            for r in range(c.m):
                H = c.X[r] if not endog else np.hstack([c.X[r], c.Q[r]])
                if lag:
                    H = np.hstack([H, c.W @ H[:, 1:]])
                if mk.sum() < H.shape[1] + 2 or ref.cond(H[mk]) > 200:
                    raise Reject("ill conditioned within a regime")
    wa = snap.Watch(**{"arg%d" % i: a for i, a in enumerate(pos)}, **kw)
    with series_ok(c.W), sut(cls):
        try:
            m = getattr(spreg, cls)(*pos, **kw)
        except Exception as x:
            wa.check(cls + " (raising)")
            if "singular cross product matrix, check instruments" in str(x):
                raise Reject("too many instruments")
            raise
        wa.check(cls)
        m2 = getattr(spreg, cls)(*pos, **kw)
    wa.check(cls + " called twice")
    b = "b3SLS" if hasattr(m, "b3SLS") else "bSUR"
    for r in range(c.m):
        if not np.allclose(getattr(m, b)[r], getattr(m2, b)[r], rtol=1e-9, atol=1e-12):
            raise Violation("%s repeated on the same objects gives other coefficients" % cls)
    if not np.allclose(m.varb, m2.varb, rtol=1e-9, atol=1e-14):
        raise Violation("%s repeated on the same objects gives another covariance matrix" % cls)
    if m.summary != m2.summary:
        raise Violation("%s repeated on the same objects gives another summary" % cls)
    return {"nontrivial": True, "labels": [cls, s["form"], "reg%d" % ("regimes" in kw)]}


PAN = ["Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "GM_KKP", "ML_LagFE", "ML_ErrorFE", "ML_LagRE", "ML_ErrorPooled", "GM_ErrorRE", "GM_ErrorPooled", "PooledOLS", "PanelFE", "PanelRE"]


def run_panel(s):
    import spreg
    cls = s["cls"]
    s["vm"] = False
    if cls in ("Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "GM_KKP"):
        s["slx"] = 0
    c = panel.build(s, "lag" if "Lag" in cls else "error")
    y, X, kw, names, yn = panel.args(s, c)
    if cls == "GM_KKP" and s["lay"].startswith("wide"):
        raise Reject("layout names of GM_KKP")
    if s["regs"] and cls == "GM_KKP":
        kw["regimes"] = [["a", "b"][i % 2] for i in range(c.N)]
    wa = snap.Watch(y=y, x=X, w=c.w, **kw)
    with series_ok(c.W), sut(cls):
        m = getattr(spreg, cls)(y, X, c.w, **kw)
        wa.check(cls)
        m2 = getattr(spreg, cls)(y, X, c.w, **kw)
    wa.check(cls + " called twice")
    if not (np.allclose(m.betas, m2.betas, rtol=1e-9, atol=1e-12) and np.allclose(m.vm, m2.vm, rtol=1e-9, atol=1e-14, equal_nan=True)) or m.summary != m2.summary:
        raise Violation("%s repeated on the same objects gives another result" % cls)
    return {"nontrivial": True, "labels": [cls, s["lay"]]}


def run_nslx(s):
    import spreg
    import pandas as pd
    g = gen.rng(s["seed"], 96)
    n, k = s["n"], 2
    C = g.uniform(0, 1, (n, 2))
    X = g.standard_normal((n, k))
    y = 1 + X.sum(1, keepdims=True) + g.standard_normal((n, 1))
    co = pd.DataFrame(C, columns=["a", "b"], index=list(g.permutation(n))) if s["frame"] else C
    par = [(6, np.inf, "exponential")] * (k if s["many"] else 1)
    nx = ["u", "v"]
    sv = [True, False] if s["sel"] else "All"
    kw = dict(params=list(par), slx_vars=sv, name_x=nx)
    if s["sel"] and s["many"]:
        kw["params"] = [par[0]]
    wa = snap.Watch(y=y, x=X, coords=co, **kw)
    try:
        m = spreg.NSLX(y, X, co, **kw)
    except Exception as e:          # a flat likelihood is reported as such (P25 judges when)
        if "Singular variance" not in str(e):
            raise
        kw["var_flag"] = 0
    with sut("NSLX"):
        m = spreg.NSLX(y, X, co, **kw)
        wa.check("NSLX")
        m2 = spreg.NSLX(y, X, co, **kw)
    wa.check("NSLX called twice")
    if not np.allclose(m.betas, m2.betas, rtol=1e-9, atol=1e-12, equal_nan=True) or m.summary != m2.summary:
        raise Violation("NSLX repeated on the same objects gives another result")
    return {"nontrivial": True}


MORE = {"yf": st.sampled_from(YF), "xf": st.sampled_from(XF), "zf": st.sampled_from(ZF), "qf": st.sampled_from(ZF), "rf": st.sampled_from(RF), "wf": st.sampled_from(WF), "both": st.booleans(), "seed": gen.SEED,
        "const": st.sampled_from([0, 0, 1]), "cols": st.integers(0, 3)}
SUBS = [
    Sub("inputs", lambda: meta.spec(list(zoo.ZOO), more=MORE), run_inputs, quick=300, thorough=8000),
    Sub("history", strat_hist, run_hist, quick=160, thorough=5000),
    Sub("diagnostics", lambda: meta.spec(["OLS"], more={"ops": st.lists(st.integers(0, 50), min_size=3, max_size=14), "model": st.sampled_from(["OLS", "OLS", "TSLS"]), "nd": st.booleans()}), run_diag, quick=100, thorough=2000),
    Sub("systems", lambda: st.fixed_dictionaries(dict(surs.spec(endog=True, regimes=True), cls=st.sampled_from(["SUR", "SUR", "SURerrorML", "SURerrorGM", "SURlagIV", "SURlagIV", "ThreeSLS", "ThreeSLS"]), reg=st.booleans())), run_sys,
        quick=80, thorough=2000),
    Sub("panels", lambda: st.fixed_dictionaries(dict(panel.spec(T=(2, 3)), cls=st.sampled_from(PAN), regs=st.booleans())), run_panel, quick=80, thorough=2000),
    Sub("nslx", lambda: st.fixed_dictionaries({"n": st.integers(30, 50), "seed": gen.SEED, "frame": st.booleans(), "many": st.booleans(), "sel": st.booleans()}), run_nslx, quick=20, thorough=300),
]

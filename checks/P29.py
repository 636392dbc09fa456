"""Spatial multipliers and impacts against the reduced-form derivatives."""
import re
import numpy as np
import pandas as pd
import scipy.sparse as sp
from hypothesis import strategies as st
from libpysal.graph import Graph
from vlib import gen, ref, reg as vreg, panel
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "Spatial multipliers and impacts"
RULE = ("(a) spmultiplier for three methods and i_multipliers for five models x W, Graph, array and sparse weights x ids, against the dense inverse; (b) GM_Lag, ML_Lag, their regimes versions (common and separate lags) and the panel lag models x "
        "SLX orders and selections x methods: multipliers and every printed impact recomputed from the reported coefficients; non-trivial = non-zero spatial parameter")
ASSUMPTIONS = ["totals judged for row-standardised weights (1/(1-rho) is the average total multiplier only then)", "all SLX effects count as indirect (documented in the source)",
               "power series judged to 3e-8/(1-|rho|), its tolerance, for weights with row sums of at most one"]


# ------------------------------------------------------------------------ the functions
def strat_fn():
    return st.fixed_dictionaries({"n": st.integers(4, 50), "w": gen.w_spec(n=20, transforms=("r", "r", "r", "s", "b", "o", "v")), "rho": st.sampled_from([0.0, 0.2, 0.5, -0.5, 0.8, -0.9, 0.95, 1e-4, 0.99995, -0.99995]),
                                  "im": st.sampled_from(["lag", "lag", "slx", "kernel", "power", "exponential"]), "form": st.sampled_from(["W", "nd", "graph"]), "id": st.sampled_from([None, "array", "frame", "series", "frame-index", "series-index"]),
                                  "coef": st.sampled_from([0.5, 1.0, 2.0, 0.1]), "seed": gen.SEED, "np": st.booleans()})


def run_fn(s):
    import spreg
    from spreg import sputils as S
    n = s["n"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    rad = max(1.0, ref.specrad(W))
    rho = s["rho"] / rad
    r = np.array([rho]) if s["np"] else rho       # estimators pass one-element arrays
    inv = np.linalg.inv(np.eye(n) - rho * W)
    adi = np.trace(inv) / n
    ati = 1 / (1 - rho)
    rowstd = s["w"]["t"] == "r"
    series = np.abs(W).sum(1).max() <= 1 + 1e-9
    res = {}
    for meth, want in (("simple", 1.0), ("full", adi), ("power", adi)):
        if meth == "power" and not series:
            continue
        with sut("spmultiplier " + meth):
            m = S.spmultiplier(w, r, method=meth)
        tol = 3e-8 / (1 - abs(s["rho"])) if meth == "power" and abs(s["rho"]) < 0.99 else 1e-9
        eq("spmultiplier %s: direct" % meth, m["adi"], want, rtol=0, atol=tol * max(1, adi))
        eq("spmultiplier %s: total" % meth, m["ati"], ati, rtol=1e-12)
        eq("spmultiplier %s: direct plus indirect" % meth, m["adi"] + m["aii"], m["ati"], rtol=1e-11, atol=1e-12 * max(1, adi))
        same("spmultiplier method", (m["method"], m["warn"]), (meth, ""))
        ok((m["pow"] > 0) == (meth == "power") or abs(rho) > 0.99, "spmultiplier %s: number of powers %s" % (meth, m["pow"]))
        res[meth] = m
    if rowstd:
        eq("total multiplier is the average row sum of the inverse", ati, inv.sum() / n, rtol=1e-9)
    with sut("spmultiplier unknown"):
        m = S.spmultiplier(w, r, method="exact")
    ok(m["warn"] and m["method"] == "simple" and float(np.squeeze(m["adi"])) == 1.0, "spmultiplier with an unknown method gives %r" % (m,))
    if series:
        with sut("spmultiplier with a tighter tolerance"):
            m = S.spmultiplier(w, r, method="power", mtol=1e-12)
        eq("spmultiplier power, tighter tolerance", m["adi"], adi, rtol=0, atol=1e-10 * max(1, adi))
        ok(m["pow"] >= res["power"]["pow"], "spmultiplier: a tighter tolerance used fewer powers")
    # ------------------------------------------------------------- per observation
    g = gen.rng(s["seed"], 801)
    im, kw = s["im"], {}
    labs = ["L%03d" % i for i in g.permutation(n)]
    idn, ids = "ID", list(range(n))
    if s["id"]:
        ids = labs
        if s["id"] == "array":
            kw["id"] = np.array(labs)
        else:
            idn = "tract"
            idx = [int(i) + 50 for i in g.permutation(n)] if "index" in s["id"] else None
            kw["id"] = pd.DataFrame({"tract": labs}, index=idx) if s["id"].startswith("frame") else pd.Series(labs, name="tract", index=idx)
    if im in ("power", "exponential"):
        fd = np.where(W != 0, g.random((n, n)) * 0.9 + 0.05, 0.0)
        obj, arg = sp.csr_matrix(fd), s["coef"]
        M = np.where(fd != 0, fd ** arg if im == "power" else np.exp(-fd * arg), 0.0)
        d = np.zeros(n)
    else:
        M = W.copy()
        if im == "kernel":
            M = M + np.diag(0.5 + g.random(n))
            obj = M.copy()
            arg = s["coef"]
        else:
            obj = {"W": lambda: w, "nd": lambda: W.copy(), "graph": lambda: Graph.from_W(w)}[s["form"]]()
            if s["form"] == "graph" and not np.allclose(obj.sparse.toarray(), W):
                raise Reject("graph with another order")
            arg = rho if im == "lag" else s["coef"]
        if im == "lag":
            M = inv
        d = np.diag(M).copy() if im in ("lag", "kernel") else np.zeros(n)
        M = M - np.diag(np.diag(M)) if im != "slx" else M
    snap = (obj.copy() if isinstance(obj, np.ndarray) or sp.issparse(obj) else None)
    with sut("i_multipliers %s" % im):
        o = spreg.i_multipliers(obj, arg, model=im, **kw) if (im != "lag" or s["np"]) else spreg.i_multipliers(obj, coef=arg, **kw)
    if snap is not None:
        eq("i_multipliers left its weights unchanged", arr(obj), arr(snap), rtol=0)
    same("i_multipliers columns", list(o.columns), [idn, "Direct", "EofNbrs", "EonNbrs"])
    same("i_multipliers rows", len(o), n)
    same("i_multipliers ids", list(o[idn]), ids)
    eq("i_multipliers direct", o["Direct"].to_numpy(), d, rtol=1e-10, atol=1e-12)
    eq("i_multipliers effects of neighbors", o["EofNbrs"].to_numpy(), M.sum(1), rtol=1e-10, atol=1e-12)
    eq("i_multipliers effects on neighbors", o["EonNbrs"].to_numpy(), M.sum(0), rtol=1e-10, atol=1e-12)
    if im == "lag":
        eq("i_multipliers: average direct", o["Direct"].mean(), res["full"]["adi"], rtol=1e-9)
    try:
        with sut("i_multipliers with an unknown model", expect=(Exception,)):
            spreg.i_multipliers(obj, arg, model="sem")
        ok(False, "i_multipliers accepted an unknown model")
    except Violation:
        raise
    except Exception:
        pass
    return {"labels": [im, s["w"]["t"], s["form"], str(s["id"])], "nontrivial": bool(rho)}


# ------------------------------------------------------------------------ the models
MODELS = ["GM_Lag", "GM_Lag", "ML_Lag", "ML_Lag", "GM_Lag_Regimes", "GM_Lag_Regimes", "GM_Lag_Regimes_sep", "ML_Lag_Regimes", "ML_Lag_Regimes_sep", "ML_LagFE", "ML_LagRE"]
METH = ["simple", "full", "power", "all", "FULL", ["simple", "full"], ["power", "simple"], ["Full"], "nope", None]


def strat_m():
    return st.fixed_dictionaries(dict({"model": st.sampled_from(MODELS), "n": st.integers(40, 90), "w": gen.w_spec(n=20, transforms=("r",)), "d": gen.data_spec(k=st.integers(1, 4), rho=st.sampled_from([0.0, 0.3, 0.6, -0.4, 0.8])),
                                       "meth": st.sampled_from(METH), "slx": st.sampled_from([0, 0, 1, 2, 3]), "sel": st.integers(0, 15), "m": st.sampled_from([0, 0, 1, 2]), "robust": st.sampled_from([None, "white"]), "diag": st.booleans(),
                                       "named": st.booleans(), "vm": st.booleans(), "pan": st.fixed_dictionaries(panel.spec(transforms=("r",), N=(15, 30), T=(3, 4, 5), k=(1, 3)))}, **vreg.SPEC, **vreg.OPTS))


def blocks(txt):
    """impact tables of a summary -> [(title, [warnings], method, [(variable, direct, indirect, total)])]"""
    out, title = [], None
    L = txt.split("\n")
    i = 0
    while i < len(L):
        if L[i].startswith("SPATIAL") and L[i].endswith("MODEL IMPACTS"):
            title = L[i]
        m = re.match(r"Impacts computed using the '(\w+)' method\.$", L[i])
        if m:
            same("impacts header", L[i + 1].split(), ["Variable", "Direct", "Indirect", "Total"])
            rows, i = [], i + 2
            while i < len(L) and re.match(r"^ *\S.*?( +-?[\d.einfa+-]+){3}$", L[i]) and not L[i].startswith("Impacts"):
                t = L[i].split()
                rows.append((" ".join(t[:-3]), float(t[-3]), float(t[-2]), float(t[-1])))
                i += 1
            out.append((title, m.group(1), rows))
            continue
        i += 1
    return out


def expect_rows(out, xnames, regs, rho, adi):
    """rows from the table of results: names -> (direct, total)"""
    co = dict(zip(out["var_names"], out["coefficients"].astype(float)))
    rows = []
    for r in regs:
        for v in xnames:
            nm = v if r is None else "%s_%s" % (r, v)
            if nm not in co:
                continue
            tot = co[nm]
            miss = False
            for p in range(1, 5):
                wv = "W%s_%s" % ("" if p == 1 else p, v)
                if r is None:
                    tot += co.get(wv, 0.0)
                else:
                    own, glob = "%s_%s" % (r, wv), "_Global_" + wv
                    if own in co:
                        tot += co[own]
                    elif glob in co:
                        tot += co[glob]
                    elif any(k.endswith("_" + wv) for k in co):
                        miss = True
            rows.append((nm, adi * co[nm], np.nan if miss else tot / (1 - rho)))
    return rows


def compare(what, blk, meths, want_by_meth, title):
    same(what + ": methods reported", [b[1] for b in blk], meths)
    for t, mth, rows in blk:
        same(what + ": title", t, title)
        want = want_by_meth[mth]
        same(what + ": variables", [r[0] for r in rows], [w[0] for w in want])
        for (nm, di, ind, to), (_, wd, wt) in zip(rows, want):
            for q, a, b in (("direct", di, wd), ("total", to, wt), ("indirect", ind, wt - wd)):
                eq("%s: %s impact of %s (%s)" % (what, q, nm, mth), a, b, rtol=1e-6, atol=6e-5)


def run_m(s):
    import spreg
    name = s["model"]
    regm, sep = "Regimes" in name, name.endswith("_sep")
    cls = name.replace("_sep", "")
    kw, labels = {}, [name]
    pan = "LagFE" in name or "LagRE" in name
    imp = s["meth"]
    if pan:
        c = panel.build(dict(s["pan"], slx=min(s["slx"], 2)), "lag")
        p = dict(s["pan"], slx=min(s["slx"], 2))
        W, slx = c.W, p["slx"]
        if ref.cond(np.hstack([panel.demean(c.XL, c.N), c.WT @ panel.demean(c.y, c.N)])) > 100:
            raise Reject("ill-conditioned")
        if p["lay"] in ("wide",):
            p["lay"] = "long"
        with sut(cls):
            m, names, yn = panel.call(p, c, cls, spat_impacts=imp)
        xn = names[:c.k]
        # the summary and the multipliers must agree with the reported coefficients
        groups = [(m, W, [None], xn)]
    else:
        n, k = s["n"], int(s["d"]["k"])
        lab = vreg.labels(s, n) if regm else None
        if regm:
            w, W, D, t = vreg.weights(s, n, lab)
        else:
            s["w"]["n"] = n
            w, W = gen.build_w(s["w"])
        X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
        slx = s["slx"] if not (regm and s["slx"] > 2) else 2
        me = s["m"] if cls.startswith("GM") else 0
        Ye = Q = None
        if me:
            Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, me, me + 1)
        y = gen.gen_y(s["d"], X, W, Z=Ye)
        if regm:
            y = vreg.shift(s, y, X, lab)
        nx = ["x%d" % j for j in range(k)]
        sel, sn = None, nx
        if slx:
            msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
            if any(msk) and not all(msk):
                sel, sn = msk, [v for v, q in zip(nx, msk) if q]
            kw.update(slx_lags=slx, **({} if sel is None else {"slx_vars": sel}))
        XL = ref.const(X)
        cur = X if sel is None else X[:, np.array(sel)]
        for _ in range(slx):
            cur = W @ cur
            XL = np.hstack([XL, cur])
        if ref.cond(np.hstack([XL, W @ y])) > 200:
            raise Reject("ill-conditioned")
        if regm:
            for r, mk in vreg.masks(lab).items():
                if mk.sum() < XL.shape[1] + me + 6 or ref.cond(np.hstack([XL, W @ y])[mk]) > 200:
                    raise Reject("small regime")
            kw["regimes"] = vreg.box(s, lab)
            if sep:
                kw.update(regime_lag_sep=True)
                if cls.startswith("GM"):
                    kw.update(regime_err_sep=True)
            else:
                kw["constant_regi"] = s["const"]
                cm = vreg.colmask(s, XL.shape[1] - 1 + (me if cls.startswith("GM") else 0))
                if cm is not None and any(cm):
                    kw["cols2regi"] = cm
        if cls.startswith("GM"):
            kw["robust"] = s["robust"]
            if me:
                kw.update(yend=Ye, q=Q)
        if s["named"]:
            kw.update(name_y="yy", name_x=list(nx))
            if me:
                kw.update(name_yend=["e%d" % j for j in range(me)])
            xn = nx
        else:
            xn = ["var_%d" % (j + 1) for j in range(k)]
        if regm and s["named"]:
            kw["name_regimes"] = "zone"
        with sut(name):
            m = getattr(spreg, cls)(y, X, w=w, spat_impacts=imp, spat_diag=s["diag"], vm=s["vm"], **kw)
        if sep:
            tx = vreg.textset(lab)
            groups = []
            for r, key in zip(tx, m.multi):
                Dr = vreg.within(D, lab)[np.ix_(vreg.masks(lab)[vreg.order(lab)[tx.index(r)]], vreg.masks(lab)[vreg.order(lab)[tx.index(r)]])]
                groups.append((m.multi[key], Dr / Dr.sum(1, keepdims=True), [r], xn))
        elif regm:
            groups = [(m, W, vreg.textset(lab) + ["_Global"], xn)]
        else:
            groups = [(m, W, [None], xn)]
    # ------------------------------------------------------------- what is expected
    meths = [] if imp is None else [imp] if isinstance(imp, str) else list(imp)
    meths = [q.lower() for q in meths]
    if "all" in meths:
        meths = ["simple", "full", "power"]
    meths = ["simple" if q == "nope" else q for q in meths]
    blk = blocks(m.summary)
    title = "SPATIAL DURBIN MODEL IMPACTS" if slx else "SPATIAL LAG MODEL IMPACTS"
    pos, rhos = 0, []
    for g, Wg, regs, xn in groups:
        rho = float(np.squeeze(g.rho))
        rhos.append(rho)
        if imp is None:
            ok(not hasattr(g, "sp_multipliers"), "multipliers without being asked for")
            continue
        if abs(rho) >= 1:
            same("multipliers outside the boundary", g.sp_multipliers, None)
            ok("Omitted since spatial autoregressive parameter" in m.summary, "impacts with rho=%.3f are not flagged as omitted" % rho)
            continue
        N = Wg.shape[0]
        adi = np.trace(np.linalg.inv(np.eye(N) - rho * Wg)) / N
        want = {}
        same("multiplier methods", sorted(g.sp_multipliers), sorted(set(meths)))
        for q in set(meths):
            a = 1.0 if q == "simple" else adi
            eq("multipliers (%s)" % q, g.sp_multipliers[q], [a, 1 / (1 - rho) - a, 1 / (1 - rho)], rtol=0, atol=3e-8 / (1 - abs(rho)) ** 2)
            want[q] = expect_rows(m.output, xn, regs, rho, a)
        compare(name, blk[pos:pos + len(meths)], meths, want, title)
        pos += len(meths)
    same("number of impact tables", len(blk), pos)
    if imp == "nope" and any(abs(r) < 1 for r in rhos):
        ok("Method 'nope' not supported for spatial impacts." in m.summary, "no warning about the unknown impacts method")
    return {"labels": labels + ["slx%d" % slx, str(imp)], "nontrivial": bool(imp) and any(abs(r) < 1 for r in rhos)}


# ------------------------------------------------------------------------ a lag per regime next to global coefficients
def run_part(s):
    import spreg
    n, k = s["n"], 2
    s["d"]["k"] = k
    lab = vreg.labels(s, n)
    w, W, D, t = vreg.weights(s, n, lab)
    X = gen.x_matrix(n, k, "normal", s["d"]["seed"])
    y = vreg.shift(s, gen.gen_y(s["d"], X, W), X, lab)
    for r, mk in vreg.masks(lab).items():
        if mk.sum() < 12 or ref.cond(np.hstack([ref.const(X), W @ y])[mk]) > 200:
            raise Reject("small regime")
    with sut("GM_Lag_Regimes"):
        m = spreg.GM_Lag_Regimes(y, X, vreg.box(s, lab), w=w, regime_lag_sep=True, regime_err_sep=True, cols2regi=[True, False], name_x=["x0", "x1"], name_y="yy", spat_impacts="full", robust=None)
    co = dict(zip(m.output["var_names"], m.output["coefficients"].astype(float)))
    tx = vreg.textset(lab)
    rho = {r: co["%s_W_yy" % r] for r in tx}
    if any(abs(v) >= 1 for v in rho.values()):
        raise Reject("outside the boundary")
    blk = blocks(m.summary)
    same("number of impact tables", len(blk), 1)
    known = []
    for nm, di, ind, to in blk[0][2]:
        r = nm.rsplit("_", 1)[0]
        if r in rho and abs(to - co[nm] / (1 - rho[r])) > 6e-5 + 1e-6 * abs(to):
            if abs(to - co[nm] / (1 - rho[tx[-1]])) < 6e-5 + 1e-6 * abs(to):
                known.append(("lagsep-rho", "the impacts of %s use the spatial parameter of regime %s" % (nm, tx[-1])))
            else:
                ok(False, "total impact of %s: %s, expected %s" % (nm, to, co[nm] / (1 - rho[r])))
    return {"labels": ["partial"], "known": known[:1]}


def strat_part():
    return st.fixed_dictionaries(dict({"n": st.integers(60, 90), "w": gen.w_spec(n=20, transforms=("r",), kinds=("rook", "queen", "knn", "ring")), "d": gen.data_spec(k=2)}, **vreg.SPEC))


SUBS = [Sub("multipliers", strat_fn, run_fn, quick=1200, thorough=20000), Sub("models", strat_m, run_m, quick=900, thorough=15000), Sub("partial-lags", strat_part, run_part, quick=40, thorough=500)]

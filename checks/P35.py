"""The results table and the printed summary report the fitted quantities."""
import inspect
import re
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats
from checks import P22
from vlib import gen, meta, zoo, ref, panel, surs, reg, summ
from vlib.core import Sub, sut, Reject, Violation, series_ok
from vlib.cmp import *

TITLE = "Results table and summary"
RULE = ("every estimator, panel model, equation system, probit and nonlinear SLX x names (short, long, with blanks, percent signs and underscores, default) x text / LaTeX x variance matrix x diagnostics options x regimes; "
        "the summary is parsed back and every number in it compared with the fitted object and with the data; non-trivial = summary with a coefficient table")
ASSUMPTIONS = ["fitted quantities themselves are judged by P01-P29"]

XN = ["inc", "a", "HOVAL", "x_1", "share_of_%", "a variable with blanks", "a_very_long_variable_name_of_the_user", "W", "Var2", "lambda_", "rho", "CONSTANT_x", "pct.%", "1", "é"]


def spec():
    return meta.spec([k for k in zoo.ZOO], more={"nx": st.permutations(list(range(len(XN)))), "named": st.sampled_from([2, 2, 1, 0]), "latex": st.sampled_from([0, 0, 1]), "vm": st.booleans(),
                                                "o1": st.booleans(), "o2": st.booleans(), "imp": st.sampled_from(["simple", "full", "all", "none", "power"]), "const": st.booleans(), "sel": st.booleans(),
                                                "rl": st.sampled_from(["int", "str", "float", "odd"]), "cons": st.sampled_from(["many", "many", "one"]), "cr": st.integers(0, 7)})


def z_(m):
    return getattr(m, "t_stat", None) if hasattr(m, "t_stat") else getattr(m, "z_stat", None)


def title(e, kw, regime):
    """words the title must contain, and must not"""
    cls, t = e.cls, []
    if cls == "GMM_Error":
        t = {"kp98": [], "hom": ["(HOM)"]}.get(e.opts.get("estimator"), ["(HET)"])
        t += ["COMBO"] if e.opts.get("add_wy") else ["LEAST SQUARES"]
    elif cls.startswith("OLS"):
        t = ["ORDINARY LEAST SQUARES"]
    elif cls.startswith("TSLS"):
        t = ["TWO STAGE LEAST SQUARES"]
    elif cls.startswith("GM_Lag"):
        t = ["SPATIAL "]
    elif cls.startswith("ML_Lag"):
        t = ["MAXIMUM LIKELIHOOD SPATIAL", "METHOD = " + kw.get("method", e.opts.get("method", "full"))]
    elif cls.startswith("ML_Error"):
        t = ["ML SPATIAL ERROR", "METHOD = " + kw.get("method", e.opts.get("method", "full"))]
    elif cls.startswith("GM_"):
        t = ["SPATIALLY WEIGHTED"] + (["COMBO"] if "Combo" in cls else [])
        if "Endog" in cls:
            t += ["2SLS|TWO STAGE"]
        if "_Hom" in cls:
            t += ["HOM"]
        if "_Het" in cls:
            t += ["HET"]
    elif cls == "Probit":
        t = ["PROBIT"]
    if e.reg:
        t += ["REGIMES"] if regime is None else ["REGIME %s" % regime]
    return t


def has(sec, label, value):
    v = summ.field(sec, label)
    if value is None:
        ok(v is None, "%s printed: %s" % (label, v))
        return
    ok(v is not None, "no %s in the summary" % label)
    if isinstance(value, str):
        same(label, v, value.strip())
    else:
        summ.printed(label, v, value)


def want_rows(o, m, names=None, old=False):
    """printed rows expected from the estimates: coefficients and variance matrix of m, names in the order of the coefficients"""
    b, vm = arr(m.betas).ravel(), arr(m.vm)
    z = z_(m)
    w = {}
    with np.errstate(all="ignore"):
        se = np.sqrt(np.diag(vm))
    for i, v in enumerate(names):
        if i < len(se) and (old or not np.isnan(se[i])):
            t = b[i] / se[i]
            p = 2 * stats.t.sf(abs(t), m.n - m.k) if hasattr(m, "t_stat") else 2 * stats.norm.sf(abs(t))
            w[v] = (b[i], se[i], t, p)
        else:
            w[v] = (b[i],)
    return w


def header(sec, m, y, k, lag):
    n = len(y)
    has(sec, "Number of Observations", n)
    has(sec, "Number of Variables", k)
    has(sec, "Degrees of Freedom", n - k)
    if not type(m).__name__.endswith("Probit"):
        has(sec, "Mean dependent var", np.mean(y))
        has(sec, "S.D. dependent var", np.std(y, ddof=1))
    if hasattr(m, "t_stat"):
        has(sec, "R-squared", m.r2)
        has(sec, "Adjusted R-squared", m.ar2)
        has(sec, "Pseudo R-squared", None)
    elif not type(m).__name__.endswith("Probit"):
        has(sec, "Pseudo R-squared", np.corrcoef(np.asarray(y, float).ravel(), arr(m.predy).ravel())[0, 1] ** 2)
        if lag:
            r = float(np.squeeze(arr(m.rho)))
            if abs(r) < 1:
                has(sec, "Spatial Pseudo R-squared", m.pr2_e)
            else:
                ok("Spatial Pseudo R-squared: omitted" in sec, "no remark about the spatial pseudo R2")
        else:
            ok("Spatial Pseudo" not in sec, "spatial pseudo R2 printed for a model without a spatial lag")


def diagnostics(sec, m, w_on=None):
    """every diagnostic the object carries is printed with its value; nothing else is"""
    d = lambda a, *k: None if getattr(m, a, None) is None else [m.__dict__[a][q] for q in k]
    summ.test(sec, "Jarque-Bera", d("jarque_bera", "df", "jb", "pvalue"))
    summ.test(sec, "Breusch-Pagan test", d("breusch_pagan", "df", "bp", "pvalue"))
    summ.test(sec, "Koenker-Bassett test", d("koenker_bassett", "df", "kb", "pvalue"))
    wh = getattr(m, "white", None)
    summ.test(sec, "White", None if not isinstance(wh, dict) else [wh["df"], wh["wh"], wh["pvalue"]])
    summ.test(sec, "MULTICOLLINEARITY CONDITION NUMBER", None if getattr(m, "mulColli", None) is None else [m.mulColli])
    p = lambda a, df: None if getattr(m, a, None) is None else [df] + [getattr(m, a)[i] for i in (0, 1)]
    summ.test(sec, "Anselin-Kelejian Test", p("ak_test", 1))
    summ.test(sec, "Durbin-Wu-Hausman test", p("dwh", m.yend.shape[1] if getattr(m, "dwh", None) is not None else 0))
    if getattr(m, "lm_lag", None) is not None:
        sdm = getattr(m, "lm_wx", None) is not None
        summ.test(sec, "Lagrange Multiplier (lag)", p("lm_lag", 1), times=2 if sdm else 1)
        summ.test(sec, "Lagrange Multiplier (error)", p("lm_error", 1))
        summ.test(sec, "Robust LM (lag)", p("rlm_lag", 1))
        summ.test(sec, "Robust LM (error)", p("rlm_error", 1))
        summ.test(sec, "Lagrange Multiplier (SARMA)", p("lm_sarma", 2))
        if sdm:
            summ.test(sec, "LM test for WX", p("lm_wx", m.k - 1))
            summ.test(sec, "Robust LM WX test", p("rlm_wx", m.k - 1))
            summ.test(sec, "Robust LM Lag - SDM", p("rlm_durlag", 1))
            summ.test(sec, "Joint test for SDM", p("lm_spdurbin", m.k))
        summ.test(sec, "Moran's I (error)", None if getattr(m, "moran_res", None) is None else list(m.moran_res))
    else:
        ok("Lagrange Multiplier" not in sec, "Lagrange multiplier tests printed but not reported")
    if getattr(m, "cfh_test", None) is not None:
        got = summ.line(sec, "Common Factor Hypothesis Test", 3)
        same("common factor lines", len(got), 1)
        summ.printed("common factor", got[0][1], m.cfh_test[0]), summ.printed("common factor p", got[0][2], m.cfh_test[1])
    else:
        ok("Common Factor" not in sec, "common factor test printed but not reported")


def fitmeasures(sec, m):
    if type(m).__name__.startswith("Probit"):
        return
    if getattr(m, "logll", None) is not None and "Log likelihood" in sec:
        has(sec, "Log likelihood", m.logll)
        has(sec, "Akaike info criterion", m.aic)
        has(sec, "Schwarz criterion", m.schwarz)
        s2 = arr(getattr(m, "sig2ML", m.sig2)) if hasattr(m, "t_stat") else arr(m.sig2)
        has(sec, "Sigma-square ML", s2)
        if hasattr(m, "t_stat"):
            has(sec, "Sum squared residual", m.utu)
            has(sec, "F-statistic", m.f_stat[0])
            has(sec, "Prob(F-statistic)", m.f_stat[1])
            has(sec, "Sigma-square", m.sig2)
            has(sec, "S.E. of regression", np.sqrt(arr(m.sig2)))
            has(sec, "S.E of regression ML", np.sqrt(s2))
        else:
            has(sec, "S.E of regression", np.sqrt(s2))


def impacts(sec, m, W, vnames, slx):
    """direct / indirect / total of every x variable"""
    mult = getattr(m, "sp_multipliers", None)
    if mult is None:
        ok("Impacts computed" not in sec, "impacts printed but not reported")
        return
    b = dict(vnames)
    for meth, (adi, aii, ati) in mult.items():
        q = re.search(re.escape("Impacts computed using the '%s' method.\n" % meth) + r".*\n((?: *.* +%s +%s +%s\n)+)" % ((summ.NUM,) * 3), sec)
        ok(q, "no impacts table of method %s" % meth)
        for ln in q.group(1).rstrip("\n").split("\n"):
            r = re.match(r"^ *(.*?)   +(%s)    +(%s)    +(%s)$" % ((summ.NUM,) * 3), ln)
            ok(r, "unreadable impacts row %r" % ln)
            ok(r.group(1) in b, "impacts of an unknown variable %r" % r.group(1))
            if not slx:
                beta = b[r.group(1)]
                for t, f in zip(r.groups()[1:], (adi, aii, ati)):
                    summ.printed("impact of %s (%s)" % (r.group(1), meth), t, beta * f)


def vmatrix(text, vm, names):
    head, body = summ.matrix(text, "COEFFICIENTS VARIANCE MATRIX")
    V = arr(vm)
    same("rows of the printed variance matrix", len(body), V.shape[0])
    for i, r in enumerate(body):
        same("columns of the printed variance matrix", len(r), V.shape[1])
        for j, t in enumerate(r):
            summ.printed("variance matrix [%d, %d]" % (i, j), t, V[i, j])
    if names is not None:
        got = re.sub(r"\s+", "", head)
        want = re.sub(r"\s+", "", "".join(names))
        ok(got == want or want.startswith(got), "names over the variance matrix: %r, expected %r" % (got, want))


def chow(sec, m):
    q = re.search(r"REGIMES DIAGNOSTICS\n.*?- CHOW TEST -\n.*?\n(.*?Global test.*?)\n", sec, re.S)
    ok(q, "no Chow tests in the summary of a regimes model")
    got = [(r.group(1), r.groups()[1:]) for r in re.finditer(r"^ *(.*?) +(\d+) +(%s) +(%s)$" % (summ.NUM, summ.NUM), q.group(1), re.M)]
    regi, joint = arr(m.chow.regi), m.chow.joint
    rows = [g for g in got if g[0] != "Global test"]
    same("Chow rows", len(rows), len(regi))
    cc = m.cols2regi
    nx = [v for v in m.name_x_r[1:]]
    if cc != "all" and set(cc) != {True}:
        nx = [v for v, f in zip(nx, cc) if f]
    names = (["CONSTANT"] if m.constant_regi == "many" else []) + nx
    for i, (n, v) in enumerate(rows):
        if i < len(names):
            same("variable of Chow test %d" % i, n, names[i].strip())
        summ.printed("Chow df of " + n, v[0], m.nr - 1), summ.printed("Chow test of " + n, v[1], regi[i, 0]), summ.printed("Chow p of " + n, v[2], regi[i, 1])
    g = [g for g in got if g[0] == "Global test"]
    same("global Chow tests", len(g), 1)
    summ.printed("global Chow", g[0][1][1], joint[0]), summ.printed("global Chow p", g[0][1][2], joint[1])
    summ.printed("number of clusters", summ.field(sec, "Number of clusters"), m.nr)
    summ.printed("overall SSR", summ.field(sec, "Overall SSR"), np.sum(arr(m.u) ** 2))


def instruments(sec, yend, q):
    for lab, v in (("Instrumented", yend), ("Instruments", q)):
        got = summ.names_list(sec, lab)
        if v is None:
            ok(got is None, "%s printed for a model without any" % lab)
        else:
            want = re.sub(r"\s+", " ", ", ".join(sorted(v))).strip()
            same(lab, got, want)


def run(s):
    import spreg
    e, c, kw = meta.case(s)
    par = inspect.signature(getattr(spreg, e.cls)).parameters
    xn = [XN[i] for i in s["nx"][:c.k]]
    zn = [XN[i] for i in s["nx"][c.k:c.k + 2]]
    qn = ["q" + XN[i] for i in s["nx"][6:9]]
    if e.reg and s["rl"] != "int":
        u = sorted(set(c.regimes))
        m_ = {"str": ["north", "south", "b"], "float": [1.5, 2.0, 3.25], "odd": ["a_b", "r_1", "x y"]}[s["rl"]]
        c["regimes"] = [m_[u.index(v)] for v in c.regimes]
    opt = {}
    if s["named"]:
        c["names"] = {"name_y": ["crime", "y", "a dependent variable name"][s["named"]], "name_x": list(xn), "name_ds": "boston", "name_w": "queen.gal"}
        if e.endog:
            c["names"].update(name_yend=zn[:c.yend.shape[1]], name_q=qn[:c.q.shape[1]])
        if e.reg:
            c["names"]["name_regimes"] = "zone"
        if "gwk" in e.needs:
            opt["name_gwk"] = "kern"
        c["names"] = {k: v for k, v in c["names"].items() if k in par}
        yn = c["names"]["name_y"]
    else:
        c["names"], yn = {}, "dep_var"
        xn = ["var_%d" % (j + 1) for j in range(c.k)]
        zn = ["endogenous_%d" % (j + 1) for j in range(2)]
        qn = ["instrument_%d" % (j + 1) for j in range(3)]
    opt["vm"] = s["vm"]
    opt["latex"] = bool(s["latex"])
    for a, v in (("white_test", s["o1"]), ("moran", s["o2"]), ("vif", s["o1"]), ("nonspat_diag", s["o2"]), ("spat_diag", s["o1"])):
        if a in par and e.spatial and not (a == "spat_diag" and e.cls == "OLS_Regimes" and False):
            opt[a] = v
    if opt.get("moran"):
        opt["spat_diag"] = True
    if "spat_impacts" in par:
        opt["spat_impacts"] = None if s["imp"] == "none" else s["imp"]
    if "predflag" in par:
        opt["predflag"] = s["o2"]
    const = s["const"] and not kw.get("slx_lags") and not e.reg
    if const:
        c["x"] = np.hstack([c.x[:, :1], np.full((c.n, 1), 7.0), c.x[:, 1:]])
        if s["named"]:
            c["names"]["name_x"] = xn[:1] + ["kappa"] + xn[1:]
        else:
            raise Reject("default names with a constant")
    if kw.get("slx_lags") == 1 and s["sel"] and "slx_vars" in par and not e.reg:
        kw["slx_vars"] = [True] + [False] * (c.k - 1)
    if e.name in ("OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "ML_Lag_Regimes") and not kw.get("slx_lags") and not opt.get("moran"):
        kw["constant_regi"] = s["cons"]
        if s["cr"] % 3 == 0:
            kw["cols2regi"] = [True] + [bool((s["cr"] >> j) & 1) for j in range(c.k - 1)] + ([bool(s["cr"] & 4)] * (c.yend.shape[1]) if e.endog else [])
    with series_ok(c.W), sut(e.name):
        try:
            m = e.call(c, **kw, **opt)
        except Exception as x:
            if "not available" in str(x):
                raise Reject(str(x)[:60])
            raise
    o = meta.ordered(m)
    names = [str(v) for v in o["var_names"]]
    if len(set(names)) != len(names):
        raise Reject("two coefficients with one name")
    lag = e.lag or e.opts.get("add_wy")
    text = m.summary
    secs = summ.sections(text)
    ok(text.rstrip().endswith("END OF REPORT ====================================="), "summary without an end")
    multi = getattr(m, "multi", None)
    multi = multi if isinstance(multi, dict) and e.reg and len(secs) > 1 else None
    same("sections", len(secs), len(set(c.regimes)) if multi else 1)
    y = np.asarray(c.y, float).ravel()
    glob = None
    if multi:
        ok(secs[-1].count("\nGLOBAL DIAGNOSTICS\n") == 1, "no global diagnostics")
        secs[-1], glob = secs[-1].split("\nGLOBAL DIAGNOSTICS\n")
        lab = np.array([str(v) for v in c.regimes])
        for r, sec in zip(sorted(multi, key=lambda v: list(m.regimes_set).index(v)), secs):
            one(e, s, kw, opt, sec, multi[r], y[lab == str(r)], r, [v for v in multi[r].name_z] if hasattr(multi[r], "name_z") else list(multi[r].name_x), lag, xn, zn, qn, yn, c, const)
        chow(glob, m)
        diagnostics(glob, m)
        same("dependent variables of the whole model", list(m.name_y), [multi[r].name_y for r in m.regimes_set])
        for a in ("name_x", "name_yend", "name_q", "name_z", "name_h"):
            if all(hasattr(multi[r], a) for r in multi) and hasattr(m, a):
                same(a + " of the whole model", list(getattr(m, a)), [v for r in m.regimes_set for v in getattr(multi[r], a)])
        # the output table of the whole model
        b = np.vstack([arr(multi[r].betas) for r in m.regimes_set]).ravel()
        same("coefficients in the output table", len(o), len(b))
        for r in m.regimes_set:
            w = want_rows(None, multi[r], [v for v in (multi[r].name_z if hasattr(multi[r], "name_z") else multi[r].name_x)])
            for v in w:
                row = o[o["var_names"] == v]
                same("rows of %s in the output table" % v, len(row), 1)
                out_row(v, row.iloc[0], w[v])
    else:
        w = want_rows(o, m, names)
        for i, v in enumerate(names):
            out_row(v, o.iloc[i], w[v])
        one(e, s, kw, opt, secs[0], m, y, None, names, lag, xn, zn, qn, yn, c, const)
        if e.reg:
            chow(text, m)
    if s["vm"]:
        vmatrix(text, m.vm, None)
    else:
        ok("VARIANCE MATRIX" not in text, "variance matrix printed unasked")
    return {"nontrivial": True, "labels": [e.name]}


def out_row(v, row, w):
    eq("output table: coefficient of " + v, row["coefficients"], w[0], rtol=1e-12)
    if len(w) > 1:
        for a, x in zip(("std_err", "zt_stat", "prob"), w[1:]):
            eq("output table: %s of %s" % (a, v), row[a], x, rtol=1e-9, atol=1e-300)
    else:
        ok(all(row[a] is None or np.isnan(float(row[a])) for a in ("std_err", "zt_stat", "prob")), "output table: inference for %s, which has none" % v)


def one(e, s, kw, opt, sec, m, y, regime, names, lag, xn, zn, qn, yn, c, const):
    t = sec.split("\n")[0].upper()
    for wd in title(e, kw, regime):
        ok(any(v.upper() in t for v in wd.split("|")), "title %r does not say %s" % (t, wd))
    for wd, cond in (("HET", "Het" in e.cls or e.cls == "GMM_Error"), ("HOM", "Hom" in e.cls or e.cls == "GMM_Error"), ("COMBO", "Combo" in e.cls or e.opts.get("add_wy"))):
        ok(cond or wd not in t.split("(METHOD")[0].split("REGIME ")[0], "title %r says %s" % (t, wd))
    slx = kw.get("slx_lags", e.opts.get("slx_lags", 0))
    ok(("SLX" in t or "DURBIN" in t) == bool(slx), "title %r with slx_lags=%r" % (t, slx))
    k = len([v for v in names if not v.endswith("lambda")])
    header(sec, m, y, k, lag)
    if "name_ds" in c.get("names", {}):
        has(sec, "Data set", "boston")
        if "name_w" in c["names"] and "w" in e.needs:
            has(sec, "Weights matrix", "queen.gal")
    has(sec, "Dependent Variable", yn if regime is None else "%s_%s" % (regime, yn))
    summ.coefs(e.name, sec, want_rows(None, m, names), latex=bool(s["latex"]), stat="t" if hasattr(m, "t_stat") else "z")
    fitmeasures(sec, m)
    diagnostics(sec, m)
    if e.reg:
        has_regimes = re.search(r"^Regimes variable: (.*)$", sec, re.M)
        ok(has_regimes, "no regimes variable in the summary")
        same("regimes variable", has_regimes.group(1), c["names"].get("name_regimes", "unknown") if c.get("names") else has_regimes.group(1))
    rob = e.opts.get("robust")
    if rob in ("white", "hac"):
        ok({"white": "White Standard Errors\n", "hac": "HAC Standard Errors; Kernel Weights: " + opt.get("name_gwk", "")}[rob] in sec, "standard errors not labelled as %s" % rob)
    elif not e.reg:
        ok("White Standard" not in sec and "HAC Standard" not in sec, "robust standard errors announced unasked")
    if e.endog or lag:
        if e.cls.startswith("ML_"):
            instruments(sec, None, None)
        elif hasattr(m, "name_yend"):
            instruments(sec, m.name_yend, m.name_q)
            ok(not e.endog or all(any(v.endswith(z) for v in m.name_yend) for z in zn[:c.yend.shape[1]]), "endogenous variable missing from name_yend")
    else:
        instruments(sec, None, None)
    if const:
        ok("kappa" in sec and "constant" in sec.lower(), "no warning about the dropped constant variable")
    if e.cls == "OLS" and opt.get("vif"):
        X = c.x if not const else np.delete(c.x, 1, 1)
        if kw.get("slx_lags"):
            X = None
        if X is not None:
            for j in range(X.shape[1]):
                r2 = ref.ols(X[:, [j]], ref.const(np.delete(X, j, 1))).r2 if X.shape[1] > 1 else 0.0
                got = [r for r in re.finditer(r"^ *(.*?)    +(%s)   +(%s)$" % (summ.NUM, summ.NUM), sec.split("VARIANCE INFLATION FACTOR")[1], re.M) if r.group(1).strip() == xn[j].strip()]
                same("lines of the inflation factor of " + xn[j], len(got), 1)
                summ.printed("variance inflation factor of " + xn[j], got[0].group(2), 1 / (1 - r2))
                summ.printed("tolerance of " + xn[j], got[0].group(3), 1 - r2)
    elif e.cls == "OLS":
        ok("INFLATION" not in sec, "inflation factors printed unasked")
    if e.cls == "Probit":
        probit(sec, m, names, opt)
    b = arr(m.betas).ravel()
    impacts(sec, m, c.W, list(zip(names, b)), bool(kw.get("slx_lags")))


def probit(sec, m, names, opt):
    ft = m.fit
    has(sec, "True positive rate", ft["TPR"]), has(sec, "True negative rate", ft["TNR"]), has(sec, "Balanced accuracy", ft["BA"]), has(sec, "% correctly pred.", ft["PREDPC"])
    has(sec, "Log-Likelihood", m.logl), has(sec, "LR test", m.LR[0]), has(sec, "LR test (p-value)", m.LR[1]), has(sec, "McFadden's rho", m.mcfadrho)
    q = re.search(r"MARGINAL EFFECTS\n.*?Probability\n-+\n(.*?)^-----", sec, re.S | re.M)
    ok(q, "no marginal effects")
    got = q.group(1).rstrip("\n").split("\n")
    same("rows of marginal effects", len(got), len(names) - 1)
    for i, ln in enumerate(got):
        r = re.match(r"^(.*?)    +(%s)    +(%s)    +(%s)    +(%s)$" % ((summ.NUM,) * 4), ln)
        ok(r, "unreadable marginal effect %r" % ln)
        same("variable of marginal effect %d" % i, r.group(1).strip(), names[i + 1].strip())
        for t, v in zip(r.groups()[1:], (m.slopes[i], m.slopes_std_err[i], m.slopes_z_stat[i][0], m.slopes_z_stat[i][1])):
            summ.printed("marginal effect of " + names[i + 1], t, v)
    if opt.get("spat_diag"):
        for lab, a in (("Kelejian-Prucha (error)", "KP_error"), ("Pinkse (error)", "Pinkse_error"), ("Pinkse-Slade (error)", "PS_error")):
            summ.test(sec, lab, [1] + list(getattr(m, a)))
    if opt.get("predflag"):
        p = m.predtable
        for lab, v in (("Observed", ("actpos", "actneg")), ("Predicted", ("predpos", "predneg")), ("Correctly Predicted", ("truepos", "trueneg")), ("Wrongly Predicted", ("falseneg", "falsepos"))):
            summ.test(sec, lab, [p[q] for q in v])


# ------------------------------------------------------------------ panels
PANELS = {"PooledOLS": "POOLED OLS PANEL", "PanelFE": "FIXED EFFECTS PANEL", "PanelRE": "RANDOM EFFECTS", "GM_ErrorPooled": "GMM POOLED SPATIAL ERROR", "ML_ErrorPooled": "ML POOLED SPATIAL ERROR", "GM_ErrorRE": "GMM SPATIAL ERROR PANEL MODEL|RANDOM EFFECTS",
          "ML_ErrorFE": "ML SPATIAL ERROR PANEL MODEL|FIXED EFFECTS", "ML_ErrorRE": "ML SPATIAL ERROR PANEL MODEL|RANDOM EFFECTS", "ML_LagFE": "ML SPATIAL LAG PANEL|FIXED EFFECTS", "ML_LagRE": "ML SPATIAL LAG PANEL|RANDOM EFFECTS",
          "Panel_FE_Lag": "MAXIMUM LIKELIHOOD SPATIAL LAG PANEL|FIXED EFFECTS", "Panel_FE_Error": "MAXIMUM LIKELIHOOD SPATIAL ERROR PANEL|FIXED EFFECTS", "Panel_RE_Lag": "MAXIMUM LIKELIHOOD SPATIAL LAG PANEL|RANDOM EFFECTS",
          "Panel_RE_Error": "MAXIMUM LIKELIHOOD SPATIAL ERROR PANEL|RANDOM EFFECTS", "GM_KKP": "GM SPATIAL ERROR PANEL MODEL|RANDOM EFFECTS"}
OLDP = [q for q in PANELS if q.startswith("Panel_") or q == "GM_KKP"]
EXTRA = {"GM_ErrorPooled": ["lambda"], "ML_ErrorPooled": ["lambda"], "GM_ErrorRE": ["lambda", "sigma2_v", "sigma2_1"], "GM_KKP": ["lambda", "sigma2_v", "sigma2_1"], "ML_ErrorFE": ["lambda"], "ML_ErrorRE": ["lambda", "sigma2_u"], "ML_LagFE": ["W_"],
         "ML_LagRE": ["W_", "phi"], "Panel_FE_Lag": ["W_"], "Panel_FE_Error": ["lambda"], "Panel_RE_Lag": ["W_", "phi"], "Panel_RE_Error": ["lambda", "sig2_u"]}


def spec_panel():
    return st.fixed_dictionaries(dict(panel.spec(N=(12, 20), T=(2, 3, 4)), cls=st.sampled_from(sorted(PANELS)), o1=st.booleans(), latex=st.sampled_from([0, 0, 1]), ds=st.booleans(), imp=st.sampled_from(["simple", "full", "all", None]),
                                      bl=st.sampled_from([["LMJ", "LM1", "LM2"], ["LM2"], ["LM2", "LMJ"]])))


def run_panel(s):
    import spreg
    cls = s["cls"]
    old = cls in OLDP
    if old:
        s = dict(s, slx=0)
    if cls == "Panel_RE_Error":
        s = dict(s, w=dict(s["w"], t="s", kind="dist"))
    c = panel.build(s, "lag" if "Lag" in cls else "error")
    if cls == "Panel_RE_Error":
        ev = np.sort(np.linalg.eigvals(c.W).real)
        if np.abs(c.W - c.W.T).max() > 1e-12 or np.diff(ev).min() < 1e-6:
            raise Reject("weights outside the domain of the deprecated class")
    par = inspect.signature(getattr(spreg, cls)).parameters
    kw = {}
    for a, v in (("nonspat_diag", s["o1"]), ("spat_diag", not s["o1"]), ("BSK_list", s["bl"]), ("latex", bool(s["latex"])), ("spat_impacts", s["imp"])):
        if a in par:
            kw[a] = v
    if s["ds"]:
        kw.update(name_ds="natregimes", name_w="queen.gal")
    with series_ok(c.W), sut(cls):
        m, names, yn = panel.call(s, c, cls, **kw)
    text = m.summary
    secs = summ.sections(text)
    same("sections", len(secs), 1)
    sec = secs[0]
    ok(text.rstrip().endswith("END OF REPORT ====================================="), "summary without an end")
    t = sec.split("\n")[0].upper()
    for wd in PANELS[cls].split("|"):
        ok(wd in t, "title %r does not say %s" % (t, wd))
    ok(("SLX" in t) == bool(s["slx"]), "title %r, SLX order %d" % (t, s["slx"]))
    if cls not in ("PooledOLS", "PanelFE", "PanelRE"):
        ok(("LAG" in t.replace("LAGGED", "")) == ("Lag" in cls) and ("ERROR" in t) == ("rror" in cls or cls == "GM_KKP"), "title %r of %s" % (t, cls))
    ok(("FIXED" in t) == ("FE" in cls) and ("RANDOM" in t) == ("RE" in cls or cls == "GM_KKP"), "title %r of %s" % (t, cls))
    has(sec, "Data set", "natregimes" if s["ds"] else "unknown")
    has(sec, "Weights matrix", "queen.gal" if s["ds"] else "unknown")
    has(sec, "Dependent Variable", yn)
    n, k = int(m.n), int(m.k)
    has(sec, "Number of Observations", n), has(sec, "Number of Variables", k), has(sec, "Degrees of Freedom", n - k)
    if not (cls == "GM_KKP"):
        same("n", n, c.N * c.T)
    y = arr(m.y).ravel()            # within / quasi-demeaned models report the transformed variable
    has(sec, "Mean dependent var", y.mean())
    sd = summ.field(sec, "S.D. dependent var")
    ok(any(abs(float(sd) - y.std(ddof=d)) <= 5.1e-5 for d in (0, 1)), "S.D. dependent var %s, %.6f" % (sd, y.std(ddof=1)))
    if cls == "PooledOLS":
        has(sec, "R-squared", m.r2), has(sec, "Adjusted R-squared", m.ar2)
    else:
        has(sec, "Pseudo R-squared", np.corrcoef(y, arr(m.predy).ravel())[0, 1] ** 2)
    if hasattr(m, "logll") and m.logll is not None:
        has(sec, "Log likelihood", m.logll), has(sec, "Akaike info criterion", m.aic), has(sec, "Schwarz criterion", m.schwarz)
        if hasattr(m, "f_stat"):
            has(sec, "Sum squared residual", np.sum(arr(m.u) ** 2)), has(sec, "F-statistic", m.f_stat[0]), has(sec, "Prob(F-statistic)", m.f_stat[1])
            has(sec, "Sigma-square", m.sig2), has(sec, "S.E. of regression", np.sqrt(arr(m.sig2))), has(sec, "Sigma-square ML", m.sig2ML), has(sec, "S.E of regression ML", np.sqrt(arr(m.sig2ML)))
        else:
            has(sec, "Sigma-square ML", m.sig2), has(sec, "S.E of regression", np.sqrt(arr(m.sig2)))
    has(sec, "Fixed-effects mean", getattr(m, "mean_mu_i", None))
    want = (["CONSTANT"] if "FE" not in cls else []) + names + [v if v != "W_" else "W_" + yn for v in EXTRA.get(cls, [])]
    rows = want_rows(None, m, want, old)
    same("coefficients", len(arr(m.betas)), len(want))
    if hasattr(m, "output"):
        same("names in the output table", [v.strip() for v in m.output["var_names"]], want)
        for i, v in enumerate(want):
            out_row(v, m.output.iloc[i], rows[v])
    summ.coefs(cls, sec, rows, latex=bool(s["latex"]) and not old, stat="t" if hasattr(m, "t_stat") else "z")
    if s["const"]:
        ok(re.search("kappa|constant", sec.split("-Statistic")[1]), "no warning about the dropped constant variable")
    if cls == "PanelRE":
        for lab, v in (("Sigma2_epsilon (Idiosyncratic)", m.sigma2_epsilon), ("Sigma2_mu (Individual)", m.sigma2_mu), ("Theta (Quasi-demeaning weight)", m.theta)):
            summ.test(sec, lab, [v])
        if np.isfinite(m.hausman_stat):
            summ.test(sec, "Hausman Specification Test", [m.hausman_df, m.hausman_stat, m.hausman_p])
    bsk = getattr(m, "bsk", None)
    for lab in ("LM Marginal RE (LM1)", "LM Marginal Spatial (LM2)", "LM Joint (LMJ)", "LM Conditional Spatial", "LM Conditional RE"):
        row = None if bsk is None else bsk[bsk["Test"] == lab]
        summ.test(sec, lab, None if row is None or not len(row) else [row[q].iloc[0] for q in ("df", "Statistic", "p-value")])
    if bsk is not None:
        want_t = {"PooledOLS": s["bl"], "PanelRE": ["Conditional Spatial"], "GM_ErrorPooled": ["Conditional RE"], "ML_ErrorPooled": ["Conditional RE"]}[cls]
        same("tests", len(bsk), len(want_t))
        ok(all(any(q in v for v in bsk["Test"]) for q in want_t), "tests asked: %s, reported: %s" % (want_t, list(bsk["Test"])))
    ok((bsk is not None) == bool(kw.get("spat_diag" if cls in ("PooledOLS", "PanelRE") else "nonspat_diag", False)), "tests reported although not asked for, or not reported")
    if "spat_impacts" in kw:
        ok((getattr(m, "sp_multipliers", None) is not None) == (s["imp"] is not None), "impacts")
        impacts(sec, m, c.W, list(zip(want, arr(m.betas).ravel())), bool(s["slx"]))
    if s["vm"]:
        vmatrix(text, m.vm, want)
    else:
        ok("VARIANCE MATRIX" not in text, "variance matrix printed unasked")
    return {"nontrivial": True, "labels": [cls, s["lay"]]}


# ------------------------------------------------------------------ equation systems
SYST = {"SUR": ["SEEMINGLY UNRELATED REGRESSIONS"], "ThreeSLS": ["THREE STAGE LEAST SQUARES"], "SURerrorGM": ["SUR", "GM SPATIAL ERROR"], "SURerrorML": ["SUR", "ML SPATIAL ERROR"], "SURlagIV": ["SUR", "SPATIAL LAG"]}


def spec_sys():
    return st.fixed_dictionaries(dict(surs.spec(n=(24, 50), endog=True, regimes=True), cls=st.sampled_from(sorted(SYST)), useR=st.booleans(), end=st.booleans(), nons=st.booleans(), spat=st.booleans(), vm=st.booleans(), ds=st.booleans(), iter=st.booleans()))


def run_sys(s):
    import spreg
    cls = s["cls"]
    if s["useR"]:       # enough observations for every coefficient of every regime, as in P22 and P23
        s = dict(s, n=max(s["n"], 36), m=min(s["m"], 3), ks=[min(k, 2) for k in s["ks"]])
    endog = cls == "ThreeSLS" or (cls == "SURlagIV" and s["end"])
    c = surs.build(s, endog=endog, lag=cls == "SURlagIV", err="error" in cls)
    rg = s["useR"]
    inter = lambda A: reg.interact(A, [True] * A.shape[1], c.lab) if rg else A
    X = surs.good({r: inter(c.X[r]) for r in range(c.m)}, 100)
    if endog or cls == "SURlagIV":
        Z = {r: inter(c.Z[r]) if endog else np.zeros((c.n, 0)) for r in X}
        Q = {r: inter(c.Q[r]) if endog else np.zeros((c.n, 0)) for r in X}
        if cls == "SURlagIV":
            Z = {r: ref.cat(Z[r], c.W @ c.y[r]) for r in X}
            Q = {r: ref.cat(Q[r], c.W @ X[r][:, 1:], *([c.W @ Q[r]] if endog else [])) for r in X}
        P22.tsls_pre(c, X, Z, Q)
    else:
        E = surs.resid(c.y, X, surs.ols(c.y, X))
        surs.good_sig(E.T @ E)
    pos, kw, nm = surs.inputs(s, c, {"SUR": (0, 0), "ThreeSLS": (1, 1), "SURlagIV": (1, 1)}.get(cls, (0, 1)), endog=endog)
    if cls != "ThreeSLS":
        kw.update(w=c.w, spat_diag=s["spat"])
        if cls != "SURlagIV":
            kw["vm"] = s["vm"]
    kw["nonspat_diag"] = s["nons"]
    if rg:
        kw.update(regimes=reg.box(s, c.lab), name_regimes="zone")
    if s["ds"]:
        kw["name_ds"] = "natregimes"
        if cls != "ThreeSLS":
            kw["name_w"] = "queen.gal"
    if cls == "SUR":
        kw["iter"] = s["iter"]
    with series_ok(c.W), sut(cls):
        m = getattr(spreg, cls)(*pos, **kw)
    text = m.summary
    top, *eqs = text.split("\nSUMMARY OF EQUATION ")
    t = summ.sections(top)[0].split("\n")[0].upper()
    for wd in SYST[cls]:
        ok(wd in t, "title %r does not say %s" % (t, wd))
    ok(("REGIMES" in t) == rg and ("ERROR" in t) == ("error" in cls) and ("LAG" in t) == ("lag" in cls), "title %r of %s" % (t, cls))
    ok(text.rstrip().endswith("END OF REPORT ====================================="), "summary without an end")
    same("equations in the summary", [v.split("\n")[0] for v in eqs], [str(r + 1) for r in range(c.m)])
    has(top, "Data set", "natregimes" if s["ds"] else "unknown"), has(top, "Number of Equations", c.m), has(top, "Number of Observations", c.n)
    if cls != "ThreeSLS" and s["ds"]:
        has(top, "Weights matrix", "queen.gal")
    if cls in ("SUR", "SURerrorML"):
        has(top, "Log likelihood (SUR)", m.llik)
    if cls == "SUR":
        has(top, "Number of Iterations", m.niter)
    if cls == "SURerrorML":
        has(top, "Log likel. (error)", m.errllik), has(top, "Log likel. (SUR error)", m.surerrllik)
    B, I = (m.bSUR, m.sur_inf) if hasattr(m, "bSUR") else (m.b3SLS, m.tsls_inf)
    end = ""
    for r in range(c.m):
        sec = eqs[r]
        if r == c.m - 1:
            q = re.search(r"\n\n\n?(?:REGRESSION DIAGNOSTICS|DIAGNOSTICS FOR SPATIAL|OTHER DIAGNOSTICS|ERROR CORRELATION)", sec)
            ok(q, "no error correlation matrix")
            sec, end = sec[:q.start()], sec[q.start():]
        names = list(m.name_bigX[r]) + (list(m.name_bigyend[r]) if hasattr(m, "name_bigyend") else [])
        b, inf = arr(B[r]).ravel(), np.asarray(I[r])
        same("coefficients of equation %d" % r, len(b), len(names))
        want = {v: (b[j],) + tuple(inf[j]) for j, v in enumerate(names)}
        if len(want) < len(names):
            raise Reject("two coefficients with one name")
        if "error" in cls:
            lam = float(np.squeeze(arr(m.lamsur)[r]))
            want["lambda_%d" % (r + 1)] = (lam,) + (tuple(float(np.squeeze(arr(v)[r])) for v in m.lamsetp) if getattr(m, "lamsetp", None) is not None else ())
        summ.coefs("%s equation %d" % (cls, r + 1), sec, want, stat="z")
        y = c.y[r].ravel()
        has(sec, "Dependent Variable", nm.y[r]), has(sec, "Number of Variables", len(names)), has(sec, "Degrees of Freedom", c.n - len(names)), has(sec, "Mean dependent var", y.mean())
        sd = summ.field(sec, "S.D. dependent var")
        ok(any(abs(float(sd) - y.std(ddof=d)) <= 5.1e-5 for d in (0, 1)), "S.D. dependent var %s, %.6f" % (sd, y.std(ddof=1)))
        if hasattr(m, "name_bigyend"):
            instruments(sec, m.name_bigyend[r], m.name_bigq[r])
        else:
            instruments(sec, None, None)
        if rg:
            ok("Regimes variable: zone\n" in sec, "no regimes variable")
            (jt, jp), regi = m.chow_regimes[r]
            q = sec.split("CHOW TEST WITHIN EQUATION")
            same("Chow tables of equation %d" % r, len(q), 2)
            got = {w.group(1): w.groups()[1:] for w in re.finditer(r"^ *(.*?) +(\d+) +(%s) +(%s)$" % (summ.NUM, summ.NUM), q[1], re.M)}
            nx = [v for v in m.name_x_r[r]]
            vn = ["CONSTANT"] + nx[1:]
            ok(len(regi) >= len(c.nx[r]) + 1, "Chow tests of equation %d: %d" % (r, len(regi)))
            same("variables of the Chow tests", sorted(got), sorted([v.strip() for v in vn[:len(regi)]] + ["Global test"]))
            for j in range(len(regi)):
                d, v, p = got[vn[j].strip()]
                summ.printed("Chow df", d, m.nr - 1), summ.printed("Chow test of " + vn[j], v, regi[j, 0]), summ.printed("Chow p of " + vn[j], p, regi[j, 1])
            d, v, p = got["Global test"]
            summ.printed("global Chow df", d, len(regi) * (m.nr - 1)), summ.printed("global Chow test", v, jt), summ.printed("global Chow p", p, jp)
            eq("degrees of freedom of the global Chow test", stats.chi2.sf(float(np.squeeze(jt)), int(d)), np.squeeze(jp), rtol=1e-6, atol=1e-12)
        else:
            ok("CHOW TEST WITHIN" not in sec, "Chow tests without regimes")
    tst = lambda lab, a, on: summ.test(end, lab, [getattr(m, a)[i] for i in (1, 0, 2)] if on else None)
    ml = cls in ("SUR", "SURerrorML")
    tst("LM test on Sigma", "lmtest", cls == "SUR" and s["nons"])
    tst("LR test on Sigma", "lrtest", ml and s["nons"])
    tst("LR test on lambda", "likrlambda", cls == "SURerrorML" and s["spat"])
    tst("Joint significance (lambda)", "joinlam", cls == "SURerrorML" and s["spat"] and s["vm"])
    tst("Joint significance (rho)", "joinrho", cls == "SURlagIV" and s["spat"])
    tst("Lagrange Multiplier (error)", "lmEtest", cls == "SUR" and s["spat"])
    tst("Lagrange Multiplier (lag)", "lmlagtest", cls == "SUR" and s["spat"])
    sc = getattr(m, "surchow", None)
    Ks = {len(arr(B[r])) for r in range(c.m)}
    ok((sc is not None) == (len(Ks) == 1), "Chow tests between equations %s with %s coefficients" % ("reported" if sc is not None else "not reported", sorted(Ks)))
    if sc is not None and s["nons"]:
        q = end.split("CHOW TEST BETWEEN EQUATIONS")
        same("Chow tables between equations", len(q), 2)
        got = [w.groups() for w in re.finditer(r"^ *(.*?) +(\d+) +(%s) +(%s)$" % (summ.NUM, summ.NUM), re.split("ERROR CORR|DIAGNOSTICS FOR", q[1])[0], re.M)]
        got = [v for v in got if v[0] != "lambda"]
        same("rows of Chow tests between equations", len(got), len(sc))
        allv = {r: list(m.name_bigX[r]) + (list(m.name_bigyend[r]) if hasattr(m, "name_bigyend") else []) for r in range(c.m)}
        full = [", ".join(allv[r][j] for r in range(c.m)) for j in range(len(sc))]
        used = set()
        for lab, d, v, p in got:
            hit = [j for j in range(len(sc)) if j not in used and (full[j].strip() == lab or (lab.endswith("...") and full[j].strip().startswith(lab[:-3])))]
            ok(hit, "Chow row of unknown variables %r" % lab)
            fit = None
            for j in hit:       # shortened labels can stand for several variables
                try:
                    summ.printed("df", d, sc[j][1]), summ.printed("Chow test between equations of " + lab, v, sc[j][0]), summ.printed("p", p, sc[j][2])
                    fit = j
                    break
                except Violation:
                    if len(hit) == 1:
                        raise
            ok(fit is not None, "Chow test between equations of %s: printed %s %s %s" % (lab, d, v, p))
            used.add(fit)
    else:
        ok("CHOW TEST BETWEEN" not in end or (cls == "SURerrorML" and s["spat"] and s["vm"]), "Chow tests between equations printed unasked")
    if getattr(m, "lamtest", None) is not None and s["spat"]:
        if sc is not None:
            summ.test(end, "lambda", [m.lamtest[1], m.lamtest[0], m.lamtest[2]])
    head, body = summ.matrix(end, "ERROR CORRELATION MATRIX")
    C = arr(m.corr)
    same("size of the error correlation matrix", [len(body)] + [len(v) for v in body], [c.m] * (c.m + 1))
    for i in range(c.m):
        for j in range(c.m):
            summ.printed("error correlation", body[i][j], C[i, j])
    return {"nontrivial": True, "labels": [cls, "regimes" if rg else "plain", s["form"]]}


def spec_large():
    return st.fixed_dictionaries({"model": st.sampled_from(["OLS", "TSLS", "GM_Lag", "GM_Error_Het", "GM_Combo", "ML_Lag", "ML_Error", "Probit", "SUR", "PooledOLS", "PanelFE", "GM_KKP",
                                                            "OLS_Regimes", "TSLS_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes", "GM_Error_Regimes", "GM_Lag_Regimes"]),
                                  "k": st.integers(15, 26), "R": st.integers(2, 6), "side": st.integers(13, 16), "seed": gen.SEED, "latex": st.booleans(), "sep": st.booleans(), "glob": st.sampled_from([0, 0, 1, 3])})


def run_large(s):
    """tables of many rows keep the order of the coefficients: by equation and regime, then as entered"""
    import spreg
    import libpysal
    M, k, R, g = s["model"], s["k"], s["R"], gen.rng(s["seed"], 881)
    rg = M.endswith("_Regimes")
    if rg:
        k = max(3, min(9, 90 // R // 2))
    nx = ["v%s%d" % (chr(97 + int(g.integers(0, 26))), j) for j in range(k)]
    n = s["side"] ** 2
    kw = dict(latex=s["latex"], name_y="out")
    w = libpysal.weights.lat2W(s["side"], s["side"])
    w.transform = "r"
    if M == "GM_KKP":
        kw.pop("latex")
    if M in ("PooledOLS", "PanelFE", "GM_KKP"):
        n, T = 36, 4
        w = libpysal.weights.lat2W(6, 6)
        w.transform = "r"
        X = g.standard_normal((n * T, k))
        y = X @ g.uniform(-1, 1, (k, 1)) + g.standard_normal((n * T, 1))
        if M != "PooledOLS":
            kw["w"] = w
        a = {"PooledOLS": (y, X, w), "PanelFE": (y, X, w), "GM_KKP": (y, X, w)}[M]
        kw.pop("w", None)
        with sut(M):
            m = getattr(spreg, M)(*a, name_x=list(nx), **kw)
        want = [(["CONSTANT"] if M != "PanelFE" else []) + nx + (["lambda", "sigma2_v", "sigma2_1"] if M == "GM_KKP" else [])]
    elif M == "SUR":
        X = [g.standard_normal((n, k)) for i in range(2)]
        y = [v @ g.uniform(-1, 1, (k, 1)) + g.standard_normal((n, 1)) for v in X]
        with sut(M):
            m = spreg.SUR({i: v for i, v in enumerate(y)}, {i: np.hstack([np.ones((n, 1)), v]) for i, v in enumerate(X)},
                          name_bigy={0: "u", 1: "v"}, name_bigX={i: ["Constant_%d" % i] + ["%s_%d" % (v, i) for v in nx] for i in range(2)})
        want = [["Constant_%d" % i] + ["%s_%d" % (v, i) for v in nx] for i in range(2)]
    else:
        X = g.standard_normal((n, k))
        y = X @ g.uniform(-1, 1, (k, 1)) + g.standard_normal((n, 1))
        Q = g.standard_normal((n, 1))
        Y = Q + g.standard_normal((n, 1))
        a, tail = [y, X], []
        if M == "Probit":
            a[0] = (0.4 * y / y.std() + g.standard_normal((n, 1)) > 0).astype(float)
        if rg:
            L = ["r%s" % c for c in "EAFCBD"[:R]]
            lab = [L[i] for i in g.permutation(np.arange(n) % R)]
            kw["regimes"] = lab
        if M.startswith("TSLS"):
            a += [Y, Q]
            kw.update(name_yend=["endo"], name_q=["inst"])
            tail = ["endo"]
        elif M == "OLS" or M == "OLS_Regimes":
            pass
        elif M != "Probit":
            kw["w"] = w
        if "Lag" in M or "Combo" in M:
            tail = tail + ["W_out"]
        err = ["lambda"] if "Error" in M or "Combo" in M else []
        if rg:
            lagm = "Lag" in M
            sep = s["sep"] and not s["glob"]
            if M in ("OLS_Regimes", "TSLS_Regimes"):
                kw["regime_err_sep"] = sep
            elif lagm:
                kw["regime_lag_sep"] = sep
                if M == "GM_Lag_Regimes":
                    kw["regime_err_sep"] = sep
            else:
                kw["regime_err_sep"] = sep
            if s["glob"]:
                kw["cols2regi"] = [bool((s["glob"] + j) % 3) for j in range(k)] + [True] * (len(tail) if M == "TSLS_Regimes" else 0)
        with sut(M):
            m = getattr(spreg, M)(*a, name_x=list(nx), **kw)
        if not rg:
            want = [["CONSTANT"] + nx + tail + err]
        else:
            vary = kw.get("cols2regi", [True] * k)[:k]
            own = [v for v, f in zip(nx, vary) if f]
            tv = [] if M.endswith("Lag_Regimes") and not sep else tail
            blocks = [["%s_%s" % (r, v) for v in ["CONSTANT"] + own + tv + (err if sep else [])] for r in sorted(set(lab))]
            rest = ["_Global_" + v for v, f in zip(nx, vary) if not f] + (["_Global_W_out"] if tail and not tv else []) + ([] if sep else err)
            # the blocks of the regimes come in the order of their labels; each in the order of the variables
            glo = [v for v in rest if v.startswith("_Global_")]
            allb = blocks + ([glo] if glo else []) + [[v] for v in rest if v not in glo]
            flat = [str(v) for v in m.output["var_names"]]
            allb = sorted(allb, key=lambda b: flat.index(b[0]) if b[0] in flat else -1)
            same(M + ": order of the regimes", [b[0].split("_")[0] for b in allb if b in blocks], sorted(set(lab)))
            want = allb if sep else [sum(allb, [])]
    got = [[n_ for n_, v in summ.rows(sec, s["latex"] and M not in ("SUR", "GM_KKP"))[1]] for sec in (m.summary.split("\nSUMMARY OF EQUATION ")[1:] if M == "SUR" else summ.sections(m.summary))]
    same(M + ": order of the printed rows", got, want)
    if M not in ("SUR", "GM_KKP"):
        same(M + ": order of the rows of the output table", [str(v).strip() for v in m.output["var_names"]], sum(want, []))
        eq(M + ": coefficients of the output table", meta.ordered(m)["coefficients"].astype(float).to_numpy(), arr(m.betas).ravel(), rtol=1e-12)
    return {"nontrivial": len(sum(want, [])) > 16, "labels": [M]}


SUBS = [Sub("cross", spec, run, quick=500, thorough=12000),
        Sub("panels", spec_panel, run_panel, quick=500, thorough=10000),
        Sub("systems", spec_sys, run_sys, quick=400, thorough=8000),
        Sub("large", spec_large, run_large, quick=80, thorough=1500)]

"""Chow and Wald tests against the quadratic form of pairwise differences; regime design builders against dense blocks."""
import types
import numpy as np
from scipy import stats
from hypothesis import strategies as st
from vlib import gen, ref, reg, zoo
from vlib.core import Sub, sut, series_ok, Reject, Violation
from vlib.cmp import *

TITLE = "Chow and Wald tests, restriction and design builders"
RULE = ("chow: every regimes estimator x constant/column options x labels of every type, the hypotheses read off the reported coefficient names; "
        "wald: random coefficient vectors, covariance matrices, restrictions and right-hand sides; builders: random regime labels and column selections; "
        "non-trivial = statistic, degrees of freedom and p-value compared (two or more regimes)")
ASSUMPTIONS = ["covariance matrix of the tested contrasts has condition below 1e9", "at least one coefficient varies by regime"]

# name -> (class, needs endogenous, options, may mix global and regime-specific coefficients)
EST = {"OLS": ("OLS_Regimes", 0, dict(regime_err_sep=False), 1), "OLSw": ("OLS_Regimes", 0, dict(regime_err_sep=False, robust="white"), 1),
       "OLSs": ("OLS_Regimes", 0, dict(regime_err_sep=True), 0), "OLSg": ("OLS_Regimes", 0, dict(regime_err_sep=True), 1),
       "TSLS": ("TSLS_Regimes", 1, dict(regime_err_sep=False), 1), "TSLSw": ("TSLS_Regimes", 1, dict(regime_err_sep=False, robust="white"), 1),
       "TSLSs": ("TSLS_Regimes", 1, dict(regime_err_sep=True), 0),
       "LAG": ("GM_Lag_Regimes", 0, dict(regime_lag_sep=False, regime_err_sep=False), 1), "LAGl": ("GM_Lag_Regimes", 0, dict(regime_lag_sep=True, regime_err_sep=False), 1),
       "LAGe": ("GM_Lag_Regimes", 1, dict(regime_lag_sep=False, regime_err_sep=False), 1), "LAGel": ("GM_Lag_Regimes", 1, dict(regime_lag_sep=True, regime_err_sep=False), 1),
       "LAGs": ("GM_Lag_Regimes", 0, dict(regime_lag_sep=True, regime_err_sep=True), 0), "LAGes": ("GM_Lag_Regimes", 1, dict(regime_lag_sep=True, regime_err_sep=True), 0),
       "ERR": ("GM_Error_Regimes", 0, dict(), 1), "ERRs": ("GM_Error_Regimes", 0, dict(regime_err_sep=True), 0),
       "EERR": ("GM_Endog_Error_Regimes", 1, dict(), 1), "EERRs": ("GM_Endog_Error_Regimes", 1, dict(regime_err_sep=True), 0),
       "COM": ("GM_Combo_Regimes", 0, dict(), 1), "COMl": ("GM_Combo_Regimes", 0, dict(regime_lag_sep=True), 0),
       "COMe": ("GM_Combo_Regimes", 1, dict(), 1), "COMs": ("GM_Combo_Regimes", 0, dict(regime_lag_sep=True, regime_err_sep=True), 0),
       "HOM": ("GM_Error_Hom_Regimes", 0, dict(), 1), "HOMs": ("GM_Error_Hom_Regimes", 0, dict(regime_err_sep=True), 0),
       "EHOM": ("GM_Endog_Error_Hom_Regimes", 1, dict(), 1), "EHOMs": ("GM_Endog_Error_Hom_Regimes", 1, dict(regime_err_sep=True), 0),
       "CHOM": ("GM_Combo_Hom_Regimes", 0, dict(), 1), "CHOMe": ("GM_Combo_Hom_Regimes", 1, dict(), 1), "CHOMs": ("GM_Combo_Hom_Regimes", 0, dict(regime_lag_sep=True, regime_err_sep=True), 0),
       "HET": ("GM_Error_Het_Regimes", 0, dict(), 1), "HETs": ("GM_Error_Het_Regimes", 0, dict(regime_err_sep=True), 0),
       "EHET": ("GM_Endog_Error_Het_Regimes", 1, dict(), 1), "EHETs": ("GM_Endog_Error_Het_Regimes", 1, dict(regime_err_sep=True), 0),
       "CHET": ("GM_Combo_Het_Regimes", 0, dict(), 1), "CHETe": ("GM_Combo_Het_Regimes", 1, dict(), 1), "CHETs": ("GM_Combo_Het_Regimes", 0, dict(regime_lag_sep=True, regime_err_sep=True), 0),
       "MLL": ("ML_Lag_Regimes", 0, dict(), 1), "MLLs": ("ML_Lag_Regimes", 0, dict(regime_lag_sep=True), 0),
       "MLE": ("ML_Error_Regimes", 0, dict(), 1), "MLEs": ("ML_Error_Regimes", 0, dict(regime_err_sep=True), 0)}


def strat():
    return st.fixed_dictionaries(dict(
        reg.SPEC, n=st.integers(50, 100), w=gen.w_spec(n=20, transforms=("r", "r", "r", "s")), est=st.sampled_from(sorted(EST)),
        const=st.sampled_from(["many", "many", "one"]), cols=st.integers(0, 31), m=st.sampled_from([1, 1, 2]), slx=st.sampled_from([0, 0, 0, 1]),
        d=gen.data_spec(k=st.integers(1, 3), rho=st.sampled_from([0.0, 0.3, 0.6]), xkinds=["normal", "uniform", "corr", "shifted"])))


def contrast(b, V, groups):
    """-> joint and one by one Wald statistics of the equality of the coefficients of every group"""
    m = V.shape[0]
    rows, each = [], []
    for g in groups:
        R = np.zeros((len(g) - 1, m))
        for i, j in enumerate(g[1:]):       # every regime against its predecessor: any basis of the contrasts will do
            R[i, g[i]], R[i, j] = 1, -1
        rows.append(R)
        each.append(quad(b, V, R))
    return quad(b, V, np.vstack(rows)), each


def quad(b, V, R, q=0.0):
    M = R @ V @ R.T
    d = np.sqrt(np.diag(M))
    if not np.all(np.isfinite(M)) or d.min() == 0:
        raise Reject("degenerate covariance matrix")
    M = M / np.outer(d, d)
    if np.linalg.cond(M) > 1e9:
        raise Reject("ill-conditioned covariance matrix of the contrasts")
    r = ((R @ b).ravel() - q) / d
    w = float(r @ np.linalg.solve(M, r))
    return w, float(stats.chi2.sf(w, R.shape[0]))


def run_chow(s):
    import spreg
    reg.grow(s, 18)
    n, k = s["n"], int(s["d"]["k"])
    lab = reg.labels(s, n)
    cls, endog, opt, mix = EST[s["est"]]
    w, W, D, t = reg.weights(s, n, lab)
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    for r, mk in reg.masks(lab).items():
        if mk.sum() < 12 or ref.cond(np.hstack([X[mk], W[mk] @ X])) > 500:
            raise Reject("small or ill-conditioned regime")
    kw = dict(opt)
    m = s["m"] if endog else 0
    if endog:
        Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, m, m + 1)
        y = gen.gen_y(s["d"], X, W, Z=Ye) + u0 * s["d"]["yscale"]
        Ye = Ye * (4 if "Het" in cls else 1)
        kw.update(yend=Ye, q=Q, name_yend=["e%d" % j for j in range(m)], name_q=["z%d" % j for j in range(m + 1)])
    else:
        y = gen.gen_y(s["d"], X, W)
    y = reg.shift(s, y, X, lab)
    slx = s["slx"] if mix and not endog and cls not in ("OLS_Regimes", "TSLS_Regimes") else 0
    nx = ["x%d" % j for j in range(k)]
    allx = nx + (["W_" + v for v in nx] if slx else [])
    vary = reg.colmask(s, len(allx) + m) if mix else None
    const = s["const"] if mix else "many"
    if s["est"] == "OLSg" and vary is None and const == "many":
        const = "one"
    vx = [const == "many"] + (vary or [True] * (len(allx) + m))
    if not any(vx):
        raise Reject("no coefficient varies by regime")
    if s["est"] == "OLSg" and min(mk.sum() for mk in reg.masks(lab).values()) <= len(reg.masks(lab)) * sum(vx) + len(vx) - sum(vx) + 2:
        raise Reject("regime smaller than the divisor of the groupwise variances (see P14)")
    if slx:
        kw["slx_lags"] = slx
    if cls not in ("OLS_Regimes", "TSLS_Regimes"):
        kw["w"] = w
    if s["est"] in ("CHET", "CHETe", "CHETs", "HET", "HETs", "EHET", "EHETs"):
        kw["max_iter"] = 1
    full = dict(kw, y=y, x=X, regimes=reg.box(s, lab), constant_regi=const, cols2regi="all" if vary is None else list(vary), name_x=list(nx), name_y="yy")
    with series_ok(W):
        model = getattr(spreg, cls)(**full)
    what = "%s: " % cls
    b, V = arr(model.betas).reshape(-1, 1), arr(model.vm)
    names = list(model.output["var_names"].loc[sorted(model.output.index)])
    T = reg.textset(lab)
    if V.shape[0] != b.shape[0]:      # lambda is not part of the covariance matrix
        keep = [i for i, v in enumerate(names) if not v.endswith("lambda")]
        same(what + "size of vm", V.shape[0], len(keep))
        b, names = b[keep], [names[i] for i in keep]
    base = ["CONSTANT"] + allx + ["e%d" % j for j in range(m)]
    extra = [v for v in ("W_yy", "lambda") if "%s_%s" % (T[0], v) in names]
    tested = [v for v, c in zip(base, vx) if c] + extra
    groups = []
    for v in tested:
        try:
            groups.append([names.index("%s_%s" % (t, v)) for t in T])
        except ValueError:
            raise Violation("%s: no coefficient of %s for every regime among %s" % (what, v, names))
    rest = [v for i, v in enumerate(names) if not any(i in g for g in groups)]
    ok(all(v.startswith("_Global_") or v == "lambda" for v in rest), what + "coefficients neither tested nor common to the regimes: %s" % rest)
    joint, each = contrast(b, V, groups)
    shifted = None
    nfix = len([v for v in rest if v[8:] in ["CONSTANT"] + allx])
    yendog = [v for v in tested if v not in ["CONSTANT"] + allx]
    if not mix:
        yendog = []
    if nfix and yendog:
        # known finding chow-global: positions counted as if no fixed coefficient stood between the exogenous and the endogenous ones
        try:
            shifted = contrast(b, V, [[i - nfix for i in g] if v in yendog else g for v, g in zip(tested, groups)])
        except Reject:
            raise Reject("degenerate contrasts at the positions of the known finding")
    c = model.chow
    if shifted:
        try:
            compare(what, model, tested, joint, each, T)
        except Violation as v:
            compare(what, model, tested, *shifted, T)
            raise Violation(str(v), key="chow-global")
    else:
        compare(what, model, tested, joint, each, T)
    return {"labels": [s["est"], "mixed" if vary or const == "one" else "all", "R%d" % len(T)]}


def compare(what, model, tested, joint, each, T):
    c = model.chow
    same(what + "number of coefficient tests", len(c.regi), len(tested))
    for v, got, want in zip(tested, np.asarray(c.regi), each):
        eq(what + "Chow test of " + v, got[0], want[0], rtol=1e-6, atol=1e-8)
        eq(what + "p-value of the Chow test of " + v, got[1], want[1], rtol=1e-5, atol=1e-9)
    eq(what + "joint Chow test", c.joint[0], joint[0], rtol=1e-6, atol=1e-8)
    eq(what + "p-value of the joint Chow test", c.joint[1], joint[1], rtol=1e-5, atol=1e-9)
    o = getattr(model, "output_chow", None)
    if o is not None:
        same(what + "variables of the Chow table", list(o["var_names"]), tested + ["Global test"])
        same(what + "df of the Chow table", [int(v) for v in o["df"]], [len(T) - 1] * len(tested) + [(len(T) - 1) * len(tested)])
        eq(what + "values of the Chow table", o["value"].astype(float), [v[0] for v in each] + [joint[0]], rtol=1e-6, atol=1e-8)
        eq(what + "p-values of the Chow table", o["prob"].astype(float), [v[1] for v in each] + [joint[1]], rtol=1e-5, atol=1e-9)


# ------------------------------------------------------------------ Wald
def strat_wald():
    return st.fixed_dictionaries(dict(k=st.integers(1, 12), r=st.integers(1, 6), seed=gen.SEED, q=st.sampled_from(["none", "array", "array", "zeros"]), scale=st.sampled_from([1e-4, 1.0, 1e5])))


def run_wald(s):
    from spreg import regimes as RG
    g = gen.rng(s["seed"], 181)
    k, r = s["k"], min(s["k"], s["r"])
    b = g.standard_normal((k, 1)) * s["scale"]
    A = g.standard_normal((k, k + 3))
    V = A @ A.T * s["scale"] ** 2
    R = g.integers(-2, 3, (r, k)).astype(float) + np.eye(r, k) * 5
    q = {"none": None, "zeros": np.zeros((r, 1))}.get(s["q"], g.standard_normal((r, 1)) * s["scale"])
    want = quad(b, V, R, 0.0 if q is None else q.ravel())
    m = types.SimpleNamespace(betas=b, vm=V)
    with sut("Wald"):
        w = RG.Wald(m, R) if q is None else RG.Wald(m, R, q)
    eq("Wald statistic", w.w, want[0], rtol=1e-6)
    eq("Wald p-value", w.pvalue, want[1], rtol=1e-5, atol=1e-12)
    with sut("wald_test"):
        w = RG.wald_test(b, R, np.zeros((r, 1)) if q is None else q, V)
    eq("wald_test statistic and p-value", w, want, rtol=1e-6, atol=1e-12)
    return {"labels": ["q:" + s["q"], "r%d" % r]}


# ------------------------------------------------------------------ builders
def strat_build():
    return st.fixed_dictionaries(dict(reg.SPEC, n=st.integers(8, 40), d=st.fixed_dictionaries(dict(seed=gen.SEED)), k=st.integers(1, 4), cols=st.integers(0, 31),
                                      const=st.sampled_from(["many", "one", None]), yend=st.booleans(), kr=st.integers(1, 5), kf=st.integers(0, 3), kryd=st.integers(0, 3),
                                      w=gen.w_spec(n=20, transforms=("r", "b", "o"))))


def run_build(s):
    from spreg import regimes as RG
    reg.grow(s, 5)
    n, k = s["n"], s["k"]
    lab = reg.labels(s, n)
    g = gen.rng(s["d"]["seed"], 182)
    X = g.standard_normal((n, k))
    rs = reg.order(lab)
    T = reg.textset(lab)
    with sut("_get_regimes_set"):
        got = RG._get_regimes_set(list(lab))
    same("regimes set", [str(v) for v in got], T)
    with sut("x2xsp"):
        Z = RG.x2xsp(X, lab, rs)
    eq("x2xsp", Z, reg.interact(X, [True] * k, lab), rtol=1e-15)
    vary = [bool((s["cols"] >> j) & 1) for j in range(k)]
    full = ([s["const"] == "many"] if s["const"] else []) + vary
    XX = np.hstack([np.ones((n, 1)), X]) if s["const"] else X
    with sut("regimeX_setup"):
        Z = RG.regimeX_setup(XX, lab, full, rs)
    eq("regimeX_setup", Z, reg.interact(XX, full, lab), rtol=1e-15)
    f = RG.Regimes_Frame.__new__(RG.Regimes_Frame)
    names = ["v%d" % j for j in range(k)]
    with sut("Regimes_Frame"):
        Z, nm, ty, rl = RG.Regimes_Frame.__init__(f, X, lab, s["const"], list(vary), names=list(names), rlist=True)
    eq("Regimes_Frame matrix", Z, reg.interact(XX, full, lab), rtol=1e-15)
    nn = (["CONSTANT"] if s["const"] else []) + names
    same("Regimes_Frame names", [str(v) for v in nm], reg.inames(nn, full, lab))
    same("Regimes_Frame kr, kf, nr", (f.kr, f.kf, f.nr), (sum(full), len(full) - sum(full), len(rs)))
    tt = (["o"] if s["const"] else []) + ["x"] * k
    same("Regimes_Frame types", [str(v) for v in ty], [t for r in rs for t, c in zip(tt, full) if c] + [t for t, c in zip(tt, full) if not c])
    same("Regimes_Frame regime list", [str(v) for v in rl], [t for t in T for c in full if c] + ["_Global" for c in full if not c])
    if s["yend"]:
        kr, kf = f.kr, f.kf
        Ye = g.standard_normal((n, 2))
        with sut("Regimes_Frame(yend)"):
            Z, nm, ty = RG.Regimes_Frame.__init__(f, Ye, lab, None, [True] * k + [bool(s["cols"] & 8), bool(s["cols"] & 16)], yend=True, names=["e0", "e1"])
        ve = [bool(s["cols"] & 8), bool(s["cols"] & 16)]
        eq("Regimes_Frame(yend) matrix", Z, reg.interact(Ye, ve, lab), rtol=1e-15)
        same("Regimes_Frame(yend) names", [str(v) for v in nm], reg.inames(["e0", "e1"], ve, lab))
        same("Regimes_Frame(yend) kr, kf, kryd", (f.kr, f.kf, f.kryd), (kr + sum(ve), kf + 2 - sum(ve), sum(ve)))
    # restrictions: every row contrasts two regimes of one coefficient; together they span all contrasts
    nr, kr, kf = len(rs), s["kr"], s["kf"]
    with sut("buildR"):
        R = RG.buildR(kr, kf, nr)
    span("buildR", R, [[r * kr + v for r in range(nr)] for v in range(kr)], nr * kr + kf)
    kryd = min(s["kryd"], kr)
    kx = kr - kryd
    for v in range(kr):
        with sut("buildR1var"):
            R = RG.buildR1var(v, kr, kf, kryd, nr)
        pos = [r * kx + v for r in range(nr)] if v < kx else [kx * nr + r * kryd + v - kx for r in range(nr)]
        if kf == 0 or kryd == 0:
            span("buildR1var", R, [pos], nr * kr + kf)
    # within-regime weights
    w, W, D, t = reg.weights(s, n, lab)
    M = reg.masks(lab)
    Dr = reg.within(D, lab)
    with sut("w_regimes"):
        wr, ids, warn = RG.w_regimes(w, list(lab), rs, get_ids=True)
        un = RG.w_regimes_union(w, wr, rs)
    with np.errstate(all="ignore"):
        Wr = np.nan_to_num(gen.transform_dense(Dr, t))
    eq("union of the weights of the regimes", un.full()[0], Wr, rtol=1e-13)
    same("ids of the union", list(un.id_order), list(w.id_order))
    for r in rs:
        Wi = Wr[np.ix_(M[r], M[r])]
        eq("weights of a regime", wr[r].full()[0], Wi, rtol=1e-13)
        with sut("w_regime"):
            w1, warn = RG.w_regime(w, list(np.nonzero(M[r])[0]), r)
        eq("w_regime", w1.full()[0], Wi, rtol=1e-13)
    Y = g.standard_normal((n, 1))
    with sut("lag_regimes"):
        L = RG.lag_regimes(w, Y, list(lab), rs)
    eq("lag_regimes", L, Wr @ Y, rtol=1e-12)
    return {"labels": ["R%d" % nr, s["lab"], str(s["const"])]}


def span(what, R, groups, width):
    R = arr(R)
    same(what + ": shape", R.shape, (sum(len(g) - 1 for g in groups), width))
    for r in R:
        g = [g for g in groups if set(np.nonzero(r)[0]) <= set(g)]
        ok(len(g) == 1 and abs(r.sum()) == 0 and np.any(r), "%s: a row does not contrast the regimes of one coefficient" % what)
    same(what + ": rank", np.linalg.matrix_rank(R) if R.size else 0, R.shape[0])


KNOWN = {"R": 2, "lab": "str", "lay": "mix", "box": "list", "n": 60, "w": {"kind": "rook", "n": 20, "seed": 0, "t": "r", "ids": "int"}, "est": "LAGe", "const": "many", "cols": 6, "m": 1, "slx": 0,
         "d": {"k": 2, "x": "normal", "seed": 1, "rho": 0.3, "lam": 0.0, "het": 0, "noise": 1.0, "yscale": 1.0}}

SUBS = [Sub("wide", gen.wide(strat, n=(150, 260), ks=(5, 8), more={"R": st.sampled_from([2, 3, 3, 4, 5, 6, 7])}), run_chow, quick=150, thorough=400),
        Sub("chow", strat, run_chow, quick=900, thorough=12000, probe=[KNOWN]),
        Sub("wald", strat_wald, run_wald, quick=200, thorough=3000),
        Sub("builders", strat_build, run_build, quick=250, thorough=4000)]

"""Results are equivariant under a change of the units of measurement."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, meta, zoo, ref, surs, panel
from checks.P33 import sys_base, panel_base, strat_sys, strat_panel
from vlib.core import Sub, sut, Reject, Violation, series_ok

TITLE = "Scale equivariance"
RULE = ("51 estimator configurations, equation systems and panels x factors from 1e-3 to 1e4 (also negative) applied to the dependent variable, to single regressors, endogenous variables or instruments, and "
        "constants added to the dependent variable or to regressors: every reported quantity must change by the corresponding power or not at all; non-trivial = stable case compared")
ASSUMPTIONS = ["equilibrated condition of regressors and instruments < 300, overall and in every regime", "tolerance = optimiser tolerance of the estimator + 100 x the response to noise of 1e-10",
               "Breusch-Pagan, Koenker-Bassett, White and multicollinearity measures depend on the origin of the regressors by definition and are compared under rescaling only"]
ALL = [k for k in zoo.ZOO]
LIN = [k for k, e in zoo.ZOO.items() if e.kind != "probit"]


def base(s):
    e, c, kw = meta.case(s)

    def fit(c):
        with series_ok(c.W):
            return e.call(c, **kw)
    with sut(s["e"]):
        f0 = meta.facts(fit(c))
        tol = meta.tolerances(fit, c, f0, max(e.tol, 1e-3) if "err gm" in e.kind else e.tol, probit=e.kind == "probit")
    if e.name.startswith("GM_Combo_Het"):      # the estimator limits rho to 0.9 at every step
        C = ref.const(c.x) if not kw.get("slx_lags") else ref.cat(ref.const(c.x), ref.lagpow(c.W, c.x, kw["slx_lags"]))
        rho = [abs(v) for k, v in f0.items() if k[0] == "coef" and k[1].endswith("W_yy")]
        L = kw.get("slx_lags", 0)
        q = ref.lagpow(c.W, c.x, L + 1)[:, L * c.k:]
        z = ref.cat(c.yend, c.W @ c.y) if e.endog else c.W @ c.y
        if e.endog:
            q = ref.cat(q, c.q, c.W @ c.q)
        first = ref.tsls(c.y, C, z, q).betas if not e.reg else np.zeros((1, 1))
        if max(rho) > 0.5 or abs(float(first[-1, 0])) > 0.75:
            raise Reject("rho may have been limited to 0.9 on the way")
    if "Endog_Error_Het" in s["e"]:      # known finding of P12: the last endogenous coefficient is limited to 0.9
        last = c["names"]["name_yend"][-1]
        if max(abs(v) for k, v in f0.items() if k[0] == "coef" and k[1].endswith(last)) >= 0.5 or s.get("target") == "yend":
            raise Reject("last endogenous coefficient may be limited to 0.9 (known finding of P12)")
    cn = dict(c["names"], prefixes=meta.prefixes(c))
    return e, c, fit, f0, tol, cn


def run_scale(s):
    e, c, fit, f0, tol, cn = base(s)
    c2 = c.copy()
    y, xs = 1.0, {}
    a = float(s["a"])
    t = s["target"]
    if t == "y" and e.kind == "probit":
        t = "x"
    if t in ("yend", "q", "all") and not e.endog:
        t = "y" if e.kind != "probit" else "x"
    if t in ("y", "all"):
        y = a
        c2["y"] = c.y * a
    if "Endog_Error_Het" in s["e"] and t in ("y", "all"):
        raise Reject("last endogenous coefficient may be limited to 0.9 (known finding of P12)")
    if t in ("x", "all"):
        j = s["col"] % c.k
        b = a if t == "x" else float(s["b"])
        c2["x"] = c.x.copy()
        c2["x"][:, j] *= b
        xs["x%d" % j] = b
    if t in ("yend", "all"):
        j = s["col"] % c.yend.shape[1]
        b = a if t == "yend" else float(s["b"])
        c2["yend"] = c.yend.copy()
        c2["yend"][:, j] *= b
        xs["e%d" % j] = b
    if t == "q":
        j = s["col"] % c.q.shape[1]
        c2["q"] = c.q.copy()
        c2["q"][:, j] *= a
    with sut(s["e"] + " in other units"):
        f1 = meta.facts(fit(c2))
    want = meta.scaled(f0, cn, y, xs, n=c.n)
    t2 = meta.tol_scaled(tol, f0, want)
    skip = []
    if t != "y":
        skip.append(("test", "mulColli"))       # computed on columns scaled to unit length: compared below
    meta.compare("%s, %s multiplied by %g" % (s["e"], t, a), f1, want, t2, skip=skip)
    if ("test", "mulColli") in f0 and abs(f1["test", "mulColli"] - f0["test", "mulColli"]) > 1e-6 * f0["test", "mulColli"]:
        raise Violation("%s: condition index changes with the units of measurement" % s["e"])
    return {"nontrivial": True, "labels": [s["e"], t]}


ORIGIN = [("test", "breusch_pagan"), ("test", "koenker_bassett"), ("test", "white"), ("test", "mulColli"), ("test", "vif"), ("imp",)]


def icept(v):
    return v == "CONSTANT" or v.endswith("_CONSTANT")


def run_shift(s):
    """a constant added to y (weights with unit row sums) or to a regressor moves the intercept only"""
    s["w"]["t"] = "r"
    e, c, fit, f0, tol, cn = base(s)
    if e.reg and "sep" in s["e"] and e.spatial and s["target"] == "y":
        pass        # within-regime weights are standardised again
    a = float(s["shift"])
    c2 = c.copy()
    target = s["target"] if e.kind != "probit" else "x"
    if target == "y":
        a *= float(np.std(c.y))
        c2["y"] = c.y + a
    else:
        j = s["col"] % c.k
        a *= float(np.std(c.x[:, j]))
        c2["x"] = c.x.copy()
        c2["x"][:, j] += a
    with sut(s["e"] + " after a shift"):
        f1 = meta.facts(fit(c2))

    def keep(k):
        if k[0] in ("coef", "se", "z", "p", "first"):
            return not icept(k[1]) or (target == "y" and k[0] == "se" and not e.lag)
        if k[0] == "vm":
            return not (icept(k[1]) or icept(k[2])) or (target == "y" and not e.lag)
        if k[0] in ("slope", "slopese"):
            return True
        if k[0] == "obs":
            return k[1] in ("u", "e_filtered", "e_pred", "u_naive", "u_gen", "phiy", "predybin") or target == "x" and k[1] != "xb"
        if k[0] == "test" and k[1] == "chow":
            return False
        if k == ("scalar", "mean_y"):
            return target == "x"
        if any(k[:len(q)] == q for q in ORIGIN):
            return target == "y" and k[0] != "imp"
        if k[:2] == ("df", "white"):
            return target == "y"
        return True
    g0, g1 = {k: v for k, v in f0.items() if keep(k)}, {k: v for k, v in f1.items() if keep(k)}
    r = 1.0
    # cancellation: the shifted data carry fewer digits
    t2 = {k: tol[k] * 3 + 1e-9 * (1 + abs(s["shift"])) ** 2 * meta.natural(f0, k) for k in g0}
    for k in g0:
        if k[0] == "vm" or k[0] == "se":
            t2[k] = t2[k] * (1 + abs(s["shift"]))
    meta.compare("%s, %g standard deviations added to %s" % (s["e"], s["shift"], target), g1, g0, t2)
    if target == "y":     # the intercept absorbs the shift
        rho = {k[1]: v for k, v in f0.items() if k[0] == "coef" and k[1].split("_", 1)[-1] in ("yy", "W_yy") or k[0] == "coef" and k[1].endswith("W_yy")}
        for k in f0:
            if k[0] == "coef" and icept(k[1]):
                pre = k[1][:-len("CONSTANT")]
                rr = 0.0
                if e.lag:
                    m = [v for q, v in rho.items() if q.startswith(pre) and pre or not pre and q == "W_yy"] or [v for q, v in rho.items() if q in ("_Global_W_yy", "W_yy")]
                    if len(m) != 1:
                        raise Violation("spatial coefficient of %s not found among %s" % (k[1], sorted(rho)))
                    rr = m[0]
                if e.lag and e.reg and "sep" not in s["e"] and not all(q in ("_Global_W_yy", "W_yy") for q in rho):
                    continue            # regime-specific lags of observations with neighbours in other regimes
                want = f0[k] + a * (1 - rr)
                tt = t2[("coef", k[1])] if ("coef", k[1]) in t2 else tol[k] * 3
                tt += abs(a) * sum(tol[q] for q in tol if q[0] == "coef" and q[1] in rho) * 3 + 1e-8 * (abs(a) + abs(want)) + 3 * e.tol * abs(a) * (1 if e.lag else 0)
                if not abs(f1[k] - want) <= tt:
                    raise Violation("%s: intercept %s = %.10g after adding %g to y, expected %.10g (tolerance %.2g)" % (s["e"], k[1], f1[k], a, want, tt))
    return {"nontrivial": True, "labels": [s["e"], target]}


# ------------------------------------------------------------------ systems and panels
def factors(f, mult, own):
    """multiply coefficients (and their errors, covariances) by mult[name], observation vectors and covariances of errors by own(key)"""
    out = {}
    for k, v in f.items():
        if k[0] in ("coef", "first"):
            out[k] = v * mult[k[1]]
        elif k[0] == "se":
            out[k] = v * abs(mult[k[1]])
        elif k[0] == "z":
            out[k] = v * np.sign(mult[k[1]])
        elif k[0] == "vm":
            out[k] = v * mult[k[1]] * mult[k[2]]
        else:
            out[k] = own(k, v)
    return out


def run_sys(s):
    cls = s["cls"]
    c, fit, names, f0, tol = sys_base(s)
    m, n = c.m, c.n
    a, r0 = float(s["a"]), s["col"] % m
    c2 = ref.NS(**c)
    nm = names(c)
    mult = {v: 1.0 for q in nm for v in q}
    yr = np.ones(m)
    if s["target"] == "y":
        c2.y = {r: v * (a if r == r0 else 1.0) for r, v in c.y.items()}
        yr[r0] = a
        for v in nm[r0]:
            mult[v] = 1.0 if v.endswith("|Wy") else a
    else:
        j = s["b"] % (c.X[r0].shape[1] - 1)
        c2.X = {r: v.copy() for r, v in c.X.items()}
        c2.X[r0][:, 1 + j] *= a
        mult[nm[r0][1 + j]] = 1 / a

    def own(k, v):
        if k[0] == "sig":
            return v * yr[k[1]] * yr[k[2]]
        if k[0] == "corr":
            return v * np.sign(yr[k[1]] * yr[k[2]])
        if k[0] == "obs":
            return v * yr[int(k[1][1:])]
        if k == ("scalar", "llik"):
            return v - n * np.log(np.abs(yr)).sum()
        return v
    with sut(cls + " in other units"):
        f1 = meta.sysfacts(fit(c2), names(c2))
    want = factors(f0, mult, own)
    t = meta.tol_scaled(tol, f0, want)
    meta.compare("%s, %s of equation %d multiplied by %g" % (cls, s["target"], r0, a), f1, want, t)
    return {"nontrivial": True, "labels": [cls + " " + s["target"]]}


def run_panel(s):
    cls = s["cls"]
    c, fit, nm, f0, tol = panel_base(s)
    a = float(s["a"])
    y, X = c.y, c.X
    mult = {k[1]: 1.0 for k in f0 if k[0] == "coef"}
    ya = 1.0
    fixed = ("W_yy", "lambda", "phi")
    if s["target"] == "y":
        y, ya = y * a, a
        for v in mult:
            mult[v] = 1.0 if v in fixed else a ** 2 if v in ("s_v", "s_1", "sigma2_u") else a
    else:
        j = s["b"] % c.k
        X = X.copy()
        X[:, j] *= a
        mult[c.nx[j]] = 1 / a

    def own(k, v):
        if k[0] == "obs":
            return v * ya
        if k[0] == "scalar":
            p = meta.SCALARS[k[1]]
            n = c.N * c.T
            if p in ("logll", "ic"):
                return v + (-n if p == "logll" else 2 * n) * np.log(abs(ya))
            return v * (abs(ya) if p == "abs" else ya ** p)
        return v
    with sut(cls + " in other units"):
        m1 = fit(y, X, c.w)
        f1 = meta.panfacts(m1, nm(m1))
    want = factors(f0, mult, own)
    t = meta.tol_scaled(tol, f0, want)
    skip = [("obs", "e_filtered")] if cls == "Panel_RE_Error" else []     # a triangular factor, known to be exact in P20
    sus, known = {}, []
    if cls == "Panel_RE_Lag":
        sus["lagre-vm"] = [k for k in want if k[0] in ("se", "z", "p", "vm")]
    for key, ks in sus.items():
        try:
            meta.compare(cls, {k: f1[k] for k in ks}, {k: want[k] for k in ks}, t)
        except Violation as v:
            known.append((key, str(v)))
        skip += ks
    meta.compare("%s, %s multiplied by %g" % (cls, s["target"], a), f1, want, t, skip=skip)
    return {"nontrivial": True, "labels": [cls + " " + s["target"]], "known": known}


def extra(f):
    return st.tuples(f(), st.fixed_dictionaries({"a": st.sampled_from(A), "b": st.integers(0, 5), "col": st.integers(0, 5), "target": st.sampled_from(["y", "x"])})).map(lambda t: dict(t[0], **t[1]))


_P = {"N": 16, "T": 3, "k": 2, "w": {"kind": "rook", "n": 16, "seed": 3, "t": "r", "ids": "int"}, "seed": 5, "xk": "normal", "mu": 0.7, "fe": False, "lam": 0.0, "rho": 0.3, "ys": 1.0,
      "noise": 1.0, "lay": "long", "named": False, "const": 0, "slx": 0, "sel": 0, "vm": False, "pseed": 0, "how": "units", "a": 100.0, "b": 0, "col": 0, "target": "y"}
PROBE = [dict(_P, cls="Panel_RE_Lag")]
AY = [1e-9, 1e8]
A = [100.0, 0.01, -1.0, 7.3, -0.2, 1000.0, 2.0, 0.001, 1e4]
SUBS = [
    Sub("scale", lambda: meta.spec(ALL, more={"a": st.sampled_from(A + AY), "b": st.sampled_from(A), "col": st.integers(0, 5), "target": st.sampled_from(["y", "y", "x", "x", "yend", "q", "all"])}),
        run_scale, quick=360, thorough=10000),
    Sub("shift", lambda: meta.spec(ALL, more={"shift": st.sampled_from([1.0, -3.0, 10.0, 50.0]), "col": st.integers(0, 5), "target": st.sampled_from(["y", "y", "x"])}), run_shift, quick=240, thorough=6000),
    Sub("systems", lambda: extra(strat_sys), run_sys, quick=100, thorough=3000),
    Sub("panels", lambda: extra(strat_panel), run_panel, quick=100, thorough=3000, probe=PROBE),
]

"""Specification searches."""
import contextlib
import io
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import gen, ref
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "specification searches"
RULE = ("designs x spatial processes (lag, error, WX and mixtures, also near the unit root) x weights x significance levels, fixed ones and ones placed between the p-values of the tests of the case so that every branch is "
        "reached x instrument lags x names x containers x finmod, mprint, latex; non-trivial = label, class, estimates and summary of the selected model compared with the decision rules applied to recomputed tests")
ASSUMPTIONS = ["no p-value within 1e-6 (relative) of the significance level", "the Lagrange multiplier tests come from a dense reference, the estimates that other steps rest on from fresh fits (judged by P08-P13, P05)"]

FUN = ["stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"]


def strat():
    return st.fixed_dictionaries({
        "w": gen.w_spec(n=st.integers(20, 64)), "d": gen.data_spec(k=st.integers(1, 3)), "f": st.sampled_from(FUN),
        "rho": st.sampled_from([0.0, 0.0, 0.3, 0.6, -0.4, 0.9]), "lam": st.sampled_from([0.0, 0.0, 0.4, 0.7, -0.5, 0.95]), "gam": st.sampled_from([0.0, 0.0, 0.7, 2.0]),
        "noise": st.sampled_from([0.3, 1.0, 3.0]), "p": st.one_of(st.sampled_from([0.01, 0.05, 0.1]), st.integers(0, 9)), "wl": st.sampled_from([2, 2, 1, 3]),
        "names": st.sampled_from(["both", "both", "none", "y", "x"]), "nw": st.booleans(), "box": st.sampled_from(["array", "array", "frame", "flat"]), "const": st.sampled_from([None, None, None, "first", "last"]),
        "fin": st.sampled_from([True, True, False]), "mp": st.booleans(), "latex": st.sampled_from([False, False, True]),
        "rob": st.sampled_from([None, None, None, "white"]), "s2": st.sampled_from([None, None, None, False])})


class Fits:
    """Fresh fits of the candidate models with the options of the case."""

    def __init__(self, a, kw, nm, wl):
        self.a, self.kw, self.nm, self.wl, self.memo = a, kw, nm, wl, {}

    def get(self, kind, slx=0, wy=False):
        import spreg
        key = (kind, slx, wy)
        if key not in self.memo:
            y, x, w = self.a
            kw = dict(self.kw, **self.nm)
            try:
                with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                    warnings.simplefilter("ignore")
                    if kind == "ols":
                        m = spreg.OLS(y, x, w=w, slx_lags=slx, spat_diag=True, **kw)
                    elif kind == "lag":
                        m = spreg.GM_Lag(y, x, w=w, slx_lags=slx, w_lags=self.wl, hard_bound=True, **kw)
                    elif wy:
                        m = spreg.GMM_Error(y, x, w=w, slx_lags=slx, add_wy=True, w_lags=self.wl, hard_bound=True, **kw)
                    else:
                        m = spreg.GMM_Error(y, x, w=w, slx_lags=slx, hard_bound=True, **kw)
                self.memo[key] = m
            except Exception as e:
                if "outside" not in str(e) and "bounds" not in str(e) and "converge" not in str(e):
                    raise
                self.memo[key] = None
        return self.memo[key]

    def ak(self, slx):
        """-> p-value, None when the lag model is out of bounds"""
        import spreg
        m = self.get("lag", slx)
        return None if m is None else float(np.squeeze(spreg.AKtest(m, self.a[2], case="gen").p))

    def z(self, m, k):
        """names and p-values of the spatial terms of a model, by name"""
        p = [float(v[1]) for v in m.z_stat]
        return np.array(p[1 + k:])


CH = lambda v, df: float(__import__("scipy").stats.chi2.sf(v, df))


def decide(f, F, lm, k, sig):
    """-> (label, what to fit or None, text of an abort or None). `sig(p)`: significant."""
    def lmtree(t, slx, names):
        """names: (none, lag, err, both) with the reasons appended by the caller"""
        e, l, re, rl = t
        if not sig(l) and not sig(e):
            return "ols", ""
        if sig(l) != sig(e):
            return ("lag", "") if sig(l) else ("err", "")
        if sig(rl) != sig(re):
            return ("lag", "r") if sig(rl) else ("err", "r")
        if sig(rl):
            a = F.ak(slx)
            if a is not None and sig(a):
                return "both", ""
            return ("lag", "_BR") if rl <= re else ("err", "_Br")
        return ("lag", "_Nr") if rl <= re else ("err", "_Nr")
    if f in ("stge_classic", "stge_pre"):
        slx = 0
        if f == "stge_pre" and sig(lm[0]["wx"]) and sig(lm[0]["rwx"]):
            slx = 1
        t = lm[slx]
        m, suf = lmtree((t["e"], t["l"], t["re"], t["rl"]), slx, None)
        if f == "stge_classic":
            lab = {"ols": "OLS", "lag": "LAG", "err": "ERROR", "both": "SARSAR"}[m] + suf
        else:
            lab = {"ols": ("OLS", "SLX"), "lag": ("LAG", "SDM"), "err": ("ERROR", "SLX-ERR"), "both": ("SARSAR", "GNS")}[m][slx]
        return lab, {"ols": ("ols", slx), "lag": ("lag", slx), "err": ("err", slx), "both": ("err", slx, True)}[m]
    if f == "stge_kb":
        t = lm[0]
        if not sig(t["dur"]):
            return "OLS", ("ols", 0)
        lab = {(1, 1): "SDM", (0, 1): "LAG", (1, 0): "SLX", (0, 0): "OLS"}[(int(sig(t["rwx"])), int(sig(t["rdl"])))]
        return lab, {"SDM": ("lag", 1), "LAG": ("lag", 0), "SLX": ("ols", 1), "OLS": ("ols", 0)}[lab]

    def step(args, stop, label):
        m = F.get(*args)
        if m is None:
            return None, stop
        return F.z(m, k), label
    if f == "gets_gns":
        z, _ = step(("err", 1, True), None, None)
        if z is None:
            return "Exception: GNS parameters out of bounds", None
        if all(sig(v) for v in z):
            return "GNS", ("err", 1, True)
        if not any(sig(v) for v in z):
            return "OLS", ("ols", 0)
        worst = int(np.argmax(z)) - len(z)
        if worst == -1:            # no lambda
            m = F.get("lag", 1)
            if m is None:
                return "Exception: SDM parameters out of bounds", None
            z = F.z(m, k)
            if all(sig(v) for v in z):
                return ("SDM", ("lag", 1)) if sig(float(np.squeeze(m.cfh_test[1]))) else ("ERROR", ("err", 0))
            if not any(sig(v) for v in z):
                return "OLS", ("ols", 0)
            return ("SLX", ("ols", 1)) if int(np.argmax(z)) == len(z) - 1 else ("LAG", ("lag", 0))
        if worst == -2:            # no lag of y
            m = F.get("err", 1)
            if m is None:
                return "Exception: SLX Error parameters out of bounds", None
            z = F.z(m, k)
            if all(sig(v) for v in z):
                return "SLX-ERR", ("err", 1)
            if not any(sig(v) for v in z):
                return "OLS", ("ols", 0)
            return ("SLX", ("ols", 1)) if int(np.argmax(z)) == len(z) - 1 else ("ERROR", ("err", 0))
        m = F.get("err", 0, True)  # no lags of x
        if m is None:
            return "Exception: SARSAR parameters out of bounds", None
        z = F.z(m, k)
        if all(sig(v) for v in z):
            return "SARSAR", ("err", 0, True)
        if not any(sig(v) for v in z):
            return "OLS", ("ols", 0)
        return ("LAG", ("lag", 0)) if int(np.argmax(z)) == len(z) - 1 else ("ERROR", ("err", 0))
    m = F.get("lag", 1)
    if m is None:
        return "Exception: SDM parameters out of bounds", None
    z = F.z(m, k)
    if all(sig(v) for v in z):
        if not sig(float(np.squeeze(m.cfh_test[1]))):
            return "ERROR", ("err", 0)
        return ("GNS", ("err", 1, True)) if sig(F.ak(1)) else ("SDM", ("lag", 1))
    if not any(sig(v) for v in z):
        return ("ERROR", ("err", 0)) if sig(lm[0]["e"]) else ("OLS", ("ols", 0))
    if int(np.argmax(z)) == len(z) - 1:
        return ("SLX-Err", ("err", 1)) if sig(lm[1]["e"]) else ("SLX", ("ols", 1))
    a = F.ak(0)
    if a is None:
        return "Exception: LAG parameters out of bounds", None
    return ("SARSAR", ("err", 0, True)) if sig(a) else ("LAG", ("lag", 0))


def run(s):
    import spreg
    w, W = gen.build_w(s["w"])
    n = W.shape[0]
    d = s["d"]
    k = int(d["k"])
    X = gen.x_matrix(n, k, d["x"], d["seed"])
    C = ref.const(X)
    if ref.cond(ref.cat(C, W @ X)) > 1e3:
        raise Reject("WX collinear")
    g = gen.rng(d["seed"], 271)
    sd = X.std(0)
    sd[sd == 0] = 1
    e = s["noise"] * g.standard_normal((n, 1))
    xb = 1 + (X / sd) @ g.uniform(0.5, 2, (k, 1)) + W @ (X / sd) @ (s["gam"] * g.uniform(0.5, 1.5, (k, 1)))
    y = np.linalg.solve(np.eye(n) - s["rho"] * W, xb + np.linalg.solve(np.eye(n) - s["lam"] * W, e)) * d["yscale"]
    nx = ["var%d" % (7 * j + 1) for j in range(k)]
    f = s["f"]
    names = s["names"]
    Xu, nu = X, list(nx)
    if s["const"] and s["box"] == "array":
        at = 0 if s["const"] == "first" else k
        Xu, nu = np.insert(X, at, 1.0, axis=1), nu[:at] + ["one"] + nu[at:]
    mk = lambda X_, nm: ((pd.DataFrame(y, columns=["yy"]) if names == "none" else pd.Series(y[:, 0], name="yy")), pd.DataFrame(X_, columns=nm)) if s["box"] == "frame" else (y[:, 0].copy() if s["box"] == "flat" else y.copy(), X_.copy())
    nmf = lambda nn: {**({"name_y": "crime"} if names in ("both", "y") else {}), **({"name_x": list(nn)} if names in ("both", "x") else {})}
    kw = {"latex": s["latex"]}
    if s["nw"]:
        kw.update(name_w="weights", name_ds="data")
    lm = []
    for slx in (0, 1):
        o = ref.lm_tests(y, ref.cat(C, W @ X) if slx else C, W)
        t = {"e": CH(o.lme, 1), "l": CH(o.lml, 1), "re": CH(o.rlme, 1), "rl": CH(o.rlml, 1)}
        if not slx:
            t.update(wx=CH(o.lmwx, k), dur=CH(o.lmspdurbin, k + 1), rwx=CH(o.rlmwx, k), rdl=CH(o.rlmdurlag, 1))
        lm.append(t)
    F = Fits(mk(X, nx) + (w,), kw, nmf(nx), s["wl"])
    # the p-values at play
    pv = list(lm[0].values()) + (list(lm[1].values()) if f != "stge_kb" else [])
    if f in ("gets_gns", "gets_sdm"):
        pv = [lm[0]["e"], lm[1]["e"]] if f == "gets_sdm" else []
        for a in ([("lag", 1)] if f == "gets_sdm" else [("lag", 1), ("err", 1), ("err", 0, True), ("err", 1, True)]):
            m = F.get(*a)
            if m is not None:
                pv += list(F.z(m, k))
                if a == ("lag", 1):
                    pv.append(float(np.squeeze(m.cfh_test[1])))
    if f != "stge_kb" and f != "gets_gns":
        pv += [a for a in (F.ak(0), F.ak(1)) if a is not None]
    pv = np.array(pv, float)
    if not np.all(np.isfinite(pv)):
        raise Reject("undefined p-value")
    p = s["p"]
    if isinstance(p, int):
        q = np.sort(np.append(pv, [1e-12, 0.999]))
        q = q[(q >= 1e-12) & (q <= 0.999)]
        mids = [float(np.sqrt(a * b)) for a, b in zip(q, q[1:]) if b > a * (1 + 1e-4)]
        by = {}                 # every outcome of the case is equally likely
        for v in mids:
            by.setdefault(decide(f, F, lm, k, lambda a: a < v)[0], []).append(v)
        vs = by[sorted(by)[p % len(by)]]
        p = vs[d["seed"] % len(vs)]
    if np.any(np.abs(pv - p) < 1e-6 * np.maximum(p, 1e-9)) or np.any(np.abs(pv - p) < 1e-10):
        raise Reject("p-value at the level")
    sig = lambda v: v < p
    lab, fit = decide(f, F, lm, k, sig)
    out = io.StringIO()
    yu, xu = mk(Xu, nu)
    with sut(f):
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opt = {**({"robust": s["rob"]} if s["rob"] else {}), **({"sig2n_k": s["s2"]} if s["s2"] is not None else {})}
            r = getattr(spreg, f)(yu, xu, w, w_lags=s["wl"], p_value=p, finmod=s["fin"], mprint=s["mp"], **opt, **kw, **nmf(nu))
    ok(isinstance(r, tuple) and len(r) == 2, "%s: did not return (result, final model)" % f)
    res, fin = r
    known = []
    if opt and fin is not False and type(fin).__name__ in ("OLS", "GM_Lag"):
        o_ = type(fin).__name__ == "OLS"
        if s["rob"] and getattr(fin, "robust", None) != s["rob"]:
            known.append(("spsearch-options", "robust=%r is ignored" % s["rob"]))
        elif s["s2"] is False and o_ and not np.isclose(fin.sig2, fin.sig2n, rtol=1e-9):
            known.append(("spsearch-options", "sig2n_k=False is ignored"))
        elif s["rob"] or o_:      # honoured: the decisions rest on other tests
            return {"labels": ["options"], "nontrivial": False}
    txt = out.getvalue()
    info = "%s at p=%.6g" % (f, p)
    want = None
    if fit is not None and s["fin"]:
        want = F.get(*fit)
        if want is None:
            ok(res.startswith(lab + " -- Exception"), "%s: result %r, expected %r with the final model out of bounds" % (info, res, lab))
            ok(fin is False, "%s: a final model is returned although its parameters are out of bounds" % info)
        else:
            same(info + ": result", res, lab)
    else:
        same(info + ": result", res, lab)
    if want is None:
        ok(fin is False, "%s: %r returned as the final model, expected False" % (info, fin))
    else:
        ok(fin is not False, "%s: no final model returned" % info)
        same(info + ": class", type(fin).__name__, type(want).__name__)
        if s["const"] and s["box"] == "array":   # a constant among the variables is dropped (and announced)
            eq(info + ": betas", fin.betas, want.betas, rtol=1e-7)
            eq_vm(info + ": vm", fin.vm, want.vm)
            same(info + ": name_x", list(fin.name_x), list(want.name_x))
        else:
            eq_result(fin, want, rtol=1e-8, what=info + ": ")
            same(info + ": summary", fin.summary, want.summary)
    if not s["mp"]:
        ok(not txt.strip() or res.startswith("Exception"), "%s: printed although mprint=False: %r" % (info, txt[:200]))
    elif s["fin"] and not res.startswith("Exception"):
        head = {"stge_classic": "STGE-Classic", "stge_kb": "STGE-KB", "stge_pre": "STGE-Pre", "gets_gns": "GETS-GNS", "gets_sdm": "GETS-SDM"}[f]
        if want is not None or "Exception" not in res or f != "gets_sdm":
            ok("Model selected by %s: %s" % (head, res) in txt, "%s: selection not printed: %r" % (info, txt[:200]))
        if want is not None:
            ok(fin.summary.strip() in txt, "%s: summary of the selected model not printed" % info)
    return {"labels": [f + ":" + res.split(" --")[0], "final" if want is not None else "nofinal"], "known": known, "nontrivial": True}


SUBS = [Sub("search", strat, run, quick=1600, thorough=24000)]

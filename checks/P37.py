"""Regimes estimated on several processes."""
import inspect
import multiprocessing as mp
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, zoo
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "Multiprocessing"
RULE = ("15 regimes estimators with a `cores` option x regime-separate errors and lags x 2-4 regimes x 1 process (True) or 2-3 processes x every other option (instruments, SLX selections, iterations, methods, robust, divisors, bounds, names, "
        "LaTeX, constants): every public attribute, including the separate models, and the summary against the run without multiprocessing; an error without must be an error with; non-trivial = models estimated separately and compared")
ASSUMPTIONS = ["equilibrated condition of every regime's regressors < 500"]
CLS = ["OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "GM_Error_Regimes", "GM_Endog_Error_Regimes", "GM_Combo_Regimes", "GM_Error_Hom_Regimes", "GM_Endog_Error_Hom_Regimes", "GM_Combo_Hom_Regimes",
       "GM_Error_Het_Regimes", "GM_Endog_Error_Het_Regimes", "GM_Combo_Het_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes"]
OPT = {"robust": [None, None, "white"], "slx_lags": [0, 0, 1], "w_lags": [1, 1, 2], "lag_q": [True, False], "max_iter": [1, 1, 2, 3], "epsilon": [None, None, 1e-2, 1e-1], "step1c": [False, True], "A1": ["hom_sc", "hom", "het"], "sig2n_k": [False, True],
       "method": ["full", "LU", "ord"], "hard_bound": [False] * 4 + [True], "spat_diag": [False, True], "vm": [False, True], "latex": [False, False, True], "inv_method": ["power_exp", "true_inv"], "add_lag": [False],
       "constant_regi": ["many"] * 9 + ["one"], "moran": [False, True], "white_test": [False, True], "vif": [False, True], "nonspat_diag": [True, False], "spat_impacts": ["simple", "full", None], "regime_lag_sep": [True, True, False]}


def strat():
    return st.fixed_dictionaries({
        "n": st.integers(44, 76), "w": gen.w_spec(n=20, transforms=("r", "r", "s")), "d": gen.data_spec(k=st.integers(1, 2), xkinds=["normal", "uniform", "corr", "dummy"]), "R": st.integers(2, 4), "m": st.sampled_from([1, 1, 2]),
        "extra": st.integers(0, 1), "cores": st.sampled_from([True, 2, 3]), "endog": st.booleans(), "named": st.booleans(), "opt": gen.SEED, "sel": st.booleans()})


def call(cls, a, kw, cores):
    import spreg
    me = mp.current_process()
    old = me._config.get("daemon")
    me._config["daemon"] = False       # a worker of this search may start processes of its own
    try:
        return getattr(spreg, cls)(*a, cores=cores, **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
    finally:
        me._config["daemon"] = old


def run(s):
    import spreg
    g = gen.rng(s["opt"], 371)
    cls = CLS[int(g.integers(0, len(CLS)))]
    par = inspect.signature(getattr(spreg, cls).__init__).parameters
    need = "yend" in par and par["yend"].default is inspect._empty
    endog = need or ("yend" in par and s["endog"])
    c = zoo.make(s, regimes=True, endog=endog, R=s["R"])
    kw = {}
    for o in sorted(OPT):
        if o in par:
            v = OPT[o][int(g.integers(0, len(OPT[o])))]
            if o != "epsilon" or v is not None:
                kw[o] = v
    if "regime_err_sep" in par:
        kw["regime_err_sep"] = bool(g.integers(0, 4)) or kw.get("regime_lag_sep", False)
    if cls == "GM_Lag_Regimes" and kw["regime_lag_sep"]:
        kw["regime_err_sep"] = True
    if kw.get("slx_lags") and "slx_vars" in par and s["sel"] and c.k > 1:
        kw["slx_vars"] = [True] + [False] * (c.k - 1)
    lab = np.array([str(v) for v in c.regimes])
    D = np.hstack([ref.const(c.x)] + ([c.W @ c.x] if kw.get("slx_lags") else []))
    kk = 2 * D.shape[1] + 3 + (s["m"] if endog else 0)
    for r in set(lab):
        if (lab == r).sum() < kk or ref.cond(D[lab == r]) > 500:
            raise Reject("ill-conditioned regime")
    if s["named"]:
        kw.update(name_y="yy", name_x=["x%d" % j for j in range(c.k)], name_regimes="zone", name_ds="data", name_w="weights")
        if endog:
            kw.update(name_yend=["e%d" % j for j in range(c.yend.shape[1])], name_q=["q%d" % j for j in range(c.q.shape[1])])
    a = [c.y, c.x]
    if endog:
        if need:
            a += [c.yend, c.q]
        else:
            kw.update(yend=c.yend, q=c.q)
    a.append(list(c.regimes))
    kw["w"] = c.w
    kw = {k: v for k, v in kw.items() if k in par}
    try:
        with sut(cls):
            want = call(cls, a, kw, False)
    except Violation as e:
        try:
            call(cls, a, kw, s["cores"])
        except Exception:
            return {"labels": ["both raise"], "nontrivial": False}
        raise Violation("%s(cores=%r) gives results where cores=False raises: %s" % (cls, s["cores"], e))
    with sut("%s(cores=%r)" % (cls, s["cores"])):
        got = call(cls, a, kw, s["cores"])
    eq_result(got, want, rtol=1e-9, what="%s(cores=%r): " % (cls, s["cores"]))
    same("%s(cores=%r): summary" % (cls, s["cores"]), got.summary, want.summary)
    multi = hasattr(want, "multi")
    if multi:
        same("regimes of multi", sorted(map(str, got.multi)), sorted(map(str, want.multi)))
        for r in want.multi:
            eq_result(got.multi[r], want.multi[r], rtol=1e-9, what="%s(cores=%r).multi[%r]: " % (cls, s["cores"], r))
    return {"labels": [cls, "separate" if multi else "pooled", str(s["cores"])], "nontrivial": multi}


SUBS = [Sub("cores", strat, run, quick=300, thorough=5000)]

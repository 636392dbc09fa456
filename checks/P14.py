"""OLS and 2SLS by regimes against regime-wise and interacted regressions."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, names, zoo, reg
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *

TITLE = "Regimes OLS and 2SLS"
RULE = ("2-4 regimes with string/int/float/bool labels in any order and container x constant and column options x separate errors x robust options x divisors "
        "x SLX x constant-within-regime columns; non-trivial = regimes interleaved or labels unsorted, compared with an independent dense regression")
ASSUMPTIONS = ["every regime has more observations than its coefficients and an equilibrated design condition < 500",
               "groupwise variances use the divisor n_r - k with k all reported coefficients (pinned by the existing tests)"]


def strat(endog):
    d = dict(reg.SPEC, **reg.OPTS, n=st.integers(40, 110), w=gen.w_spec(n=20, transforms=("r", "r", "s", "b")),
             d=gen.data_spec(k=st.integers(1, 4), xkinds=["normal", "uniform", "corr", "dummy", "scaled", "shifted"]),
             robust=st.sampled_from([None, None, "white", "hac"] + (["ogmm"] if endog else [])), sig=st.booleans(), ghet=st.booleans(),
             slx=st.sampled_from([0, 0, 0, 1, 2]), sel=st.integers(0, 15), named=st.booleans(), spat=st.booleans(), conreg=st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
             small=st.sampled_from([0, 0, 0, 0, 1]))
    if endog:
        d.update(m=st.sampled_from([1, 1, 2]), extra=st.integers(0, 2))
    return lambda: st.fixed_dictionaries(d)


def prepare(s, endog):
    reg.grow(s, 16)
    n, k = s["n"], int(s["d"]["k"])
    lab = reg.labels(s, n)
    w, W, D, t = reg.weights(s, n, lab)
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    if s["conreg"] == 4 and (endog or s["robust"] is not None):      # leverage of one: no robust variance
        s = dict(s, conreg=1)
    if s["conreg"] == 4:       # an indicator of one observation in each regime
        X[:, k - 1] = 0.0
        for q, mk in enumerate(reg.masks(lab)[r] for r in reg.order(lab)):
            at = np.nonzero(mk)[0]
            X[at[[0, -1, (s["sel"] * 7) % len(at)][(s["sel"] + q) % 3]], k - 1] = 1.0
    elif s["conreg"] and k > 1:
        for j in {1: [k - 1], 2: [0], 3: range(k - 1)}[s["conreg"]]:
            X[reg.masks(lab)[reg.order(lab)[(s["sel"] + j) % 2]], j] = 1.0 + j
    nx = ["x%d" % j for j in range(k)]
    b = ref.NS(n=n, k=k, lab=lab, w=w, W=W, X0=X, nx=nx)
    if endog:
        Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
        y = gen.gen_y(s["d"], X, W, Z=Ye) + u0 * s["d"]["yscale"]
    else:
        Ye = Q = np.zeros((n, 0))
        y = gen.gen_y(s["d"], X, W)
    b.y = reg.shift(s, y, X, lab)
    b.Ye, b.Q = Ye, Q
    b.yn, b.qn = ["e%d" % j for j in range(Ye.shape[1])], ["q%d" % j for j in range(Q.shape[1])]
    msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
    b.sel = msk if s["slx"] and any(msk) and not all(msk) else None
    sn = [v for v, c in zip(nx, msk) if c] if b.sel else nx
    base = {v: X[:, [j]] for j, v in enumerate(nx)}
    b.names = nx + names.lagnames(sn, s["slx"])
    b.X = np.hstack([names.col(v, base, W) for v in b.names])
    b.vary_x = reg.colmask(s, b.X.shape[1])
    b.vary_e = None
    if b.vary_x is not None:
        v = reg.colmask(s, b.X.shape[1] + Ye.shape[1])
        b.vary_x, b.vary_e = v[:b.X.shape[1]], v[b.X.shape[1]:]
    if b.vary_x is not None and s["const"] == "one" and not any(b.vary_x + b.vary_e):
        raise Reject("no coefficient varies by regime")
    b.allvary = (b.vary_x is None or all(b.vary_x + b.vary_e)) and s["const"] == "many"
    b.cols2regi = "all" if b.vary_x is None else list(b.vary_x + b.vary_e)
    if b.vary_x is None:
        b.vary_x, b.vary_e = [True] * b.X.shape[1], [True] * Ye.shape[1]
    b.K = zoo.kernel(n, s["d"]["seed"]) if s["robust"] == "hac" else None
    return b


def call(s, b, cls):
    import spreg
    kw = dict(robust=s["robust"], sig2n_k=s["sig"], constant_regi=s["const"], cols2regi=b.cols2regi if b.cols2regi == "all" else list(b.cols2regi),
              regime_err_sep=s["errsep"], slx_lags=s["slx"], w=b.w, spat_diag=s["spat"])
    if b.sel:
        kw["slx_vars"] = list(b.sel)
    if b.K is not None:
        kw["gwk"] = b.K
    if s["named"]:
        kw.update(name_y="yy", name_x=list(b.nx), name_regimes="zone")
    a = [b.y, b.X0]
    if b.Ye.shape[1]:
        a += [b.Ye, b.Q]
        if s["named"]:
            kw.update(name_yend=list(b.yn), name_q=list(b.qn))
    elif s["spat"]:
        kw["moran"] = True
    with sut(cls):
        return getattr(spreg, cls)(*a, reg.box(s, b.lab), **kw)


def kernel_ok(b, vm):
    return np.all(np.isfinite(vm)) and np.all(np.diag(vm) > 0)


def finish(s, b, m, what, betas, vm, u, nm, dist, k):
    se = np.sqrt(np.abs(np.diag(vm)))
    ys = np.abs(b.y).max()
    eq_coef(what + "betas", m.betas, betas, se, rtol=1e-7)
    eq_vm(what + "vm", m.vm, vm, rtol=1e-6)
    eq(what + "u", m.u, u, rtol=1e-8, scale=ys)
    eq(what + "predy", m.predy, b.y - u, rtol=1e-8, scale=ys)
    same(what + "n", m.n, b.n)
    same(what + "nr", m.nr, len(set(b.lab)))
    if hasattr(m, "multi"):
        return
    if kernel_ok(b, vm):
        inference(m, dist, what=what)
        if s["named"]:
            table(m, nm, dist=dist)
        else:
            table(m, dist=dist)
    if s["named"]:
        same(what + "names", list(getattr(m, "name_z", m.name_x)), nm)
    same(what + "k", m.k, k)


def order_multi(m, b, what):
    same(what + "regimes of multi", [str(v) for v in m.multi], reg.textset(b.lab))
    return [(r, m.multi[[q for q in m.multi if str(q) == t][0]], t) for r, t in zip(reg.order(b.lab), reg.textset(b.lab))]


def joined_table(what, s, m, nm, dist):
    """output of separate regressions: one block of rows per regime, in the order of betas"""
    o = m.output
    same(what + "rows", len(o), len(nm))
    if s["named"]:
        same(what + "row names", list(o["var_names"]), nm)
    b, se = arr(m.betas).ravel(), np.sqrt(np.diag(arr(m.vm)))
    eq(what + "table coefficients", o["coefficients"].astype(float).to_numpy(), b, rtol=1e-10, scale=0)
    eq(what + "table std_err", o["std_err"].astype(float).to_numpy(), se, rtol=1e-8, scale=0)
    eq(what + "table statistics", o["zt_stat"].astype(float).to_numpy(), b / se, rtol=1e-8, scale=0, atol=1e-10)


def run_ols(s):
    b = prepare(s, False)
    n, lab = b.n, b.lab
    X1 = ref.const(b.X)
    vary = [s["const"] == "many"] + b.vary_x
    nm = ["CONSTANT"] + b.names
    sep = s["errsep"] and s["robust"] != "hac" and b.allvary
    M = reg.masks(lab)
    labels = ["sep" if sep else "joint", str(s["robust"]), s["lab"], "slx%d" % s["slx"]]
    late = []
    if sep:
        drop = [j for j in range(1, X1.shape[1]) if any(np.ptp(X1[M[r], j]) == 0 for r in M)]
        X1 = np.delete(X1, drop, 1)
        nm = [v for j, v in enumerate(nm) if j not in drop]
        if X1.shape[1] < 2:
            raise Reject("nothing left")
        reg.enough(X1, lab, X1.shape[1] + 4)
        m = call(s, b, "OLS_Regimes")
        what = "OLS_Regimes(separate): "
        kr = X1.shape[1]
        B, V, U = [], np.zeros((kr * len(M),) * 2), np.zeros((n, 1))
        same(what + "warning about dropped variables", "constant for at least one" in str(getattr(m, "warning", "")) , bool(drop))
        for i, (r, mr, t) in enumerate(order_multi(m, b, what)):
            w_ = what + "regime %s: " % t
            o = ref.ols(b.y[M[r]], X1[M[r]], s["sig"])
            if s["robust"] == "white":
                o.vm = ref.white_vm(X1[M[r]], o.u, o.xtxi, dfc=kr if s["sig"] else False)
            B.append(o.betas)
            V[i * kr:(i + 1) * kr, i * kr:(i + 1) * kr] = o.vm
            U[M[r]] = o.u
            eq_coef(w_ + "betas", mr.betas, o.betas, np.sqrt(np.diag(o.vm)))
            eq_vm(w_ + "vm", mr.vm, o.vm)
            inference(mr, "t", what=w_)
            same(w_ + "n", mr.n, int(M[r].sum()))
            same(w_ + "k", mr.k, kr)
            eq(w_ + "r2", mr.r2, o.r2, rtol=1e-7, atol=1e-9)
            eq(w_ + "ar2", mr.ar2, o.ar2, rtol=1e-7, atol=1e-8)
            eq(w_ + "mean_y", mr.mean_y, b.y[M[r]].mean(), rtol=1e-9, atol=1e-12 * np.abs(b.y).max())
            eq(w_ + "F", mr.f_stat[0], o.f, rtol=1e-6)
            eq(w_ + "logll", mr.logll, o.logl, rtol=1e-8)
            eq(w_ + "aic", mr.aic, o.aic, rtol=1e-8)
            eq(w_ + "schwarz", mr.schwarz, o.sc, rtol=1e-8)
            eq(w_ + "Jarque-Bera", mr.jarque_bera["jb"], ref.jarque_bera(o.u), rtol=1e-6, atol=1e-9)
            kb, df, c = ref.koenker_bassett(o.u, X1[M[r]])
            if c < 1e4:
                eq(w_ + "Koenker-Bassett", mr.koenker_bassett["kb"], kb, rtol=1e-5, atol=1e-7)
                same(w_ + "Koenker-Bassett df", mr.koenker_bassett["df"], df)
            if s["named"]:
                same(w_ + "name_y", mr.name_y, "%s_yy" % t)
                same(w_ + "names", mr.name_x, ["%s_%s" % (t, v) for v in nm])
        same(what + "kr", m.kr, kr)
        same(what + "kf", m.kf, 0)
        full = ["%s_%s" % (t, v) for t in reg.textset(lab) for v in nm]
        finish(s, b, m, what, np.vstack(B), V, U, full, "t", kr)
        joined_table(what, s, m, full, "t")
        XI = reg.interact(X1, [True] * kr, lab)
    else:
        XI = reg.interact(X1, vary, lab)
        # the interacted design must be regular
        reg.enough(X1[:, np.array(vary)] if any(vary) else X1[:, :1], lab, 1 + sum(vary))
        if XI.shape[1] > n / 3 or ref.cond(XI) > 500:
            raise Reject("ill-conditioned interacted design")
        o = ref.ols(b.y, XI, s["sig"])
        k = XI.shape[1]
        gw = s["errsep"] and s["robust"] is None
        betas, vm, u = o.betas, o.vm, o.u
        if gw:
            labels[0] = "groupwise"
            wt = np.zeros((n, 1))
            for r in M:
                nr = int(M[r].sum())
                d = nr - k if s["sig"] else nr
                if d <= 0:
                    if s["small"]:
                        try:
                            m = call(s, b, "OLS_Regimes")
                        except Violation as e:
                            raise Violation(str(e), key="gwh-dof")
                        ok(np.all(np.isfinite(arr(m.betas))), "OLS_Regimes(groupwise): non-finite estimates when a regime has no more observations than the model has coefficients",
                           key="gwh-dof")
                    raise Reject("groupwise variance not defined")
                wt[M[r]] = 1 / np.sqrt(float((o.u[M[r]] ** 2).sum()) / d)
            o2 = ref.ols(b.y * wt, XI * wt, s["sig"])
            betas, vm, u = o2.betas, o2.vm, b.y - XI @ o2.betas
        elif s["robust"] == "white":
            vm = ref.white_vm(XI, o.u, o.xtxi, dfc=k if s["sig"] else False)
        elif s["robust"] == "hac":
            vm = ref.hac_vm(XI, o.u, ref.kernel_dense(b.K), o.xtxi)
        m = call(s, b, "OLS_Regimes")
        what = "OLS_Regimes(%s, robust=%s): " % (labels[0], s["robust"])
        full = reg.inames(nm, vary, lab)
        finish(s, b, m, what, betas, vm, u, full, "t", k)
        same(what + "kr", m.kr, sum(vary))
        same(what + "kf", m.kf, len(vary) - sum(vary))
        tss = float(((b.y - b.y.mean()) ** 2).sum())
        utu = float((u ** 2).sum())
        gk = "gwh-r2" if gw else None
        if gw:     # either the reported residuals or, as recorded, the first-step ones
            first = 1 - o.utu / tss
            if abs(m.r2 - first) > 1e-9 * (1 + abs(first)):
                eq(what + "r2", m.r2, 1 - utu / tss, rtol=1e-7, atol=1e-8)
            elif abs(first - (1 - utu / tss)) > 1e-6:
                late.append((what + "R2 is that of the first-step residuals", gk))
        else:
            eq(what + "r2", m.r2, 1 - utu / tss, rtol=1e-7, atol=1e-8)
            eq(what + "ar2", m.ar2, 1 - utu / tss * (n - 1) / (n - k), rtol=1e-7, atol=1e-8)
            eq(what + "F", m.f_stat[0], o.f, rtol=1e-6)
            eq(what + "logll", m.logll, o.logl, rtol=1e-8)
            eq(what + "aic", m.aic, o.aic, rtol=1e-8)
            eq(what + "sig2", m.sig2, o.sig2, rtol=1e-8)
    if s["spat"] and s["robust"] is None and (sep or not (s["errsep"])):
        lm = ref.lm_tests(b.y, XI, b.W)
        if ref.cond(XI) < 300:
            for at, v, df in (("lm_error", lm.lme, 1), ("lm_lag", lm.lml, 1), ("rlm_error", lm.rlme, 1), ("rlm_lag", lm.rlml, 1), ("lm_sarma", lm.sarma, 2)):
                if s["slx"] == 0:
                    has(m, at)
                    stat(what + at, getattr(m, at), v, df, rtol=1e-5, atol=1e-6)
            if s["slx"] == 0:
                eq(what + "Moran's I", m.moran_res[0], lm.I, rtol=1e-6, atol=1e-9)
                eq(what + "Moran's z", m.moran_res[1], lm.zI, rtol=1e-5, atol=1e-6)
                labels.append("spat")
    for msg, key in late:
        raise Violation(msg, key=key)
    return {"labels": labels, "nontrivial": s["lay"] != "sorted" or s["lab"] in ("unsorted", "mixedcase", "float")}


def run_tsls(s):
    b = prepare(s, True)
    n, lab = b.n, b.lab
    X1 = ref.const(b.X)
    M = reg.masks(lab)
    nm = ["CONSTANT"] + b.names
    sep = s["errsep"] and s["robust"] != "hac" and b.allvary
    labels = ["sep" if sep else "joint", str(s["robust"]), s["lab"], "slx%d" % s["slx"]]
    rob = s["robust"]
    if sep:
        drop = [j for j in range(1, X1.shape[1]) if any(np.ptp(X1[M[r], j]) == 0 for r in M)]
        X1 = np.delete(X1, drop, 1)
        nm = [v for j, v in enumerate(nm) if j not in drop]
        H = ref.cat(X1, b.Q)
        reg.enough(H, lab, H.shape[1] + 6, 200)
        m = call(s, b, "TSLS_Regimes")
        what = "TSLS_Regimes(separate, %s): " % rob
        kr = X1.shape[1] + b.Ye.shape[1]
        B, V, U = [], np.zeros((kr * len(M),) * 2), np.zeros((n, 1))
        for i, (r, mr, t) in enumerate(order_multi(m, b, what)):
            w_ = what + "regime %s: " % t
            o = ref.tsls(b.y[M[r]], X1[M[r]], b.Ye[M[r]], b.Q[M[r]], robust=rob, sig2n_k=s["sig"])
            if ref.cond(o.Zh) > 300:
                raise Reject("weak instruments")
            B.append(o.betas)
            V[i * kr:(i + 1) * kr, i * kr:(i + 1) * kr] = o.vm if rob != "ogmm" else ogmm_vm(o, s["sig"])
            U[M[r]] = o.u
            eq_coef(w_ + "betas", mr.betas, o.betas, np.sqrt(np.diag(o.vm)))
            inference(mr, "z", what=w_)
            same(w_ + "n", mr.n, int(M[r].sum()))
            eq(w_ + "pr2", mr.pr2, ref.pr2(b.y[M[r]], o.predy), rtol=1e-6, atol=1e-9)
            if s["named"]:
                same(w_ + "name_y", mr.name_y, "%s_yy" % t)
                same(w_ + "names", mr.name_z, ["%s_%s" % (t, v) for v in nm + b.yn])
                same(w_ + "instruments", mr.name_h, ["%s_%s" % (t, v) for v in nm + b.qn])
        same(what + "kr", m.kr, kr)
        full = ["%s_%s" % (t, v) for t in reg.textset(lab) for v in nm + b.yn]
        finish(s, b, m, what, np.vstack(B), V, U, full, "z", kr)
        joined_table(what, s, m, full, "z")
    else:
        vx = [s["const"] == "many"] + b.vary_x
        XI = reg.interact(X1, vx, lab)
        EI = reg.interact(b.Ye, b.vary_e, lab)
        QI = reg.interact(b.Q, [True] * b.Q.shape[1], lab)
        H = ref.cat(XI, QI)
        if H.shape[1] > n / 3 or ref.cond(H) > 200:
            raise Reject("ill-conditioned instruments")
        o = ref.tsls(b.y, XI, EI, QI, robust=rob, K=ref.kernel_dense(b.K) if b.K is not None else None, sig2n_k=s["sig"])
        if ref.cond(o.Zh) > 300:
            raise Reject("weak instruments")
        m = call(s, b, "TSLS_Regimes")
        what = "TSLS_Regimes(joint, %s): " % rob
        full = reg.inames(nm, vx, lab) + reg.inames(b.yn, b.vary_e, lab)
        finish(s, b, m, what, o.betas, o.vm if rob != "ogmm" else ogmm_vm(o, s["sig"]), o.u, full, "z", o.k)
        same(what + "kr", m.kr, sum(vx) + sum(b.vary_e))
        same(what + "kf", m.kf, len(vx) + len(b.vary_e) - m.kr)
        eq(what + "pr2", m.pr2, ref.pr2(b.y, o.predy), rtol=1e-6, atol=1e-9)
        if s["named"]:
            same(what + "instrument names", list(m.name_h), reg.inames(nm, vx, lab) + reg.inames(b.qn, [True] * len(b.qn), lab))
    return {"labels": labels, "nontrivial": s["lay"] != "sorted" or s["lab"] in ("unsorted", "mixedcase", "float")}


def ogmm_vm(o, sig):
    return o.vm


def probe(**kw):
    d = {"R": 4, "lab": "str", "lay": "cycle", "box": "list", "const": "many", "cols": 7, "errsep": True, "n": 52, "w": {"kind": "ring", "seed": 5, "n": 20, "t": "r", "ids": "int"},
         "d": {"rho": 0.0, "het": 0, "seed": 3, "k": 4, "lam": 0.0, "x": "normal", "noise": 1.0, "yscale": 1.0}, "robust": None, "sig": True, "ghet": False, "slx": 0, "sel": 0,
         "named": False, "spat": False, "conreg": 0, "small": 1}
    return dict(d, **kw)


SUBS = [Sub("wide", gen.wide(strat(False), n=(150, 300), more={"R": st.sampled_from([2, 3, 3, 4, 5, 6, 7])}), run_ols, quick=250, thorough=600),
        Sub("wide-tsls", gen.wide(strat(True), n=(150, 300), more={"R": st.sampled_from([2, 3, 3, 4, 5, 6, 7])}), run_tsls, quick=150, thorough=400),
        Sub("ols", strat(False), run_ols, quick=1200, thorough=20000, probe=[probe(), probe(n=80, sig=False, ghet=True)]), Sub("tsls", strat(True), run_tsls, quick=900, thorough=16000)]

"""ML lag and ML error by regimes against the interacted likelihood and within-regime fits."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, names, ml, reg
from vlib.core import Sub, sut, Reject, Violation
from vlib.cmp import *
from checks import P08

TITLE = "Regimes ML_Lag / ML_Error"
RULE = ("2-4 regimes with labels of every type x lag / error x constant/column options x common or separate spatial parameters x methods x SLX orders and selections; "
        "non-trivial = optimum of the interacted (or within-regime) likelihood located independently and every reported quantity compared")
ASSUMPTIONS = ["weights with spectral radius at most one", "with a common error process the variables are spatially filtered and then interacted by regime (the convention of the package)",
               "within-regime weights are connected by a ring added to each regime (no islands)", "equilibrated condition of the regressors < 1e3"]


def strat():
    return st.fixed_dictionaries(dict(
        reg.SPEC, **reg.OPTS, n=st.integers(40, 90), w=gen.w_spec(n=20, transforms=("r", "r", "r", "s")), est=st.sampled_from(["lag", "error"]),
        d=gen.data_spec(k=st.integers(1, 3), rho=st.sampled_from([0.0, 0.3, 0.6, 0.9, -0.4]), xkinds=["normal", "uniform", "corr", "scaled", "shifted"]),
        method=st.sampled_from(["full", "LU", "ord", "FULL", "Lu", "ORD"]), slx=st.sampled_from([0, 0, 0, 1, 2]), sel=st.integers(0, 15), vm=st.booleans(), diag=st.booleans(),
        ghet=st.booleans(), conreg=st.sampled_from([0, 0, 0, 1])))


def prepare(s):
    reg.grow(s, 14)
    n, k = s["n"], int(s["d"]["k"])
    lab = reg.labels(s, n)
    w, W, D, t = reg.weights(s, n, lab)
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    if s["conreg"] and k > 1:
        X[reg.masks(lab)[reg.order(lab)[0]], k - 1] = 1.0
    b = ref.NS(n=n, k=k, lab=lab, w=w, W=W, X0=X, nx=["x%d" % j for j in range(k)])
    b.Wr = gen.transform_dense(reg.within(D, lab), t) if t != "o" else reg.within(D, lab)
    y = gen.gen_y(s["d"], X, W)
    b.y = reg.shift(s, y, X, lab)
    msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
    b.sel = msk if s["slx"] and any(msk) and not all(msk) else None
    b.names = b.nx + names.lagnames([v for v, c in zip(b.nx, msk) if c] if b.sel else b.nx, s["slx"])
    base = {v: X[:, [j]] for j, v in enumerate(b.nx)}
    b.nm = ["CONSTANT"] + b.names
    b.X = np.hstack([names.col(v, base, W) for v in b.nm])
    vary = reg.colmask(s, len(b.names))
    if s["errsep"]:
        vary, s["const"] = None, "many"
    b.cols2regi = "all" if vary is None else list(vary)
    b.vx = [s["const"] == "many"] + (vary or [True] * len(b.names))
    if not any(b.vx):
        raise Reject("no coefficient varies by regime")
    return b


def call(s, b):
    import spreg
    kw = dict(w=b.w, slx_lags=s["slx"], method=s["method"], constant_regi=s["const"], cols2regi=b.cols2regi if b.cols2regi == "all" else list(b.cols2regi),
              vm=s["vm"], name_y="yy", name_x=list(b.nx), name_regimes="zone")
    if b.sel:
        kw["slx_vars"] = list(b.sel)
    if s["est"] == "lag":
        kw.update(regime_lag_sep=s["errsep"], spat_diag=s["diag"], spat_impacts=None)
    else:
        kw.update(regime_err_sep=s["errsep"])
    cls = "ML_Lag_Regimes" if s["est"] == "lag" else "ML_Error_Regimes"
    with sut(cls):
        return getattr(spreg, cls)(b.y, b.X0, reg.box(s, b.lab), **kw)


def judge(what, s, m, y, XX, W, WX, nm):
    """one estimated likelihood model; WX: what the package takes for the lag of the regressors"""
    n, k = XX.shape
    lag = s["est"] == "lag"
    D = ml.Lag(y, XX, W) if lag else ml.Err(y, XX, W, WX)
    bb = arr(m.betas).reshape(-1, 1)
    same(what + "number of coefficients", len(bb), k + 1)
    p = float(bb[-1, 0])
    noise = 0.0
    if not lag:
        Xl, yl = D.fit(p)[2], y - p * D.Wy
        if ref.cond(Xl) > 1e3:
            raise Reject("ill-conditioned filtered regressors")
        noise = n * 2e-15 * ref.cond(Xl) ** 2 * float((yl ** 2).sum()) / (n * D.s2(p))
    P08.check_opt(m, p, D, what + "parameter", noise)
    r = D.at(p)
    if s.get("only") == "sig2":
        # is the reported sigma-squared the one at the optimum of the likelihood (and not that of another residual)?
        u = y - XX @ bb[:-1]
        e = u - p * (W @ u)
        try:
            eq(what + "sig2", m.sig2, r.s2, rtol=1e-6)
        except Violation as v:
            eq(what + "sig2", m.sig2, float((e * e).sum()) / n, rtol=1e-6)
            raise Violation(str(v), key="ml-filter")
        return
    if WX is not None and not lag:
        # common error process: sigma-squared is the mean square of the filtered residuals (known finding ml-filter)
        u = y - XX @ r.b
        r = D.at(p, s2=float(((u - p * (W @ u)) ** 2).sum()) / n)
    ys = float(np.abs(y).max())
    se = np.sqrt(np.diag(r.vm))
    eq_coef(what + "betas", bb, np.vstack([r.b, [[p]]]), se.reshape(-1, 1), rtol=1e-6)
    eq(what + "u", m.u, r.u, rtol=1e-6, scale=ys)
    eq(what + "predy", m.predy, y - r.u, rtol=1e-6, scale=ys)
    eq(what + "sig2", m.sig2, r.s2, rtol=1e-6)
    eq(what + "logll", m.logll, r.ll, rtol=1e-8, atol=1e-7 + noise)
    kk = k + 1 if lag else k
    eq(what + "aic", m.aic, 2 * kk - 2 * r.ll, rtol=1e-7, atol=1e-6 + 2 * noise)
    eq(what + "schwarz", m.schwarz, kk * np.log(n) - 2 * r.ll, rtol=1e-7, atol=1e-6 + 2 * noise)
    eq(what + "pr2", m.pr2, ref.pr2(y, y - r.u), rtol=1e-4, atol=1e-6)
    same(what + "k, n", (m.k, m.n), (kk, n))
    same(what + "names", list(m.name_x), nm)
    inference(m, "z", what=what)
    tail = 1e-6 / max(1e-3, 1 - abs(p))
    if lag:
        eq(what + "rho", m.rho, bb[-1])
        eq(what + "predy_e", m.predy_e, r.ph, rtol=1e-6, scale=np.abs(r.ph).max(), atol=tail)
        eq(what + "e_pred", m.e_pred, y - r.ph, rtol=1e-6, scale=np.abs(r.ph).max() + ys, atol=tail)
        if np.abs(r.ph - r.ph.mean()).max() > 1e3 * tail:
            eq(what + "pr2_e", m.pr2_e, ref.pr2(y, m.predy_e), rtol=1e-5, atol=1e-6)
    else:
        eq(what + "lam", m.lam, bb[-1])
        eq(what + "e_filtered", m.e_filtered, (y - XX @ bb[:-1]) - p * (W @ (y - XX @ bb[:-1])), rtol=1e-6, scale=ys)
    if 1 - abs(p) < 1e-4:
        return
    if lag:
        P08.vmcheck(m, r, s, W, D, p, tail)
        return
    eq_vm(what + "vm of the coefficients", arr(m.vm)[:-1, :-1], r.vm[:-1, :-1], rtol=1e-5)
    eq(what + "cov of the coefficients and lambda", arr(m.vm)[:-1, -1], 0 * arr(m.vm)[:-1, -1])
    eq(what + "variance of lambda in vm and vm1", arr(m.vm)[-1, -1], arr(m.vm1)[0, 0], rtol=1e-12)
    try:
        eq_vm(what + "vm1", m.vm1, r.vm1, rtol=1e-5)
    except Violation as v:
        if s["method"].upper() != "ORD":
            raise
        q = ml.Err(y, XX, W, WX)
        q.W = P08.symmetric_twin(W)
        eq_vm(what + "vm1", m.vm1, np.array(q.at(p, s2=r.s2).vm1), rtol=1e-5)
        raise Violation(str(v), key="ord-vm")


def strat2():
    return st.builds(lambda s: dict(s, est="error", errsep=False, only="sig2"), strat())


def run(s):
    b = prepare(s)
    n, lab, y = b.n, b.lab, b.y
    M = reg.masks(lab)
    lag = s["est"] == "lag"
    last = "W_yy" if lag else "lambda"
    ordvm = None
    labels = [s["est"], "separate" if s["errsep"] else "common", s["method"].upper(), "slx%d" % s["slx"], s["lab"]]
    what = "%s(%s): " % ("ML_Lag_Regimes" if lag else "ML_Error_Regimes", labels[1])
    if not s["errsep"]:
        XI = reg.interact(b.X, b.vx, lab)
        if XI.shape[1] > n / 3 or ref.cond(XI) > 1e3:
            raise Reject("ill-conditioned")
        full = reg.inames(b.nm, b.vx, lab) + ["_Global_W_yy" if lag else "lambda"]
        m = call(s, b)
        same(what + "nr, kr, kf", (m.nr, m.kr, m.kf), (len(M), sum(b.vx), len(b.vx) - sum(b.vx) + 1))
        table(m, full)
        judge(what, s, m, y, XI, b.W, reg.interact(b.W @ b.X, b.vx, lab), full)
        return {"labels": labels}
    X, nm = b.X, b.nm
    drop = [j for j in range(1, X.shape[1]) if any(np.ptp(X[M[r], j]) == 0 for r in M)]
    if drop and s["slx"]:
        raise Reject("selection of constant columns")
    X, nm = np.delete(X, drop, 1), [v for j, v in enumerate(nm) if j not in drop]
    for r in M:
        if M[r].sum() < b.X.shape[1] + 6 or ref.cond(X[M[r]]) > 1e3:
            raise Reject("ill-conditioned")
    m = call(s, b)
    T, k = reg.textset(lab), X.shape[1]
    same(what + "regimes of multi", [str(v) for v in m.multi], T)
    same(what + "nr, kr, kf", (m.nr, m.kr, m.kf), (len(M), k + 1, 0))
    V = np.zeros(((k + 1) * len(M),) * 2)
    cols = {a: np.zeros((n, 1)) for a in ("u", "predy") + (("predy_e", "e_pred") if lag else ("e_filtered",))}
    B = []
    for i, (r, t) in enumerate(zip(reg.order(lab), T)):
        q = [v for c, v in m.multi.items() if str(c) == t][0]
        Wi = b.Wr[np.ix_(M[r], M[r])]
        try:
            judge(what + "regime %s: " % t, s, q, y[M[r]], X[M[r]], Wi, Wi @ X[M[r]], ["%s_%s" % (t, v) for v in nm + [last]])
        except Violation as v:
            if v.key != "ord-vm":
                raise
            ordvm = v
        B.append(arr(q.betas).reshape(-1, 1))
        V[i * (k + 1):(i + 1) * (k + 1), i * (k + 1):(i + 1) * (k + 1)] = q.vm
        for a in cols:
            cols[a][M[r]] = arr(getattr(q, a)).reshape(-1, 1)
    eq(what + "betas", m.betas, np.vstack(B), rtol=1e-12)
    eq(what + "vm", m.vm, V, rtol=1e-12, atol=1e-300)
    for a, v in cols.items():
        eq(what + a + " in original order", getattr(m, a), v, rtol=1e-12)
    same(what + "rows of the table", list(m.output["var_names"]), ["%s_%s" % (t, v) for t in T for v in nm + [last]])
    eq(what + "table coefficients", m.output["coefficients"].astype(float).to_numpy(), arr(m.betas).ravel(), rtol=1e-10)
    if ordvm:
        raise ordvm
    return {"labels": labels + ["dropped"] * bool(drop)}


BASE = {'R': 2, 'lab': 'bool', 'lay': 'mix', 'box': 'list', 'const': 'many', 'cols': 0, 
        'errsep': False, 'n': 40, 'w': {'kind': 'rook', 'n': 20, 'seed': 0, 't': 'r', 'ids': 'int'}, 'est': 'lag', 
        'd': {'k': 1, 'x': 'normal', 'seed': 0, 'rho': 0.0, 'lam': 0.0, 'het': 0, 'noise': 1.0, 'yscale': 1.0}, 'method': 'ord', 'slx': 0, 'sel': 0, 'vm': False, 'diag': False, 'ghet': False, 
        'conreg': 0}

SUBS = [Sub("wide", gen.wide(strat, n=(120, 220), ks=(5, 8), more={"R": st.sampled_from([2, 3, 3, 4, 5, 6, 7])}), run, quick=150, thorough=400),
        Sub("reference", strat, run, quick=1000, thorough=15000, probe=[BASE]),
        Sub("sig2", strat2, run, quick=40, thorough=400, probe=[dict(BASE, est="error", method="full", only="sig2")])]

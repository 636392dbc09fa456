"""GMM spatial error models by regimes against interacted and separate estimation."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, names, gmm, reg
from vlib import gmmcheck as gc
from vlib.core import Sub, sut, series_ok, Reject, Violation
from vlib.cmp import *
from checks import P10, P11, P12

TITLE = "Regimes GMM error models"
RULE = ("2-4 regimes with labels of every type x KP98 / homoskedastic / heteroskedastic x exogenous, endogenous, spatial-lag models x constant/column options x common or separate "
        "error processes x iterations, moment variants, step 1c x SLX; non-trivial = lambda, coefficients and covariance judged as in P10-P12 on the interacted design or within each regime")
ASSUMPTIONS = ["with a common error process the variables are spatially filtered and then interacted by regime (the convention of the package)",
               "within-regime weights are connected by a ring added to each regime (no islands)", "equilibrated condition of the instruments < 500, of the regressors < 300",
               "lambda accepted within the precision of a numerical-gradient quasi-Newton search"]
CLS = {"exog": "GM_Error%s_Regimes", "endog": "GM_Endog_Error%s_Regimes", "combo": "GM_Combo%s_Regimes", "combo_end": "GM_Combo%s_Regimes"}


def strat():
    return st.fixed_dictionaries(dict(
        reg.SPEC, **reg.OPTS, n=st.integers(70, 130), w=gen.w_spec(n=20, transforms=("r", "r", "s")), est=st.sampled_from(["exog", "exog", "endog", "combo", "combo_end"]),
        fam=st.sampled_from(["", "_Hom", "_Het"]), d=gen.data_spec(k=st.integers(1, 2), xkinds=["normal", "uniform", "corr", "scaled", "shifted"]), m=st.sampled_from([1, 1, 2]),
        extra=st.integers(0, 1), wl=st.sampled_from([1, 1, 2]), lagq=st.booleans(), slx=st.sampled_from([0, 0, 0, 1, 1, 2]), sel=st.integers(0, 15), vm=st.booleans(), ghet=st.booleans(),
        conreg=st.sampled_from([0, 0, 0, 1]), A1=st.sampled_from(["hom_sc", "hom", "het"]), iters=st.sampled_from([1, 1, 2, 3]), eps=st.sampled_from([None, None, 1e-3, 0.05]),
        step1c=st.booleans(), inv=st.sampled_from(["power_exp", "true_inv"])))


def prepare(s):
    reg.grow(s, 20)
    n, k = s["n"], int(s["d"]["k"])
    lab = reg.labels(s, n)
    w, W, D, t = reg.weights(s, n, lab)
    s["d"]["noise"] = min(s["d"]["noise"], 1.0)
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    if s["conreg"] and k > 1:
        X[reg.masks(lab)[reg.order(lab)[0]], k - 1] = 1.0
    b = ref.NS(n=n, k=k, lab=lab, w=w, W=W, X0=X, nx=["x%d" % j for j in range(k)])
    b.Wr = gen.transform_dense(reg.within(D, lab), t) if t != "o" else reg.within(D, lab)
    if s["est"] in ("endog", "combo_end"):
        b.Ye, b.Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
        y = gen.gen_y(s["d"], X, W, Z=b.Ye) + u0 * s["d"]["yscale"]
        b.Ye = b.Ye * 4.0 * s["d"]["yscale"]
    else:
        b.Ye = b.Q = np.zeros((n, 0))
        y = gen.gen_y(s["d"], X, W)
    b.y = reg.shift(s, y, X, lab)
    b.yn, b.qn = ["e%d" % j for j in range(b.Ye.shape[1])], ["q%d" % j for j in range(b.Q.shape[1])]
    b.combo = s["est"].startswith("combo")
    msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
    b.sel = msk if s["slx"] and s["est"] == "exog" and any(msk) and not all(msk) else None
    b.names = b.nx + names.lagnames([v for v, c in zip(b.nx, msk) if c] if b.sel else b.nx, s["slx"])
    b.vary = reg.colmask(s, len(b.names) + len(b.yn))
    if s["errsep"]:
        b.vary, s["const"] = None, "many"
    b.cols2regi = "all" if b.vary is None else list(b.vary)
    if b.vary is None:
        b.vary = [True] * (len(b.names) + len(b.yn))
    b.vx, b.ve = [s["const"] == "many"] + b.vary[:len(b.names)], b.vary[len(b.names):]
    if not any(b.vx + b.ve):
        raise Reject("no coefficient varies by regime")
    return b


def columns(L, b, W):
    base = {v: b.X0[:, [j]] for j, v in enumerate(b.nx)}
    base.update({v: b.Ye[:, [j]] for j, v in enumerate(b.yn)})
    base.update({v: b.Q[:, [j]] for j, v in enumerate(b.qn)})
    base["yy"] = b.y
    return ref.cat(*[names.col(v, base, W) for v in L]) if L else np.zeros((b.n, 0))


def caller(s, b):
    import spreg
    memo = {}

    def f(cls, **kw):
        key = repr(sorted(kw.items()))
        if key not in memo:
            k2 = dict(kw, w=b.w, slx_lags=s["slx"], vm=s["vm"], constant_regi=s["const"], cols2regi=b.cols2regi if b.cols2regi == "all" else list(b.cols2regi),
                      regime_err_sep=s["errsep"], name_y="yy", name_x=list(b.nx), name_regimes="zone")
            if b.sel:
                k2["slx_vars"] = list(b.sel)
            a = [b.y, b.X0]
            if s["est"] == "endog":
                a += [b.Ye, b.Q]
            a += [reg.box(s, b.lab)]
            if b.yn:
                k2.update(name_yend=list(b.yn), name_q=list(b.qn))
            if s["est"] == "combo_end":
                k2.update(yend=b.Ye, q=b.Q)
            if b.combo:
                k2.update(w_lags=s["wl"], lag_q=s["lagq"], regime_lag_sep=s["errsep"])
            with series_ok(b.Wr if s["errsep"] else b.W), sut(cls):
                memo[key] = getattr(spreg, cls)(*a, **k2)
        return memo[key]
    return f


JUDGE = {"": lambda s, b, cls: P10.judge(cls + ": ", s, b, b.call(cls)), "_Hom": lambda s, b, cls: P11.judge(s, b, cls), "_Het": lambda s, b, cls: P12.judge(s, b, cls)}


def residuals(what, b, m):
    """identities linking the reported coefficients, predictions and residuals"""
    bb = arr(m.betas).reshape(-1, 1)
    kz = b.Z.shape[1]
    lam, ysc = float(bb[-1, 0]), np.abs(b.y).max() + np.abs(b.Z * bb[:kz].ravel()).max()
    u = b.y - b.Z @ bb[:kz]
    eq(what + "predy", m.predy, b.Z @ bb[:kz], rtol=1e-9, scale=ysc)
    eq(what + "u", m.u, u, rtol=1e-9, scale=ysc)
    eq(what + "e_filtered", m.e_filtered, u - lam * (b.W @ u), rtol=1e-9, scale=ysc)
    eq(what + "pr2", m.pr2, ref.pr2(b.y, b.Z @ bb[:kz]), rtol=1e-6, atol=1e-9)
    inference(m, "z", what=what)
    same(what + "n, k", (m.n, m.k), (b.n, kz))
    if b.combo:
        rho = float(bb[kz - 1, 0])
        eq(what + "rho", m.rho, rho, rtol=1e-12)
        if abs(rho) < 1:
            xb = b.Z @ bb[:kz] - rho * b.Wy
            ph = np.linalg.solve(np.eye(b.n) - rho * b.W, xb)
            sc = max(np.abs(ph).max(), ysc)
            eq(what + "reduced-form prediction", m.predy_e, ph, rtol=1e-6, scale=sc)
            eq(what + "prediction error", m.e_pred, b.y - ph, rtol=1e-6, scale=sc)
            eq(what + "pr2_e", m.pr2_e, ref.pr2(b.y, ph), rtol=1e-5, atol=1e-7)


def design(s, b, W, WL, nm, nxi):
    """X, endogenous, instruments (arrays and names); WL: weights of the lag and its instruments"""
    X = columns(nm, b, W)
    en = b.yn + (["W_yy"] if b.combo else [])
    E = columns(b.yn, b, None) if not b.combo else ref.cat(columns(b.yn, b, None), WL[0] @ b.y)
    qn = list(b.qn)
    if b.combo:
        for p in range(1, s["wl"] + 1):
            qn += names.lagnames(nxi, 1, s["slx"] + p) + (names.lagnames(b.qn, 1, p) if s["lagq"] else [])
    return X, E, en, columns(qn, b, WL[1]), qn


def run(s):
    b = prepare(s)
    lab, n = b.lab, b.n
    M = reg.masks(lab)
    cls = CLS[s["est"]] % s["fam"]
    f = caller(s, b)
    labels = [s["est"] + s["fam"], "separate" if s["errsep"] else "common", "slx%d" % s["slx"], s["lab"]]
    nm = ["CONSTANT"] + b.names
    if not s["errsep"]:
        X, E, en, Q, qn = design(s, b, b.W, (b.W, b.W), nm, b.nx)
        ve = b.ve + ([False] if b.combo else [])
        QI = reg.interact(Q, [True] * Q.shape[1], lab) if Q.shape[1] else Q
        H = None if s["est"] == "exog" else ref.cat(reg.interact(X, b.vx, lab), QI)
        g = ref.NS(n=n, y=b.y, W=b.W, H=H, clamped=False, combo=b.combo, pin1c=s["est"] != "exog", call=f, default_A1="het")
        g.reg = gmm.RegI(b.y, X, b.vx, E, ve, lab, b.W, H)
        g.Z = g.reg.Z
        g.Wy = b.W @ b.y
        full = reg.inames(nm, b.vx, lab) + reg.inames(en, ve, lab) + ["lambda"]
        hn = reg.inames(nm, b.vx, lab) + reg.inames(qn, [True] * len(qn), lab)

        def props(what, s_, b_, m):
            residuals(what, g, m)
            same(what + "nr, kr, kf", (m.nr, m.kr, m.kf), (len(M), sum(b.vx) + sum(ve), len(b.vx) + len(ve) + 1 - sum(b.vx) - sum(ve)))
            same(what + "names", list(getattr(m, "name_z", m.name_x)), full)
            if H is not None:
                same(what + "instrument names", sorted(m.name_h), sorted(hn))
            table(m, full)
            eq(what + "mean_y", m.mean_y, b.y.mean(), rtol=1e-9, atol=1e-12 * np.abs(b.y).max())
        g.props = props
        limits(g, n)
        out = JUDGE[s["fam"]](s, g, cls)
        if g.get("differ"):
            raise Violation("%s: with step1c the first iteration filters by the unweighted lambda" % cls, key="step1c-filter")
        return {"labels": labels, "nontrivial": True}
    # ---- separate processes
    X = columns(nm, b, b.W)
    drop = [j for j in range(1, X.shape[1]) if any(np.ptp(X[M[r], j]) == 0 for r in M)]
    if drop and s["slx"]:
        raise Reject("selection of constant columns")
    nm = [v for j, v in enumerate(nm) if j not in drop]
    nxi = [v for v in b.nx if v in nm]
    X, E, en, Q, qn = design(s, b, b.W, (b.Wr, b.Wr if s["slx"] == 0 else b.W), nm, nxi)
    H = None if s["est"] == "exog" else ref.cat(X, Q)
    kz = X.shape[1] + E.shape[1]
    parts = []
    for r, t in zip(reg.order(lab), reg.textset(lab)):
        i = np.nonzero(M[r])[0]
        Wi = b.Wr[np.ix_(i, i)]
        g = ref.NS(n=len(i), y=b.y[i], W=Wi, H=None if H is None else H[i], Z=ref.cat(X[i], E[i]), combo=b.combo, t=t, i=i, default_A1="het", Wy=Wi @ b.y[i])
        g.reg = gmm.Reg(g.y, g.Z, Wi, g.H)
        g.call = (lambda t: lambda c, **kw: [m for v, m in f(c, **kw).multi.items() if str(v) == t][0])(t)
        full = ["%s_%s" % (t, v) for v in nm + en + ["lambda"]]

        def props(what, s_, g_, m, full=full, t=t):
            what = what + "regime %s: " % t
            residuals(what, g_, m)
            same(what + "names", list(getattr(m, "name_z", m.name_x)), full)
            if g_.H is not None:
                same(what + "instrument names", sorted(m.name_h), sorted("%s_%s" % (t, v) for v in nm + qn))
        g.props = props
        limits(g, len(i))
        parts.append(g)
    for g in parts:
        JUDGE[s["fam"]](s, g, cls)
    kw = {"": {}, "_Hom": dict(A1=s["A1"], max_iter=1), "_Het": dict(max_iter=1, **({"step1c": True} if s["step1c"] else {}), **(
        {"inv_method": s["inv"]} if s["step1c"] and s["est"] != "exog" else {}))}[s["fam"]]
    m = f(cls, **kw)
    what = cls + " (separate): "
    same(what + "regimes of multi", [str(v) for v in m.multi], reg.textset(lab))
    mm = [g.call(cls, **kw) for g in parts]
    same(what + "nr", m.nr, len(M))
    eq(what + "betas", m.betas, np.vstack([arr(q.betas) for q in mm]), rtol=1e-12)
    kv = arr(mm[0].vm).shape[0]
    V = np.zeros((kv * len(mm),) * 2)
    for j, q in enumerate(mm):
        V[j * kv:(j + 1) * kv, j * kv:(j + 1) * kv] = q.vm
    eq(what + "vm", m.vm, V, rtol=1e-12, atol=1e-300)
    for a in ("u", "predy", "e_filtered") + (("predy_e", "e_pred") if b.combo else ()):
        v = np.zeros((n, 1))
        for g, q in zip(parts, mm):
            v[g.i] = arr(getattr(q, a)).reshape(-1, 1)
        eq(what + a + " in original order", getattr(m, a), v, rtol=1e-12)
    same(what + "rows of the table", list(m.output["var_names"]), ["%s_%s" % (g.t, v) for g in parts for v in nm + en + ["lambda"]])
    eq(what + "table coefficients", m.output["coefficients"].astype(float).to_numpy(), arr(m.betas).ravel(), rtol=1e-10)
    return {"labels": labels + ["dropped"] * bool(drop), "nontrivial": True}


def limits(g, n):
    if g.H is not None and (g.H.shape[1] > n / 2.5 or ref.cond(g.H) > 500):
        raise Reject("ill-conditioned instruments")
    if g.Z.shape[1] > n / 4 or ref.cond(g.reg.proj(g.Z)) > 300:
        raise Reject("ill-conditioned regressors")


SUBS = [Sub("wide", gen.wide(strat, n=(150, 260), ks=(4, 7), more={"R": st.sampled_from([2, 3, 3, 4, 5, 6, 7])}), run, quick=150, thorough=400),
        Sub("reference", strat, run, quick=1000, thorough=15000,
            probe=[{'R': 2, 'lab': 'bool', 'lay': 'mix', 'box': 'list', 'const': 'many', 'cols': 0, 'errsep': False, 'n': 70, 'w': {'kind': 'rook', 'n': 20, 'seed': 0, 't': 'r', 'ids': 'int'}, 'est': 'endog', 'fam': '_Het', 'd': {'k': 1, 'x': 'normal', 'seed': 0, 'rho': 0.0, 'lam': 0.0, 'het': 0, 'noise': 1.0, 'yscale': 1.0}, 'm': 1, 'extra': 0, 'wl': 1, 'lagq': False, 'slx': 0, 'sel': 0, 'vm': False, 'ghet': False, 'conreg': 0, 'A1': 'hom_sc', 'iters': 1, 'eps': None, 'step1c': True, 'inv': 'power_exp'}])]

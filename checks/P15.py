"""Spatial lag 2SLS by regimes against interacted and separate 2SLS."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, names, zoo, reg
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "Regimes GM_Lag"
RULE = ("2-4 regimes with labels of every type x constant/column options x common, regime-specific and separated lags x 0-2 endogenous variables x lag orders x SLX orders and "
        "selections x robust options x columns constant in a regime; non-trivial = labels unsorted or interleaved and the model compared with an independent dense 2SLS")
ASSUMPTIONS = ["within-regime weights are connected by a ring added to each regime (no islands)", "equilibrated condition of the instruments < 300, of the projected regressors < 500",
               "power expansion of the estimated rho converges (spreg raises a documented error otherwise)"]


def strat():
    return st.fixed_dictionaries(dict(
        reg.SPEC, **reg.OPTS, n=st.integers(60, 130), w=gen.w_spec(n=20, transforms=("r", "r", "s", "b")), lagsep=st.booleans(),
        d=gen.data_spec(k=st.integers(1, 3), xkinds=["normal", "uniform", "corr", "scaled", "shifted"]), m=st.sampled_from([0, 0, 1, 2]), extra=st.integers(0, 1),
        wl=st.sampled_from([1, 1, 2, 3]), lagq=st.booleans(), robust=st.sampled_from([None, None, "white", "hac", "ogmm"]), sig=st.booleans(), ghet=st.just(False),
        slx=st.sampled_from([0, 0, 0, 1, 2]), sel=st.integers(0, 15), spat=st.booleans(), imp=st.booleans(), conreg=st.sampled_from([0, 0, 0, 1]), slxdef=st.booleans()))


def prepare(s):
    reg.grow(s, 18)
    n, k = s["n"], int(s["d"]["k"])
    lab = reg.labels(s, n)
    w, W, D, t = reg.weights(s, n, lab)
    s["d"]["noise"] = 0.5
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    if s["conreg"] and k > 1:
        X[reg.masks(lab)[reg.order(lab)[0]], k - 1] = 1.0
    b = ref.NS(n=n, k=k, lab=lab, w=w, W=W, X0=X, nx=["x%d" % j for j in range(k)])
    b.Wr = gen.transform_dense(reg.within(D, lab), t) if t != "o" else reg.within(D, lab)
    if s["m"]:
        Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s["m"], s["m"] + s["extra"])
    else:
        Ye = Q = u0 = np.zeros((n, 0))
    g = gen.rng(s["d"]["seed"], 74)
    xs = X / (X.std(0) + 1e-12)
    v = 1 + xs @ g.uniform(0.5, 2, (k, 1)) + Ye @ np.ones((Ye.shape[1], 1)) + (u0 if s["m"] else 0) + s["d"]["noise"] * g.standard_normal((n, 1))
    v = reg.shift(s, v * s["d"]["yscale"], X, lab)
    if ref.specrad(W) > 1 + 1e-9:
        W1 = W / ref.specrad(W)
    else:
        W1 = W
    b.y = np.linalg.solve(np.eye(n) - s["d"]["rho"] * W1, v)
    b.Ye, b.Q = Ye, Q
    b.yn, b.qn = ["e%d" % j for j in range(Ye.shape[1])], ["q%d" % j for j in range(Q.shape[1])]
    msk = [bool((s["sel"] >> j) & 1) for j in range(k)]
    b.sel = msk if s["slx"] and any(msk) and not all(msk) else None
    sn = [v for v, c in zip(b.nx, msk) if c] if b.sel else b.nx
    b.names = b.nx + names.lagnames(sn, s["slx"])
    b.vary = reg.colmask(s, len(b.names) + len(b.yn))
    b.cols2regi = "all" if b.vary is None else list(b.vary)
    if b.vary is None:
        b.vary = [True] * (len(b.names) + len(b.yn))
    b.vx, b.ve = [s["const"] == "many"] + b.vary[:len(b.names)], b.vary[len(b.names):]
    b.allvary = all(b.vary) and s["const"] == "many"
    if not s["lagsep"] and not any(b.vx + b.ve):
        raise Reject("no coefficient varies by regime")
    b.K = zoo.kernel(n, s["d"]["seed"]) if s["robust"] == "hac" else None
    return b


def instruments(s, b, nx):
    """names of the instruments of the spatial lag, in the order of spreg"""
    inst = []
    for p in range(1, s["wl"] + 1):
        inst += names.lagnames(nx, 1, s["slx"] + p)
        if s["lagq"]:
            inst += names.lagnames(b.qn, 1, p)
    return inst


def columns(L, b, W):
    base = {v: b.X0[:, [j]] for j, v in enumerate(b.nx)}
    base.update({v: b.Ye[:, [j]] for j, v in enumerate(b.yn)})
    base.update({v: b.Q[:, [j]] for j, v in enumerate(b.qn)})
    base["yy"] = b.y
    return ref.cat(*[names.col(v, base, W) for v in L]) if L else np.zeros((b.n, 0))


def call(s, b):
    import spreg
    kw = dict(w=b.w, w_lags=s["wl"], lag_q=s["lagq"], slx_lags=s["slx"], robust=s["robust"], sig2n_k=s["sig"], constant_regi=s["const"],
              cols2regi=b.cols2regi if b.cols2regi == "all" else list(b.cols2regi), regime_lag_sep=s["lagsep"], regime_err_sep=s["errsep"],
              spat_diag=s["spat"], spat_impacts="simple" if s["imp"] else None, name_y="yy", name_x=list(b.nx), name_regimes="zone")
    if b.sel:
        kw["slx_vars"] = list(b.sel)
    elif s["slxdef"]:
        kw["slx_vars"] = "All"
    if b.K is not None:
        kw["gwk"] = b.K
    a = [b.y, b.X0, reg.box(s, b.lab)]
    if b.yn:
        a += [b.Ye, b.Q]
        kw.update(name_yend=list(b.yn), name_q=list(b.qn))
    with sut("GM_Lag_Regimes"):
        return spreg.GM_Lag_Regimes(*a, **kw)


def solvable(W, rho):
    if not ref.expandable(W, rho) or abs(abs(rho) - 1) < 1e-4:
        raise Reject("power expansion does not converge")


def reduced(what, W, rho, xb, y, got_p, got_e):
    """rho: number, or one value per observation"""
    n = len(y)
    r = np.abs(rho).max()
    ph = np.linalg.solve(np.eye(n) - np.asarray(rho).reshape(-1, 1) * W, xb)
    tail = 1e-9 / max(1e-3, 1 - r * min(1.0, ref.specrad(W)))
    eq(what + "predy_e", got_p, ph, rtol=1e-6, scale=np.abs(ph).max(), atol=tail)
    eq(what + "e_pred", got_e, y - ph, rtol=1e-6, scale=np.abs(ph).max() + np.abs(y).max(), atol=tail)
    return ph


def ak(y, u, Z, varb, W):
    n = len(u)
    S0, utu = W.sum(), float((u ** 2).sum())
    I = n / S0 * float((u.T @ W @ u).item()) / utu
    T = float(np.trace(W @ W + W.T @ W))
    a = u.T @ W @ Z
    return n * I ** 2 / ((T + 4 / (utu / n) * float((a @ varb @ a.T).item())) / ((S0 / n) ** 2 * n))


def comfac(b, vm, xi, wi, ri):
    """linearised restriction rho*beta + gamma = 0"""
    k = len(xi)
    be, ga, rho = b[xi], b[wi], float(b[ri, 0])
    g = rho * be + ga
    G = np.hstack([rho * np.eye(k), np.eye(k), be])
    o = list(xi) + list(wi) + [ri]
    V = G @ vm[np.ix_(o, o)] @ G.T
    if np.linalg.cond(V) > 1e10:
        return None
    return float((g.T @ np.linalg.solve(V, g)).item())


def run(s):
    b = prepare(s)
    n, lab, y = b.n, b.lab, b.y
    M = reg.masks(lab)
    lagsep = s["lagsep"]
    sep = lagsep and b.allvary and s["robust"] != "hac"
    rob = s["robust"]
    K = ref.kernel_dense(b.K) if b.K is not None else None
    ys = np.abs(y).max()
    labels = ["separate" if sep else "lag by regime" if lagsep else "common", str(rob), s["lab"], "slx%d" % s["slx"], "m%d" % s["m"], "wl%d" % s["wl"]]
    what = "GM_Lag_Regimes(%s, %s): " % (labels[0], rob)
    WL = b.Wr if lagsep and s["slx"] == 0 else b.W        # weights of the instruments
    Wy = (b.Wr if lagsep else b.W) @ y
    X = ref.const(columns(b.names, b, b.W))
    nm = ["CONSTANT"] + b.names
    nxi = list(b.nx)
    if sep:
        drop = [j for j in range(1, X.shape[1]) if any(np.ptp(X[M[r], j]) == 0 for r in M)]
        if drop and s["slx"]:
            raise Reject("selection of constant columns")
        X, nm = np.delete(X, drop, 1), [v for j, v in enumerate(nm) if j not in drop]
        if s["slx"] == 0:
            nxi = [v for v in nxi if v in nm]
    qn = b.qn + instruments(s, b, nxi)
    Qa = columns(qn, b, WL)
    E = ref.cat(b.Ye, Wy)
    en = b.yn + ["W_yy"]
    if sep:
        kr = X.shape[1] + E.shape[1]
        H = ref.cat(X, Qa)
        reg.enough(H, lab, H.shape[1] + 4, 300)
        O = {}
        for r in M:
            o = O[r] = ref.tsls(y[M[r]], X[M[r]], E[M[r]], Qa[M[r]], robust=rob, sig2n_k=s["sig"])
            if ref.cond(o.Zh) > 500:
                raise Reject("weak identification")
            solvable(b.Wr[np.ix_(M[r], M[r])], float(o.betas[-1, 0]))
        m = call(s, b)
        same(what + "regimes of multi", [str(v) for v in m.multi], reg.textset(lab))
        B, V = [], np.zeros((kr * len(M),) * 2)
        U, PE = np.zeros((n, 1)), np.zeros((n, 1))
        for i, (r, t) in enumerate(zip(reg.order(lab), reg.textset(lab))):
            o, mr, Wr = O[r], m.multi[[q for q in m.multi if str(q) == t][0]], b.Wr[np.ix_(M[r], M[r])]
            w_ = what + "regime %s: " % t
            B.append(o.betas)
            V[i * kr:(i + 1) * kr, i * kr:(i + 1) * kr] = o.vm
            U[M[r]] = o.u
            se0 = np.sqrt(o.sig2 * np.diag(o.varb)).reshape(-1, 1)
            eq_coef(w_ + "betas", mr.betas, o.betas, se0, rtol=1e-5)
            eq_vm(w_ + "vm", mr.vm, o.vm, rtol=1e-4)
            inference(mr, "z", what=w_)
            same(w_ + "n", mr.n, int(M[r].sum()))
            eq(w_ + "pr2", mr.pr2, ref.pr2(y[M[r]], o.predy), rtol=1e-5, atol=1e-7)
            eq(w_ + "rho", mr.rho, mr.betas[-1])
            same(w_ + "name_z", list(mr.name_z), ["%s_%s" % (t, v) for v in nm + en])
            same(w_ + "number of instruments", arr(mr.h).shape[1], H.shape[1])
            names.check_columns(w_ + "instrument", mr.h, [v[len(t) + 1:] for v in mr.name_h], {v: c[M[r]] for v, c in zip(nm + qn, (H[:, [j]] for j in range(H.shape[1])))}, None)
            rho, xb = float(arr(mr.betas)[-1, 0]), o.predy - o.betas[-1, 0] * Wy[M[r]]
            if abs(rho) < 1:
                PE[M[r]] = reduced(w_, Wr, rho, xb, y[M[r]], mr.predy_e, mr.e_pred)
                eq(w_ + "pr2_e", mr.pr2_e, ref.pr2(y[M[r]], PE[M[r]]), rtol=1e-4, atol=1e-6)
            if s["spat"] and rob != "ogmm":
                stat(w_ + "ak_test", mr.ak_test, ak(y[M[r]], o.u, o.Z, o.varb, Wr), 1, rtol=1e-4, atol=1e-6)
        same(what + "kr", m.kr, kr)
        full = ["%s_%s" % (t, v) for t in reg.textset(lab) for v in nm + en]
        eq_coef(what + "betas", m.betas, np.vstack(B), np.sqrt(np.abs(np.diag(V))), rtol=1e-5)
        eq_vm(what + "vm", m.vm, V, rtol=1e-4)
        eq(what + "u", m.u, U, rtol=1e-5, scale=ys)
        eq(what + "predy", m.predy, y - U, rtol=1e-5, scale=ys)
        eq(what + "predy_e by regime", m.predy_e, PE, rtol=1e-5, scale=max(ys, np.abs(PE).max()))
        same(what + "rows of the table", list(m.output["var_names"]), full)
        eq(what + "table coefficients", m.output["coefficients"].astype(float).to_numpy(), arr(m.betas).ravel(), rtol=1e-10)
        return {"labels": labels, "nontrivial": True}
    ve = b.ve + [lagsep]
    XI, EI, QI = reg.interact(X, b.vx, lab), reg.interact(E, ve, lab), reg.interact(Qa, [True] * Qa.shape[1], lab)
    H = ref.cat(XI, QI)
    if H.shape[1] > n / 2.2 or ref.cond(H) > 300:
        raise Reject("ill-conditioned instruments")
    o = ref.tsls(y, XI, EI, QI, robust=rob, K=K, sig2n_k=s["sig"])
    if ref.cond(o.Zh) > 500:
        raise Reject("weak identification")
    if rob == "hac" and np.any(np.diag(o.vm) <= 0):
        raise Reject("hac not positive")
    full = reg.inames(nm, b.vx, lab) + reg.inames(en, ve, lab)
    ri = [i for i, v in enumerate(full) if v.endswith("_W_yy")]
    rhos = o.betas[ri, 0]
    R = reg.order(lab)
    Wp = b.Wr if lagsep else b.W
    if lagsep:
        for r, rho in zip(R, rhos):
            solvable(b.Wr[np.ix_(M[r], M[r])], rho)
    else:
        solvable(b.W, rhos[0])
    m = call(s, b)
    se0 = np.sqrt(o.sig2 * np.diag(o.varb)).reshape(-1, 1)
    eq_coef(what + "betas", m.betas, o.betas, se0, rtol=1e-5)
    eq_vm(what + "vm", m.vm, o.vm, rtol=1e-4)
    eq(what + "u", m.u, o.u, rtol=1e-5, scale=ys)
    eq(what + "predy", m.predy, o.predy, rtol=1e-5, scale=ys)
    eq(what + "pr2", m.pr2, ref.pr2(y, o.predy), rtol=1e-5, atol=1e-7)
    same(what + "n, nr", (m.n, m.nr), (n, len(M)))
    same(what + "kr, kf", (m.kr, m.kf), (sum(b.vx) + sum(ve), len(b.vx) + len(ve) - sum(b.vx) - sum(ve)))
    same(what + "name_z", list(m.name_z), full)
    same(what + "name_h", sorted(m.name_h), sorted(reg.inames(nm, b.vx, lab) + reg.inames(qn, [True] * len(qn), lab)))
    inference(m, "z", what=what)
    table(m, full)
    rv = np.full(n, rhos[0])
    if lagsep:
        for r, rho in zip(R, rhos):
            rv[M[r]] = rho
    if np.abs(rv).max() < 1:
        ph = reduced(what, Wp, rv, o.predy - rv.reshape(-1, 1) * Wy, y, m.predy_e, m.e_pred)
        eq(what + "pr2_e", m.pr2_e, ref.pr2(y, ph), rtol=1e-4, atol=1e-6)
    if not lagsep:
        eq(what + "rho", m.rho, m.betas[-1])
    if s["spat"] and rob not in ("hac", "ogmm"):
        stat(what + "ak_test", m.ak_test, ak(y, o.u, o.Z, o.varb, Wp), 1, rtol=1e-4, atol=1e-6)
        if s["slx"] == 1 and not b.yn and not lagsep:
            alike = b.sel is None and b.vary[:b.k] == b.vary[b.k:]
            same(what + "common factor test reported", hasattr(m, "cfh_test"), alike)
            if alike:
                xi = [i for i, v in enumerate(full) if any(v.endswith(e) for e in ("_" + x for x in b.nx)) and "_W_" not in v]
                wi = [full.index(v.replace("_x", "_W_x")) for v in (full[i] for i in xi)]
                c = comfac(arr(m.betas), arr(m.vm), xi, wi, len(full) - 1)
                if c is not None:
                    stat(what + "common factor test", m.cfh_test, c, len(xi), rtol=1e-4, atol=1e-6)
                    labels.append("cfh")
    return {"labels": labels, "nontrivial": True}


SUBS = [Sub("wide", gen.wide(strat, n=(150, 300), more={"R": st.sampled_from([2, 3, 3, 4, 5, 6, 7])}), run, quick=250, thorough=600),
        Sub("reference", strat, run, quick=1000, thorough=20000)]

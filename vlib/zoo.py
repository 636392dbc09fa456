"""Catalogue of the cross-sectional estimators, used by the properties that quantify
over "every estimator".  An entry knows which data it needs and how to call the class."""
import numpy as np
from . import gen, ref
from .core import Reject


class Case(dict):
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__

    def copy(self):
        return Case(self)


class E:
    def __init__(self, name, needs, cls=None, opts=None, tol=1e-6, slx=True, slxvars=True, kind="lin"):
        self.name, self.needs, self.cls = name, needs.split(), cls or name
        self.opts, self.tol, self.slx, self.slxvars, self.kind = dict(opts or {}), tol, slx, slxvars, kind

    @property
    def reg(self):
        return "regimes" in self.needs

    @property
    def endog(self):
        return "yend" in self.needs

    @property
    def spatial(self):
        return "w" in self.needs

    @property
    def lag(self):
        return "lag" in self.kind

    def call(self, c, **kw):
        import spreg
        a = {}
        for k in self.needs:
            a[k] = c[k]
        a.update(self.opts)
        a.update(c.get("names", {}) and {k: v for k, v in c["names"].items()
                                         if not (k in ("name_yend", "name_q") and not self.endog)
                                         and not (k == "name_regimes" and not self.reg)})
        a.update(kw)
        return getattr(spreg, self.cls)(**a)


_D = dict(spat_diag=True)
ZOO = {e.name: e for e in [
    E("OLS", "y x", slx=False),
    E("OLS_spat", "y x w", "OLS", dict(spat_diag=True, moran=True, white_test=True, vif=True)),
    E("OLS_white", "y x w", "OLS", dict(robust="white")),
    E("OLS_hac", "y x w gwk", "OLS", dict(robust="hac")),
    E("TSLS", "y x yend q w", "TSLS", dict(spat_diag=True)),
    E("TSLS_white", "y x yend q w", "TSLS", dict(robust="white")),
    E("TSLS_hac", "y x yend q w gwk", "TSLS", dict(robust="hac")),
    E("GM_Lag", "y x w", kind="lag"),
    E("GM_Lag_hac", "y x w gwk", "GM_Lag", dict(robust="hac"), kind="lag"),
    E("GM_Lag_end", "y x yend q w", "GM_Lag", dict(w_lags=2), kind="lag"),
    E("GM_Lag_white", "y x w", "GM_Lag", dict(robust="white", spat_impacts="full"), kind="lag"),
    E("ML_Lag", "y x w", opts=dict(method="full"), tol=1e-4, kind="lag ml"),
    E("ML_Lag_LU", "y x w", "ML_Lag", dict(method="LU"), tol=1e-4, kind="lag ml"),
    E("ML_Error", "y x w", opts=dict(method="full"), tol=1e-4, kind="err ml"),
    E("ML_Error_LU", "y x w", "ML_Error", dict(method="LU"), tol=1e-4, kind="err ml"),
    E("GM_Error", "y x w", tol=5e-4, kind="err gm"),
    E("GM_Endog_Error", "y x yend q w", tol=5e-4, kind="err gm"),
    E("GM_Combo", "y x w", tol=5e-4, kind="lag err gm"),
    E("GM_Combo_end", "y x yend q w", "GM_Combo", tol=5e-4, kind="lag err gm"),
    E("GM_Error_Hom", "y x w", tol=1e-3, kind="err gm"),
    E("GM_Error_Hom_het", "y x w", "GM_Error_Hom", dict(A1="het", max_iter=2), tol=1e-3, kind="err gm"),
    E("GM_Endog_Error_Hom", "y x yend q w", tol=1e-3, kind="err gm"),
    E("GM_Combo_Hom", "y x w", opts=dict(A1="hom"), tol=1e-3, kind="lag err gm"),
    E("GM_Combo_Hom_end", "y x yend q w", "GM_Combo_Hom", tol=1e-3, kind="lag err gm"),
    E("GM_Error_Het", "y x w", tol=1e-3, kind="err gm"),
    E("GM_Error_Het_s1c", "y x w", "GM_Error_Het", dict(step1c=True, max_iter=2), tol=1e-3, kind="err gm"),
    E("GM_Endog_Error_Het", "y x yend q w", tol=1e-3, kind="err gm"),
    E("GM_Combo_Het", "y x w", tol=1e-3, kind="lag err gm"),
    E("GM_Combo_Het_end", "y x yend q w", "GM_Combo_Het", dict(step1c=True), tol=1e-3, kind="lag err gm"),
    E("GMM_Error", "y x w", tol=1e-3, kind="err gm"),
    E("GMM_Error_kp98", "y x w", "GMM_Error", dict(estimator="kp98"), tol=1e-3, kind="err gm"),
    E("GMM_Error_lag", "y x w", "GMM_Error", dict(estimator="hom", add_wy=True), tol=1e-3, kind="lag err gm"),
    E("Probit", "y x w", opts=dict(spat_diag=True), tol=1e-4, kind="probit"),
    # ---------------------------------------------------------------- regimes
    E("OLS_Regimes", "y x w regimes", opts=dict(regime_err_sep=False, spat_diag=True, moran=True), kind="reg"),
    E("OLS_Regimes_sep", "y x regimes", "OLS_Regimes", kind="reg", slx=False),
    E("OLS_Regimes_white", "y x w regimes", "OLS_Regimes", dict(regime_err_sep=False, robust="white"), kind="reg"),
    E("TSLS_Regimes", "y x yend q w regimes", opts=dict(spat_diag=True), kind="reg"),
    E("TSLS_Regimes_sep", "y x yend q w regimes", "TSLS_Regimes", dict(regime_err_sep=True), kind="reg"),
    E("GM_Lag_Regimes", "y x w regimes", kind="lag reg"),
    E("GM_Lag_Regimes_sep", "y x w regimes", "GM_Lag_Regimes", dict(regime_err_sep=True, regime_lag_sep=True), kind="lag reg", slx=False),
    E("GM_Lag_Regimes_end", "y x yend q w regimes", "GM_Lag_Regimes", dict(robust=None, regime_lag_sep=True), kind="lag reg"),
    E("OLS_Regimes_hac", "y x w regimes gwk", "OLS_Regimes", dict(regime_err_sep=False, robust="hac"), kind="reg"),
    E("TSLS_Regimes_hac", "y x yend q w regimes gwk", "TSLS_Regimes", dict(robust="hac"), kind="reg"),
    E("GM_Lag_Regimes_hac", "y x w regimes gwk", "GM_Lag_Regimes", dict(robust="hac"), kind="lag reg"),
    E("GM_Error_Regimes", "y x w regimes", tol=5e-4, kind="err gm reg"),
    E("GM_Error_Regimes_sep", "y x w regimes", "GM_Error_Regimes", dict(regime_err_sep=True), tol=5e-4, kind="err gm reg"),
    E("GM_Endog_Error_Regimes", "y x yend q w regimes", tol=5e-4, kind="err gm reg", slxvars=False),
    E("GM_Combo_Regimes", "y x w regimes", tol=5e-4, kind="lag err gm reg", slxvars=False),
    E("GM_Error_Hom_Regimes", "y x w regimes", tol=1e-3, kind="err gm reg"),
    E("GM_Endog_Error_Hom_Regimes", "y x yend q w regimes", tol=1e-3, kind="err gm reg", slxvars=False),
    E("GM_Combo_Hom_Regimes", "y x w regimes", tol=1e-3, kind="lag err gm reg", slxvars=False),
    E("GM_Error_Het_Regimes", "y x w regimes", tol=1e-3, kind="err gm reg"),
    E("GM_Endog_Error_Het_Regimes", "y x yend q w regimes", tol=1e-3, kind="err gm reg", slxvars=False),
    E("GM_Combo_Het_Regimes", "y x w regimes", tol=1e-3, kind="lag err gm reg", slxvars=False),
    E("ML_Lag_Regimes", "y x w regimes", tol=1e-4, kind="lag ml reg"),
    E("ML_Lag_Regimes_sep", "y x w regimes", "ML_Lag_Regimes", dict(regime_lag_sep=True), tol=1e-4, kind="lag ml reg"),
    E("ML_Error_Regimes", "y x w regimes", tol=1e-4, kind="err ml reg"),
    E("ML_Error_Regimes_sep", "y x w regimes", "ML_Error_Regimes", dict(regime_err_sep=True), tol=1e-4, kind="err ml reg"),
]}


def make(s, probit=False, regimes=False, endog=True, R=2):
    """build the data bundle of a case spec: s = {n, w, d, seed}"""
    n, k = int(s["n"]), int(s["d"]["k"])
    s["w"]["n"] = n
    if regimes:
        w, W, lab = w_regimes(s, R)
    else:
        w, W = gen.build_w(s["w"])
        lab = None
    X = gen.x_matrix(n, k, s["d"]["x"], s["d"]["seed"])
    if endog:
        Ye, Q, u0 = gen.build_endog(s["d"]["seed"], X, s.get("m", 1), s.get("m", 1) + s.get("extra", 1))
        y = gen.gen_y(s["d"], X, W, Z=Ye) + u0 * s["d"]["yscale"]
    else:
        Ye = Q = None
        y = gen.gen_y(s["d"], X, W)
    if regimes:
        g = gen.rng(s["d"]["seed"], 52)
        for r in sorted(set(lab)):
            mask = np.array([l == r for l in lab]).reshape(-1, 1)
            y = y + mask * (g.uniform(-1, 1) + (X / (X.std(0) + 1e-12)) @ g.uniform(-1, 1, (k, 1))) * s["d"]["yscale"]
    if probit:
        xs = (X - X.mean(0)) / X.std(0)
        g = gen.rng(s["d"]["seed"], 51)
        y = (xs @ g.uniform(-.8, .8, (k, 1)) + g.standard_normal((n, 1)) > 0).astype(float)
    return Case(n=n, k=k, y=y, x=X, yend=Ye, q=Q, w=w, W=W, regimes=lab)


def w_regimes(s, R):
    """weights whose restriction to each regime has no islands: block-connected graph plus random links"""
    n = int(s["n"])
    g = gen.rng(s["w"]["seed"], 61)
    lab = np.array([i % R for i in range(n)])
    if g.random() < 0.5:
        g.shuffle(lab)
    elif g.random() < 0.5:
        lab = np.sort(lab)
    D = gen.dense_w(s["w"])
    for r in range(R):
        idx = np.nonzero(lab == r)[0]
        for a in range(len(idx)):     # a path through the members of every regime
            i, j = idx[a], idx[(a + 1) % len(idx)]
            if i != j and D[i, j] == 0:
                v = 1.0 if s["w"]["kind"] not in ("dist", "asym") else 0.2 + g.random()
                D[i, j] = D[j, i] = v
    names = [["a", "b", "c", "d"], [1, 2, 3, 4], [10, 2, 33, 4], ["z", "B", "a", "1"]][int(g.integers(0, 4))]
    lab = [names[i] for i in lab]
    t = s["w"].get("t", "r")
    ids = gen.ids_of(s["w"])
    if t in ("o", "s"):
        Dt = gen.transform_dense(D, t)
        return gen.to_w(Dt, ids), Dt, lab
    return gen.to_w(D, ids, transform=t), gen.transform_dense(D, t), lab


def kernel(n, seed, k=5, perm=None, ids=None):
    import libpysal
    xy = gen.rng(seed, 78).random((n, 2))
    if perm is not None:
        xy = xy[np.asarray(perm)]
    return libpysal.weights.Kernel(xy, k=min(k, n - 2), function="triangular", fixed=False, ids=ids)

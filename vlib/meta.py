"""Metamorphic relations between fits: a fit is flattened into named facts, each with the
way it must react to a change of units, and two fits are compared fact by fact.

Tolerances are calibrated on the case itself: the fit is repeated on data with relative
noise of 1e-10, and a fact may differ by the estimator's optimiser tolerance plus a
multiple of what such noise does to it."""
import re
import numpy as np
from . import gen, ref
from .core import Reject, Violation

TESTS = ["moran_res", "lm_error", "lm_lag", "lm_sarma", "lm_slxerr", "lm_spdurbin", "lm_wx", "rlm_durlag", "rlm_error", "rlm_lag", "rlm_wx", "ak_test", "cfh_test", "jarque_bera",
         "breusch_pagan", "koenker_bassett", "white", "dwh", "f_stat", "mulColli", "vif", "LR", "LRtest", "KP_error", "PS_error", "Pinkse_error", "condition_index"]
SCALARS = {"r2": 0, "ar2": 0, "pr2": 0, "pr2_e": 0, "mcfadrho": 0, "predpc": 0, "sig2": 2, "sig2n": 2, "sig2n_k": 2, "sig2ML": 2, "utu": 2, "mean_y": 1, "std_y": "abs",
           "logll": "logll", "aic": "ic", "schwarz": "ic", "logl": 0, "L0": 0, "n": 0, "k": 0, "kr": 0, "kf": 0, "nr": 0, "kstar": 0}
OBS = {"u": 1, "predy": 1, "e_filtered": 1, "predy_e": 1, "e_pred": 1, "u_naive": 0, "u_gen": 0, "phiy": 0, "xb": 0, "predybin": 0}
SPATIAL = re.compile(r"(^|_)(lambda|rho)$")


def num(v):
    try:
        return float(np.squeeze(np.asarray(v, dtype=float)))
    except Exception:
        return None


def flat(v, path=()):
    """numbers inside tuples, lists, dicts"""
    if isinstance(v, dict):
        for k in v:
            yield from flat(v[k], path + (str(k),))
    elif isinstance(v, (list, tuple)):
        for i, a in enumerate(v):
            yield from flat(a, path + (i,))
    elif isinstance(v, np.ndarray) and v.size != 1:
        for i, a in enumerate(v.ravel()):
            yield path + (i,), float(a)
    elif not isinstance(v, (str, bytes)) and v is not None:
        x = num(v)
        if x is not None:
            yield path, x


def ordered(m):
    """output rows sorted by position in betas"""
    return m.output.sort_index()


def names(m):
    return [str(v) for v in ordered(m)["var_names"]]


def facts(m, obs=True):
    """-> {key: (value, power)}; power is how the fact scales with the dependent variable (keys of coefficients carry their own)"""
    f = {}
    o = ordered(m)
    nm = [str(v) for v in o["var_names"]]
    if len(set(nm)) != len(nm):
        raise Violation("two coefficients share a name: %r" % nm)
    b = np.asarray(m.betas, dtype=float).reshape(-1)
    vm = np.asarray(m.vm, dtype=float)
    for i, v in enumerate(nm):
        f["coef", v] = b[i]
    vn = nm if vm.shape[0] == len(nm) else [v for v in nm if not SPATIAL.search(v)]
    if vm.shape[0] != len(vn):
        raise Violation("variance matrix of %d rows for the coefficients %r" % (vm.shape[0], nm))
    for i in range(vm.shape[0]):
        f["se", vn[i]] = np.sqrt(vm[i, i]) if vm[i, i] >= 0 else np.nan
        for j in range(vm.shape[0]):
            f["vm", vn[i], vn[j]] = vm[i, j]
    for r in range(len(o)):
        row = o.iloc[r]
        for c, key in (("zt_stat", "z"), ("prob", "p")):
            x = num(row[c])
            if x is not None:
                f[key, nm[r]] = x
    for a in SCALARS:
        v = getattr(m, a, None)
        x = num(v) if v is not None else None
        if x is not None:
            f["scalar", a] = x
    for a in TESTS:
        v = getattr(m, a, None)
        if v is not None:
            for path, x in flat(v):
                if path and path[-1] == "df":
                    f[("df", a) + path] = x
                else:
                    f[("test", a) + path] = x
    ch = getattr(m, "chow", None)
    if ch is not None:
        f["test", "chow", "joint", 0], f["test", "chow", "joint", 1] = [float(np.squeeze(x)) for x in ch.joint]
        for i, row in enumerate(np.asarray(ch.regi)):
            f["test", "chow", i, 0], f["test", "chow", i, 1] = float(row[0]), float(row[1])
    imp = getattr(m, "sp_multipliers", None)
    if imp is not None:
        for k, v in imp.items():
            for i, x in enumerate(v):
                x = num(x)
                if x is not None:
                    f["imp", k, i] = x
    if obs:
        for a in OBS:
            v = getattr(m, a, None)
            if v is not None:
                v = np.asarray(v, dtype=float)
                if v.ndim == 2 and v.shape[1] == 1 or v.ndim == 1:
                    f["obs", a] = v.reshape(-1)
    if getattr(m, "slopes", None) is not None:
        for i, v in enumerate(np.asarray(m.slopes).ravel()):
            f["slope", nm[i + 1]] = float(v)
            f["slopese", nm[i + 1]] = float(np.asarray(m.slopes_std_err).ravel()[i])
    return f


def dist(a, b):
    """fact-wise absolute differences (arrays: maximum)"""
    d = {}
    for k in a:
        if k in b:
            x, y = np.asarray(a[k]), np.asarray(b[k])
            if x.shape != y.shape:
                d[k] = np.inf
                continue
            with np.errstate(all="ignore"):
                e = np.abs(x - y)
                e = np.where(np.isnan(x) & np.isnan(y), 0.0, e)
                e = np.where(x == y, 0.0, e)
            d[k] = float(np.max(e)) if e.size else 0.0
    return d


def natural(f, k):
    """size against which a fact's tolerance is measured"""
    v = f[k]
    if k[0] in ("coef", "first"):
        if SPATIAL.search(k[1]) and ("se", k[1]) not in f:
            return max(1.0, abs(v))
        return abs(v) + f.get(("se", k[1]), 0.0)
    if k[0] in ("lam", "corr"):
        return 1.0
    if k[0] == "sig":
        return float(np.sqrt(abs(f["sig", k[1], k[1]] * f["sig", k[2], k[2]])))
    if k[0] == "vm":
        return f.get(("se", k[1]), 0.0) * f.get(("se", k[2]), 0.0)
    if k[0] in ("z", "test", "imp"):
        return max(1.0, abs(v))
    if k[0] == "p":
        return 1.0
    if k[0] == "scalar" and k[1] in ("logll", "aic", "schwarz", "logl", "llik"):
        return max(1.0, abs(v))
    if k[0] == "scalar" and k[1] in ("r2", "ar2", "pr2", "pr2_e", "mcfadrho"):
        return 1.0
    if k == ("scalar", "mean_y"):
        return abs(v) + f.get(("scalar", "std_y"), 0.0) + (1.0 if ("scalar", "std_y") not in f else 0.0)
    if k[0] == "obs":
        a = np.abs(v)[np.isfinite(v)]
        return float(np.max(a)) if a.size else 0.0
    return abs(v)


def noise(y, seed, rel=1e-10):
    y = np.asarray(y, dtype=float)
    return y + rel * (np.std(y) + 1e-300) * gen.rng(seed, 88).standard_normal(y.shape)


def tolerances(fit, c, f0, rel, seeds=(1, 2), factor=100.0, probit=False):
    """rel: the estimator's optimiser tolerance; fit(case) -> model"""
    tol = {k: rel * natural(f0, k) for k in f0}
    for s in seeds:
        c2 = c.copy()
        if probit:
            c2["x"] = noise(c["x"], s) if not isinstance(c["x"], dict) else c["x"]
        else:
            c2["y"] = noise(c["y"], s)
        f1 = facts(fit(c2))
        for k, e in dist(f0, f1).items():
            if not np.isfinite(e):
                raise Reject("quantity not finite near the data")
            tol[k] += factor * e
        if set(f1) != set(f0):
            raise Reject("set of reported quantities changes near the data")
    for k in f0:
        if k[0] == "coef":
            se = f0.get(("se", k[1]), abs(f0[k]))
            if not np.isfinite(tol[k]) or not np.isfinite(f0[k]) or tol[k] > 0.05 * (se + abs(f0[k])):
                raise Reject("numerically unstable estimate")
        if k[0] == "scalar" and not np.isfinite(tol[k]):
            raise Reject("not finite")
    return tol


def compare(what, got, want, tol, skip=(), known=None):
    """got, want: facts with the same keys; tol: absolute tolerance per fact"""
    kg = {k for k in got if not any(k[:len(s)] == s for s in skip)}
    kw = {k for k in want if not any(k[:len(s)] == s for s in skip)}
    if kg != kw:
        raise Violation("%s: reported quantities differ: missing %s, additional %s" % (what, sorted(map(str, kw - kg))[:6], sorted(map(str, kg - kw))[:6]))
    bad = []
    d = dist({k: got[k] for k in kg}, want)
    for k in sorted(kw, key=str):
        if not (d[k] <= tol[k]):
            bad.append((k, d[k], tol[k]))
    if bad:
        k, e, t = max(bad, key=lambda r: (np.inf if not np.isfinite(r[1]) else r[1] / (r[2] + 1e-300)))
        g, w = got[k], want[k]
        if np.ndim(g):
            i = int(np.nanargmax(np.abs(np.asarray(g) - np.asarray(w)))) if np.shape(g) == np.shape(w) else 0
            g, w = g[i], w[i]
        raise Violation("%s: %s = %.12g, expected %.12g (difference %.3g, tolerance %.3g); %d of %d quantities differ: %s" % (
            what, "/".join(map(str, k)), g, w, e, t, len(bad), len(kw), ["/".join(map(str, r[0])) for r in bad[:6]]))


# ------------------------------------------------------------- transformed weights
def relabel_w(w, perm=None, newid=None):
    """the same links with the units listed in another order and/or under other names"""
    from libpysal.weights import W
    t = w.transform
    raw = w.transformations["O"]
    order = list(w.id_order)
    if perm is not None:
        order = [order[p] for p in perm]
    f = newid or {i: i for i in order}
    w2 = W({f[i]: [f[j] for j in w.neighbors[i]] for i in w.neighbors}, {f[i]: list(raw[i]) for i in w.neighbors}, id_order=[f[i] for i in order], silence_warnings=True)
    if t.upper() != "O":
        w2.transform = t
    return w2


# ------------------------------------------------------------- units of measurement
def powers(f, cn, y=1.0, xs=None):
    """multiplier of every fact when the dependent variable is multiplied by y and the columns named in xs by xs[name];
    cn: names (dependent variable) ; -> {key: (multiplier, shift)}"""
    xs = xs or {}
    yn = cn["name_y"]

    def coef(v):
        b = base(v)
        if SPATIAL.search(v):
            return 1.0
        m = re.match(r"W(\d*)_(.*)$", b)
        if m and m.group(2) == yn:
            return 1.0
        if b in xs:
            return y / xs[b]
        if m and m.group(2) in xs:
            return y / xs[m.group(2)]
        return y

    def base(v):
        """without the regime prefix"""
        for p in cn.get("prefixes", ()):
            if v.startswith(p + "_"):
                return v[len(p) + 1:]
        return v
    return {k: coef(k[1]) for k in f if k[0] == "coef"}


def scaled(f, cn, y=1.0, xs=None, n=None, probit=False):
    """the facts of the same model in other units"""
    cm = {k[1]: v for k, v in powers(f, cn, y, xs).items()}
    out = {}
    for k, v in f.items():
        if k[0] == "coef":
            out[k] = v * cm[k[1]]
        elif k[0] == "se":
            out[k] = v * abs(cm[k[1]])
        elif k[0] == "vm":
            out[k] = v * cm[k[1]] * cm[k[2]]
        elif k[0] == "z":
            out[k] = v * np.sign(cm[k[1]])
        elif k[0] in ("slope", "slopese"):
            m = cm[k[1]]
            out[k] = v * (abs(m) if k[0] == "slopese" else m)
        elif k[0] == "scalar":
            p = SCALARS[k[1]]
            if p == "logll":
                out[k] = v - n * np.log(abs(y))
            elif p == "ic":
                out[k] = v + 2 * n * np.log(abs(y))
            elif p == "abs":
                out[k] = v * abs(y)
            else:
                out[k] = v * y ** p
        elif k[0] == "obs":
            out[k] = v * y ** OBS[k[1]]
        else:
            out[k] = v
    return out


def tol_scaled(tol, f, f2):
    """absolute tolerances of f carried over to the re-scaled facts f2"""
    out = {}
    for k in f2:
        a, b = np.asarray(natural(f, k)), np.asarray(natural(f2, k))
        r = float(b / a) if a > 0 else 1.0
        out[k] = tol[k] * r
    return out


# ------------------------------------------------------------- cases over the catalogue of estimators
def spec(which, n=(36, 64), transforms=("r", "r", "r", "s"), more=None):
    from hypothesis import strategies as st
    d = {"e": st.sampled_from(list(which)), "n": st.integers(*n), "w": gen.w_spec(n=20, transforms=transforms), "d": gen.data_spec(k=st.integers(2, 3)), "m": st.integers(1, 2),
         "extra": st.integers(0, 1), "slx": st.sampled_from([0, 0, 0, 1, 2]), "R": st.sampled_from([2, 2, 3])}
    d.update(more or {})
    return st.fixed_dictionaries(d)


def case(s, names=True):
    """-> (catalogue entry, data bundle, keyword arguments); rejects badly conditioned designs"""
    from . import zoo
    e = zoo.ZOO[s["e"]]
    if e.reg:
        s["n"] = max(s["n"], 26 * s.get("R", 2))
    if e.kind == "probit":
        s["n"] = max(s["n"], 60)
        s["d"]["yscale"] = 1.0
    c = zoo.make(s, probit=e.kind == "probit", regimes=e.reg, endog=e.endog, R=s.get("R", 2))
    if "gwk" in e.needs:
        c["gseed"] = s["d"]["seed"]
        c["gwk"] = zoo.kernel(s["n"], c["gseed"])
    if names:
        c["names"] = {"name_y": "yy", "name_x": ["x%d" % j for j in range(c.k)], "name_yend": ["e%d" % j for j in range(c.yend.shape[1])] if e.endog else None,
                      "name_q": ["q%d" % j for j in range(c.q.shape[1])] if e.endog else None, "name_regimes": "reg"}
        if not e.endog:
            c["names"].pop("name_yend"), c["names"].pop("name_q")
        if not e.reg:
            c["names"].pop("name_regimes")
    kw = {}
    if s.get("slx") and e.slx and "w" in e.needs and (not e.reg or s["slx"] == 1):
        kw["slx_lags"] = s["slx"]
    guard(e, c, kw)
    return e, c, kw


def guard(e, c, kw):
    X = c.x
    C = ref.const(X)
    if kw.get("slx_lags"):
        C = ref.cat(C, ref.lagpow(c.W, X, kw["slx_lags"]))
    H = C
    if e.kind == "probit" and np.abs(C @ ref.probit_mle(c.y, C)).max() > 4.5:
        raise Reject("nearly separated")
    if e.lag or "err" in e.kind:
        L = kw.get("slx_lags", 0)
        H = ref.cat(C, ref.lagpow(c.W, X, L + e.opts.get("w_lags", 1))[:, L * X.shape[1]:])
    if e.endog:
        H = ref.cat(H, c.q)
        if e.lag:
            H = ref.cat(H, ref.lagpow(c.W, c.q, 1))
    R = 1
    if e.reg:
        lab = np.array(c.regimes, dtype=object)
        for r in set(c.regimes):
            m = lab == r
            if ref.cond(H[m]) > 300 or H[m].shape[0] < H.shape[1] + 6:
                raise Reject("ill conditioned within a regime")
    if ref.cond(H) > 300 or H.shape[0] < H.shape[1] + 8:
        raise Reject("ill conditioned design")


def prefixes(c):
    return sorted({str(r) for r in c.regimes or []} | {"_Global"}, key=len, reverse=True)


# ------------------------------------------------------------- equation systems and panels
def sysfacts(m, names, obs=True):
    """facts of a SUR / 3SLS result; names[r] = coefficient names of equation r (unique over the system)"""
    f = {}
    betas = next(getattr(m, a) for a in ("b3SLS", "bSUR") if hasattr(m, a))
    inf = next(getattr(m, a) for a in ("tsls_inf", "sur_inf") if hasattr(m, a))
    first = next((getattr(m, a) for a in ("b2SLS", "bOLS", "bSUR0") if hasattr(m, a)), None)
    allnm = [v for r in range(len(names)) for v in names[r]]
    for r in range(len(names)):
        b = np.asarray(betas[r], dtype=float).ravel()
        if b.size != len(names[r]):
            raise Violation("equation %d has %d coefficients, expected %s" % (r, b.size, names[r]))
        for i, v in enumerate(names[r]):
            f["coef", v] = b[i]
            row = np.asarray(inf[r], dtype=float)[i]
            f["se", v], f["z", v], f["p", v] = row[0], row[1], row[2]
            if first is not None:
                f["first", v] = float(np.asarray(first[r], dtype=float).ravel()[i])
    V = np.asarray(m.varb, dtype=float)
    for i, a in enumerate(allnm):
        for j, c in enumerate(allnm):
            f["vm", a, c] = V[i, j]
    S, C = np.asarray(m.sig, dtype=float), np.asarray(m.corr, dtype=float)
    for r in range(len(names)):
        for q in range(len(names)):
            f["sig", r, q], f["corr", r, q] = S[r, q], C[r, q]
        if obs:
            f["obs", "E%d" % r] = np.asarray(m.bigE)[:, r].astype(float)
        if getattr(m, "lamsur", None) is not None:
            f["lam", r] = float(np.asarray(m.lamsur).ravel()[r])
    for a in ("lmtest", "lrtest", "lmEtest", "lmlagtest", "likrlambda", "joinlam", "joinrho", "lamtest"):
        v = getattr(m, a, None)
        if v is not None:
            for path, x in flat(v):
                f[("test", a) + path] = x
    if getattr(m, "llik", None) is not None:
        f["scalar", "llik"] = float(m.llik)
    return f


SCALARS["llik"] = "logll"


def panfacts(m, names, obs=True):
    """facts of a spatial panel result"""
    f = {}
    b = np.asarray(m.betas, dtype=float).ravel()
    vm = np.asarray(m.vm, dtype=float)
    if len(b) != len(names):
        raise Violation("%d coefficients, expected %s" % (len(b), names))
    for i, v in enumerate(names):
        f["coef", v] = b[i]
    vn = names[:vm.shape[0]]
    for i, v in enumerate(vn):
        f["se", v] = float(np.asarray(m.std_err)[i])
        f["z", v], f["p", v] = [float(np.squeeze(x)) for x in (m.z_stat if hasattr(m, "z_stat") else m.t_stat)[i]]
        for j, q in enumerate(vn):
            f["vm", v, q] = vm[i, j]
    for a in SCALARS:
        v = getattr(m, a, None)
        x = num(v) if v is not None else None
        if x is not None:
            f["scalar", a] = x
    for a in OBS if obs else ():
        v = getattr(m, a, None)
        if v is not None:
            f["obs", a] = np.asarray(v, dtype=float).reshape(-1)
    return f

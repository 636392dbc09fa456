"""Comparison helpers: every one raises Violation with the quantity's name."""
import numpy as np
from scipy import stats
from .core import Violation  # noqa


def arr(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x, dtype=float)


def eq(name, got, want, rtol=1e-7, atol=0.0, scale=None, key=None):
    """|got-want| <= rtol*(|want|+scale)+atol elementwise; shapes squeezed; NaN==NaN.
    scale=None -> max|want| (normwise)."""
    try:
        g, w = np.squeeze(arr(got)), np.squeeze(arr(want))
    except Exception as e:
        raise Violation("%s: not numeric: %r (%s)" % (name, str(got)[:80], e), key)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (name, g.shape, w.shape), key)
    if g.size == 0:
        return
    if scale is None:
        fin = np.abs(w[np.isfinite(w)]) if w.ndim else np.abs(w)
        scale = np.max(fin) if np.size(fin) else 0.0
    with np.errstate(all="ignore"):
        tol = rtol * (np.abs(w) + np.squeeze(arr(scale))) + atol
        bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
    if np.any(bad):
        i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
        with np.errstate(all="ignore"):
            d = float(np.nanmax(np.abs(g - w)))
        raise Violation("%s: got %.12g expected %.12g at %s (max abs diff %.3g, tol %.3g)" % (
            name, g[i], w[i], list(map(int, i)), d, np.broadcast_to(tol, g.shape)[i] if g.ndim else tol), key)


def same(name, got, want, key=None):
    if not (got == want):
        raise Violation("%s: got %r expected %r" % (name, str(got)[:300], str(want)[:300]), key)


def ok(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def has(reg, *names):
    for nm in names:
        if not hasattr(reg, nm):
            raise Violation("result has no attribute %r" % nm)


def eq_coef(name, got, want, se, rtol=1e-6, key=None):
    """Coefficients: relative to their own size plus their standard error."""
    eq(name, got, want, rtol=rtol, scale=np.abs(arr(se)), key=key)


def eq_vm(name, got, want, rtol=1e-6, key=None):
    """Variance matrix: entry ij relative to se_i*se_j."""
    w = arr(want)
    d = np.sqrt(np.abs(np.diag(w)))
    eq(name, got, want, rtol=rtol, scale=np.outer(d, d), key=key)


def pnorm(z):
    return 2 * stats.norm.sf(np.abs(z))


def stat(name, got, want, df=None, rtol=1e-6, atol=1e-9, dist="chi2", df2=None):
    """(statistic, p-value) pair against the expected statistic and its distribution."""
    eq(name + " statistic", got[0], want, rtol=rtol, atol=atol)
    v = float(np.squeeze(arr(got[0])))
    if dist == "chi2":
        p = stats.chi2.sf(v, df)
    elif dist == "f":
        p = stats.f.sf(v, df, df2)
    elif dist == "norm":
        p = pnorm(v)
    elif dist == "t":
        p = 2 * stats.t.sf(abs(v), df)
    eq(name + " p-value (df=%s)" % df, got[1], p, rtol=1e-8, atol=1e-12)


def inference(reg, dist="z", rtol=1e-9, upto=None, what=""):
    """std_err, t/z statistics and p-values all follow from reg.betas and reg.vm."""
    has(reg, "betas", "vm", "std_err")
    b = arr(reg.betas).reshape(-1)
    vm = arr(reg.vm)
    m = vm.shape[0]
    with np.errstate(all="ignore"):
        se = np.sqrt(np.diag(vm))
        t = b[:m] / se
    eq(what + "std_err", reg.std_err, se, rtol=rtol)
    if dist == "t":
        has(reg, "t_stat")
        st_, p = reg.t_stat, 2 * stats.t.sf(np.abs(t), reg.n - reg.k)
    else:
        has(reg, "z_stat")
        st_, p = reg.z_stat, 2 * stats.norm.sf(np.abs(t))
    same(what + "number of test statistics", len(st_), m)
    eq(what + dist + "-statistics", [s[0] for s in st_], t, rtol=rtol, scale=0, atol=1e-12)
    eq(what + dist + " p-values", [s[1] for s in st_], p, rtol=1e-7, scale=0, atol=1e-13)


def table(reg, names=None, dist="z", ncoef=None, order_free=False):
    """reg.output rows carry the right coefficient/se/stat/p for each variable."""
    has(reg, "output")
    o = reg.output
    b = arr(reg.betas).reshape(-1)
    m = arr(reg.vm).shape[0]
    same("output rows", len(o), len(b))
    st_ = reg.t_stat if dist == "t" else reg.z_stat
    idx = list(o.index)
    same("output index is a permutation", sorted(idx), list(range(len(b))))
    eq("output coefficients", o["coefficients"].astype(float).to_numpy(), b[idx], rtol=1e-12, scale=0)
    for r, i in enumerate(idx):
        row = o.iloc[r]
        if i < m:
            eq("output std_err[%d]" % i, float(row["std_err"]), float(np.sqrt(arr(reg.vm)[i, i])), rtol=1e-9)
            eq("output zt_stat[%d]" % i, float(row["zt_stat"]), float(st_[i][0]), rtol=1e-9)
            eq("output prob[%d]" % i, float(row["prob"]), float(st_[i][1]), rtol=1e-9, atol=1e-15)
        if names is not None:
            same("output variable name of coefficient %d" % i, row["var_names"], names[i])


SKIP_ATTR = {"w", "name_w", "cache", "_cache"}


def eq_value(name, g, w, rtol=1e-9, key=None, depth=0):
    """recursive comparison of result values (numbers, arrays, frames, sequences, dicts, text)"""
    import pandas as pd
    from scipy import sparse
    if isinstance(w, pd.DataFrame):
        ok(isinstance(g, pd.DataFrame), "%s: not a DataFrame" % name, key)
        same(name + ": columns", list(g.columns), list(w.columns), key)
        same(name + ": index", list(g.index), list(w.index), key)
        for c in w.columns:
            eq_value("%s[%s]" % (name, c), g[c].tolist(), w[c].tolist(), rtol, key, depth + 1)
    elif isinstance(w, pd.Series):
        eq_value(name, list(g), w.tolist(), rtol, key, depth + 1)
    elif sparse.issparse(w):
        eq(name, g, w, rtol=rtol, key=key)
    elif isinstance(w, np.ndarray) and w.dtype.kind in "fiub":
        eq(name, g, w, rtol=rtol, key=key)
    elif isinstance(w, np.ndarray):
        same(name, np.asarray(g).tolist(), w.tolist(), key)
    elif isinstance(w, (str, bool, type(None))) or isinstance(w, np.bool_):
        same(name, g, w, key)
    elif isinstance(w, (int, float, np.number)):
        eq(name, g, float(w), rtol=rtol, atol=1e-300, key=key)
    elif isinstance(w, (list, tuple)):
        ok(isinstance(g, (list, tuple)) and len(g) == len(w), "%s: %r, expected %r" % (name, str(g)[:150], str(w)[:150]), key)
        for i, (a, b) in enumerate(zip(g, w)):
            eq_value("%s[%d]" % (name, i), a, b, rtol, key, depth + 1)
    elif isinstance(w, dict):
        ok(isinstance(g, dict), "%s: not a dict" % name, key)
        same(name + ": keys", sorted(map(str, g)), sorted(map(str, w)), key)
        for k in w:
            eq_value("%s[%r]" % (name, k), g[k], w[k], rtol, key, depth + 1)
    elif hasattr(w, "__dict__") and depth < 4 and not callable(w):
        eq_result(g, w, rtol, what=name + ".", key=key, depth=depth + 1)


def attrs(m):
    """public result attributes, cached properties included"""
    d = {k: v for k, v in vars(m).items() if not k.startswith("_")}
    for k in ("vm", "utu", "sig2n", "sig2n_k", "mean_y", "std_y"):
        if k not in d:
            try:
                d[k] = getattr(m, k)
            except Exception:
                pass
    return d


def eq_result(a, b, rtol=1e-9, what="", key=None, depth=0, skip=()):
    """every public attribute of b is on a with the same value"""
    da, db = attrs(a), attrs(b)
    miss = [k for k in db if k not in da and k not in SKIP_ATTR and k not in skip]
    ok(not miss, "%smissing attributes %s" % (what, miss), key)
    for k in sorted(db):
        if k in SKIP_ATTR or k in skip:
            continue
        eq_value(what + k, da[k], db[k], rtol, key, depth + 1)

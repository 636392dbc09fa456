"""Data-generating functions: structural equation residuals."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.linalg import expm
from vlib import gen, ref
from vlib.core import Sub, sut, Reject
from vlib.cmp import *

TITLE = "Data-generating functions"
RULE = ("every dgp_* function x weights families, ids and transforms x spatial parameters in (-0.95, 0.95) x processes x inversion methods x binary outcomes x dtypes; the y returned is put back in the structural equation "
        "(dense matrices); mismatched dimensions and unknown options; make_* helpers against their definitions and distributions; non-trivial = a spatial parameter away from zero or a fault injected")
ASSUMPTIONS = ["parameter times spectral radius of the weights below one, bound of the power series", "error distributions judged by Kolmogorov-Smirnov at p < 1e-9 on 3000 draws",
               "the lognormal's mu and varu are those of its logarithm, the uniform starts at zero (as the source says)"]

FUNCS = ["errproc", "ols", "slx", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns", "mess", "probit"]
PAR = st.sampled_from([0.0, 0.3, 0.5, -0.4, 0.8, -0.8, 0.95, 0.1])


def strat():
    return st.fixed_dictionaries({"f": st.sampled_from(FUNCS), "n": st.integers(5, 60), "w": gen.w_spec(n=20, transforms=("r", "r", "s", "b", "d", "o", "v")), "k": st.integers(1, 4), "o": st.integers(1, 3), "seed": gen.SEED,
                                  "rho": PAR, "lam": PAR, "model": st.sampled_from(["sar", "ma"]), "im": st.sampled_from(["power_exp", "true_inv"]), "ybin": st.sampled_from([False, False, True]), "x": st.sampled_from(gen.X_KINDS),
                                  "dt": st.sampled_from(["float", "float", "int"]), "dflt": st.booleans(), "fault": st.sampled_from([None] * 5 + ["w", "u", "xb", "wxg", "model"])})


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*a, **k)
    return r, out.getvalue()


def run(s):
    import spreg
    n, k = s["n"], s["k"]
    s["w"]["n"] = n
    w, W = gen.build_w(s["w"])
    g = gen.rng(s["seed"], 601)
    rad = max(1.0, ref.specrad(W))
    ma = s["model"] == "ma"
    f = s["f"]
    rho, lam = s["rho"] / rad, s["lam"] / (1 if ma else rad)
    if s["dflt"]:
        if rad > 1.5:
            raise Reject("default parameters do not converge")
        rho, lam = 0.5, (0.2 if f in ("lagerr", "gns") else 0.5)
    X = gen.x_matrix(n, k, s["x"], s["seed"])
    beta = [float(v) for v in np.round(g.uniform(-2, 2, k + 1), 2)]
    u = g.standard_normal((n, 1))
    if s["dt"] == "int":
        u = np.round(u * 5).astype(int)
    I = np.eye(n)
    with sut("make_*"):
        xb = spreg.make_xb(X, beta)
        wx = spreg.make_wx(X, w, o=s["o"]) if s["o"] > 1 else spreg.make_wx(X, w)
    eq("make_xb", xb, ref.const(X) @ np.array(beta).reshape(-1, 1), rtol=1e-12)
    lags = [X]
    for _ in range(s["o"]):
        lags.append(W @ lags[-1])
    WX = np.hstack(lags[1:])
    eq("make_wx", wx, WX, rtol=1e-12)
    gam = [float(v) for v in np.round(g.uniform(-2, 2, WX.shape[1]), 2)]
    with sut("make_wxg"):
        wxg = spreg.make_wxg(wx, gam)
    same("make_wxg shape", wxg.shape, (n, 1))
    eq("make_wxg", wxg, WX @ np.array(gam).reshape(-1, 1), rtol=1e-12)
    for fn, want in ((lambda: spreg.make_xb(X, beta + [1.0]), "make_xb"), (lambda: spreg.make_wxg(np.hstack([wx, wx]), gam), "make_wxg"), (lambda: spreg.make_wx(X[:-1], w), "make_wx")):
        with sut(want + " on mismatched input"):
            r, txt = quiet(fn)
        ok(r is None and txt.strip(), "%s with mismatched dimensions: returned %r, message %r" % (want, r, txt))
    # ------------------------------------------------------------- arguments
    uses = {"errproc": "u w", "ols": "u xb", "slx": "u xb wxg", "sperror": "u xb w", "slxerror": "u xb wxg w", "lag": "u xb w", "spdurbin": "u xb wxg w", "lagerr": "u xb w", "gns": "u xb wxg w", "mess": "u xb w", "probit": "u xb"}[f].split()
    a = {"u": u, "xb": xb, "wxg": wxg, "w": w}
    kw = {}
    hasmodel = f in ("errproc", "sperror", "slxerror", "lagerr", "gns")
    if hasmodel and (ma or not s["dflt"]):
        kw["model"] = s["model"]
    if f not in ("ols", "slx", "mess", "probit") and s["im"] != "power_exp":
        kw["imethod"] = s["im"]
    if not s["dflt"]:
        if f in ("lag", "spdurbin", "lagerr", "gns", "mess"):
            kw["rho"] = rho
        if hasmodel:
            kw["lam"] = lam
    if f == "mess":
        rho = kw.get("rho", 0.5)
    fun = getattr(spreg, "dgp_" + f)
    fault = s["fault"]
    if fault in ("w", "u", "xb", "wxg") and fault in uses or fault == "model" and hasmodel:
        b = dict(a)
        m = n + 2
        if fault == "w":
            b["w"] = gen.build_w(dict(s["w"], n=m))[0]
        elif fault == "model":
            kw["model"] = "car"
        else:
            b[fault] = np.vstack([b[fault], b[fault][:2]])
        with sut("dgp_%s with a wrong %s" % (f, fault)):
            r, txt = quiet(fun, *[b[v] for v in uses], **kw)
        ok(r is None, "dgp_%s with a wrong %s returned %r" % (f, fault, type(r)))
        ok(bool(txt.strip()), "dgp_%s with a wrong %s gave no message" % (f, fault))
        return {"labels": [f, "fault:" + fault]}
    snap = {v: np.array(a[v], copy=True) for v in ("u", "xb", "wxg")}
    with sut("dgp_" + f):
        y = fun(*[a[v] for v in uses], **kw)
    for v in snap:
        ok(np.array_equal(a[v], snap[v]), "dgp_%s changed its argument %s" % (f, v))
    same("dgp_%s shape" % f, np.shape(y), (n, 1))
    y = np.asarray(y, dtype=float)
    # ------------------------------------------------------------- structural equation
    A = I - rho * W
    B = I - lam * W
    err = lambda r: (u + lam * W @ u) if ma else np.linalg.solve(B, u)
    mean = (xb if "xb" in uses else 0) + (wxg if "wxg" in uses else 0)
    sc = float(max(1.0, np.abs(u).max(), np.abs(mean).max()))
    if f == "errproc":
        lhs, rhs = (y, u + lam * W @ u) if ma else (B @ y, u)
    elif f in ("ols", "slx"):
        lhs, rhs = y, mean + u
    elif f in ("sperror", "slxerror"):
        lhs, rhs = (y - mean, u + lam * W @ u) if ma else (B @ (y - mean), u)
    elif f in ("lag", "spdurbin"):
        lhs, rhs = A @ y, mean + u
    elif f in ("lagerr", "gns"):
        e = A @ y - mean
        lhs, rhs = (e, u + lam * W @ u) if ma else (B @ e, u)
    elif f == "mess":
        lhs, rhs = expm(np.log(1 - rho) * W) @ y, mean + u
    if f == "probit":
        z = mean + u
        want = (z > z.mean()).astype(float)
        near = np.abs(z - z.mean()) < 1e-9 * sc
        eq("dgp_probit", np.where(near, 0, y), np.where(near, 0, want))
    else:
        amp = float(np.abs(np.linalg.inv(A)).sum(1).max()) if f in ("lag", "spdurbin", "lagerr", "gns") else 1.0
        amp *= float(np.abs(np.linalg.inv(B)).sum(1).max()) if hasmodel and not ma else 1.0
        eq("dgp_%s structural equation (left side at the returned y)" % f, lhs, rhs, rtol=1e-9, atol=1e-8 + 1e-12 * sc * amp, scale=sc)
        if s["ybin"] and f not in ("errproc", "ols", "mess"):
            with sut("dgp_%s ybin" % f):
                yb = fun(*[a[v] for v in uses], ybin=True, **kw)
            near = np.abs(y - y.mean()) < 1e-7 * sc * amp
            ok(set(np.unique(yb)) <= {0, 1}, "binary outcome has other values")
            eq("dgp_%s binary outcome" % f, np.where(near, 0, yb), np.where(near, 0, y > y.mean()))
    return {"labels": [f, s["model"] if hasmodel else "-", s["im"], s["w"]["t"]], "nontrivial": bool(rho if f in ("lag", "spdurbin", "lagerr", "gns", "mess") else lam if hasmodel else True)}


# ------------------------------------------------------------------------ helpers
def strat_mk():
    return st.fixed_dictionaries({"seed": gen.SEED, "mu": st.sampled_from([0.0, 1.0, -2.0, 10.0]), "var": st.sampled_from([1.0, 4.0, 0.25, 0.09]), "m2": st.sampled_from([0.0, 3.0]), "v2": st.sampled_from([1.0, 9.0]), "cor": st.sampled_from([0.0, 0.5, -0.8]),
                                  "n": st.integers(3, 40), "lo": st.sampled_from([1, 0.5, 2]), "hi": st.sampled_from([4, 3, 10]), "groups": st.lists(st.integers(1, 6), min_size=1, max_size=5)})


def ks(name, x, cdf):
    p = stats.kstest(np.asarray(x).reshape(-1), cdf).pvalue
    ok(p > 1e-9, "%s does not follow its distribution (Kolmogorov-Smirnov p = %.2g)" % (name, p))


def run_mk(s):
    import spreg
    N = 3000
    mu, v = s["mu"], s["var"]
    R = lambda i=0: np.random.default_rng(s["seed"] + i)
    for m, dist in (("normal", stats.norm(mu, v ** .5)), ("laplace", stats.laplace(mu, (v / 2) ** .5)), ("cauchy", stats.cauchy(0, 1)), ("lognormal", stats.lognorm(v ** .5, scale=np.exp(mu)))):
        with sut("make_error " + m):
            u = spreg.make_error(R(), N, mu=mu, varu=v, method=m)
            u2 = spreg.make_error(R(), N, mu=mu, varu=v, method=m)
        same("make_error shape", u.shape, (N, 1))
        ok(np.array_equal(u, u2), "make_error is not a function of its generator")
        ks("make_error " + m, u, dist.cdf)
    with sut("make_error default"):
        ks("make_error default", spreg.make_error(R(9), N), stats.norm(0, 1).cdf)
    r, txt = quiet(spreg.make_error, R(), 10, method="poisson")
    ok(r is None and txt.strip(), "make_error with an unknown distribution returned %r" % (r,))
    vs, ms = [v, s["v2"]], [mu, s["m2"]]
    with sut("make_x"):
        xu = spreg.make_x(R(), N, mu=ms, varu=vs)
        xn = spreg.make_x(R(), N, mu=ms, varu=vs, method="normal")
        xb = spreg.make_x(R(), N, mu=ms, varu=vs, cor=s["cor"], method="bivnormal")
    for j in range(2):
        ks("make_x uniform %d" % j, xu[:, j], stats.uniform(0, (12 * vs[j]) ** .5).cdf)
        ks("make_x normal %d" % j, xn[:, j], stats.norm(ms[j], vs[j] ** .5).cdf)
        ks("make_x bivnormal %d" % j, xb[:, j], stats.norm(ms[j], vs[j] ** .5).cdf)
    z = (xb - ms) / np.sqrt(vs)
    t = np.arctanh(np.corrcoef(z.T)[0, 1]) - np.arctanh(s["cor"])
    ok(abs(t) * (N - 3) ** .5 < 6.5, "make_x bivnormal: correlation %.3f, asked %.3f" % (np.corrcoef(z.T)[0, 1], s["cor"]))
    for x in (xu, xn):
        ok(abs(np.corrcoef(x.T)[0, 1]) < 6.5 / N ** .5, "make_x: independent columns are correlated")
    for a in (dict(mu=[0, 1], varu=[1]), dict(mu=[0], varu=[1], method="beta"), dict(mu=[0, 1, 2], varu=[1, 1, 1], method="bivnormal")):
        with sut("make_x %s" % a):
            r, txt = quiet(spreg.make_x, R(), 10, **a)
        ok(r is None, "make_x%s returned %r" % (a, r))
    # variance multipliers
    n, lo, hi = s["n"], s["lo"], s["hi"]
    with sut("make_vmult"):
        vl = spreg.make_vmult(n, vlow=[lo], vup=[hi])
        vu = spreg.make_vmult(N, "uniform", vlow=[lo], vup=[hi], rng=R(3))
        gs = s["groups"]
        mult = [i + 1.5 for i in range(len(gs))]
        vg = spreg.make_vmult(sum(gs), "group", vlow=gs, vup=mult)
    same("make_vmult shape", vl.shape, (n, 1))
    eq("make_vmult linear", vl, np.linspace(lo, hi, n), rtol=1e-12)
    ks("make_vmult uniform", vu, stats.uniform(lo, hi - lo).cdf)
    eq("make_vmult group", vg.reshape(-1), np.repeat(mult, gs))
    for a in ((n, "group", [n + 1], [2]), (n, "group", [n], [2, 3]), (n, "uniform"), (n, "cubic")):
        r, txt = quiet(spreg.make_vmult, *a)
        ok(r is None and txt.strip(), "make_vmult%s returned %r" % (a, r))
    u = spreg.make_error(R(4), n)
    with sut("make_heterror"):
        h = spreg.make_heterror(u, vl)
    eq("make_heterror", h, u * np.sqrt(vl), rtol=1e-13)
    r, txt = quiet(spreg.make_heterror, u[:-1], vl)
    ok(r is None and txt.strip(), "make_heterror with mismatched vectors returned %r" % (r,))
    with sut("make_bin"):
        b = spreg.make_bin(u)
    eq("make_bin", b, (u > u.mean()).astype(int))
    return {}


SUBS = [Sub("dgp", strat, run, quick=2400, thorough=40000), Sub("makers", strat_mk, run_mk, quick=80, thorough=1500)]

"""Regime cases: labels, interacted designs, within-regime weights (independent of spreg.regimes)."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from . import gen, ref
from .core import Reject

LABELS = {"str": ["north", "south", "east", "west", "ne", "nw", "se", "sw", "centre", "isle", "x"], "int": list(range(1, 12)), "unsorted": [30, 7, 100, -2, 5, 11, -30, 64, 1000, 0, 12],
          "float": [2.0, 1.0, 10.0, 5.0, 3.0, 7.0, 20.0, 4.0, 9.0, 11.0, 0.0], "frac": [1.5, 0.5, 2.25, 1.25, 10.5, 9.5, -1.5, 3.0, 100.25, 4.75, 0.125], "mixedcase": ["b", "A", "1", "10", "2", "a", "B", "20", "c", "Z", "z"],
          "neg": list(range(-1, 10)), "bool": [True, False]}
SPEC = {"R": st.sampled_from([2, 2, 3, 4]), "lab": st.sampled_from(sorted(LABELS)), "lay": st.sampled_from(["mix", "sorted", "cycle", "uneven"]),
        "box": st.sampled_from(["list", "list", "array", "series"]), "many": st.sampled_from([0] * 14 + [6, 11])}
OPTS = {"const": st.sampled_from(["many", "many", "one"]), "cols": st.integers(0, 31), "errsep": st.booleans()}


def grow(s, per=16):
    """a share of the cases has many regimes, and observations enough for them"""
    if s.get("many") and s["lab"] != "bool":
        s["R"] = s["many"]
        s["n"] = max(s["n"], per * s["R"])


def labels(s, n):
    """-> list of native labels, one per observation; every regime is present"""
    R = s["R"] if s["lab"] != "bool" else 2
    g = gen.rng(s["d"]["seed"], 71)
    v = LABELS[s["lab"]][:max(4, R)]
    if g.random() < 0.5:
        v = v[::-1]
    v = v[:R]
    if s["lay"] == "uneven":
        p = np.array([1.6] + [1.0] * (R - 1))
        i = np.searchsorted(np.cumsum(p / p.sum()), (np.arange(n) + 0.5) / n)
        g.shuffle(i)
    else:
        i = np.arange(n) % R
        if s["lay"] == "mix":
            g.shuffle(i)
        elif s["lay"] == "sorted":
            i = np.sort(i)
    return [v[j] for j in i]


def box(s, lab):
    if s["box"] == "array":
        return np.array(lab)
    if s["box"] == "series":
        return pd.Series(lab, name="myregime")
    return list(lab)


def order(lab):
    return sorted(set(lab))


def text(r):
    """how a label appears in names: integral floats lose their point"""
    return str(r)


def textset(lab):
    u = order(lab)
    if isinstance(u[0], float) and all(v == int(v) for v in u):
        # documented conversion of integral regimes codes read as floats
        return [str(int(v)) for v in u]
    return [str(v) for v in u]


def masks(lab):
    a = np.array([str(v) for v in lab])
    return {r: a == str(r) for r in order(lab)}


def colmask(s, k):
    """which of k variables vary by regime ('all' -> None)"""
    if s["cols"] == 0 or s["cols"] == 31:
        return None
    return [bool((s["cols"] >> (j % 5)) & 1) for j in range(k)]


def interact(X, vary, lab):
    """[r1 varying columns, r2 varying columns, ..., global columns]"""
    vary = np.array(vary, dtype=bool)
    M = masks(lab)
    if not len(vary):
        return X
    B = [X[:, vary] * M[r].reshape(-1, 1) for r in order(lab)]
    return ref.cat(*B, X[:, ~vary])


def inames(nm, vary, lab):
    out = []
    for t in textset(lab):
        out += ["%s_%s" % (t, v) for v, b in zip(nm, vary) if b]
    return out + ["_Global_%s" % v for v, b in zip(nm, vary) if not b]


def block_inames(nm, lab):
    return ["%s_%s" % (t, v) for t in textset(lab) for v in nm]


def within(D, lab):
    """raw weights between observations of the same regime"""
    a = np.array([str(v) for v in lab])
    return D * (a[:, None] == a[None, :])


def enough(X, lab, kk, cond=500):
    for r, m in masks(lab).items():
        if m.sum() < kk or ref.cond(X[m]) > cond:
            raise Reject("ill-conditioned regime")


def linkup(D, lab, g, weighted):
    """add a ring inside every regime so that within-regime weights have no islands"""
    a = np.array([str(v) for v in lab])
    for r in sorted(set(a)):
        idx = np.nonzero(a == r)[0]
        for p in range(len(idx)):
            i, j = idx[p], idx[(p + 1) % len(idx)]
            if i != j and D[i, j] == 0:
                v = 0.2 + g.random() if weighted else 1.0
                D[i, j] = v
                D[j, i] = v if D[j, i] == 0 else D[j, i]
    return D


def weights(s, n, lab, link=True):
    """-> W object, dense W used, raw dense weights, transform letter"""
    s["w"]["n"] = n
    D = gen.dense_w(s["w"])
    g = gen.rng(s["w"]["seed"], 72)
    if link:
        D = linkup(D, lab, g, s["w"]["kind"] in ("dist", "asym"))
    t = s["w"].get("t", "r")
    ids = gen.ids_of(s["w"])
    if t in ("o", "s"):
        D = gen.transform_dense(D, t)
        return gen.to_w(D, ids), D, D, "o"
    return gen.to_w(D, ids, transform=t), gen.transform_dense(D, t), D, t


def shift(s, y, X, lab):
    """make the coefficients differ between regimes"""
    g = gen.rng(s["d"]["seed"], 73)
    xs = X / (X.std(0) + 1e-12)
    for r, m in masks(lab).items():
        y = y + m.reshape(-1, 1) * (g.uniform(-1, 1) + xs @ g.uniform(-1, 1, (X.shape[1], 1))) * s["d"]["yscale"]
        if s.get("ghet"):
            y = y + m.reshape(-1, 1) * g.standard_normal(y.shape) * g.uniform(0, 2) * s["d"]["yscale"]
    return y

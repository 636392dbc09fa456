"""Meaning of reported variable names: W_x is W x, Wk_x is W^k x."""
import re
import numpy as np
from .core import Violation


def col(name, base, W):
    """the column a reported name stands for"""
    n = W.shape[0] if W is not None else next(iter(base.values())).shape[0]
    if name == "CONSTANT":
        return np.ones((n, 1))
    if name in base:
        return base[name]
    m = re.match(r"W(\d*)_(.+)$", name)
    if m and m.group(2) in base:
        v = base[m.group(2)]
        for _ in range(int(m.group(1) or 1)):
            v = W @ v
        return v
    raise Violation("reported name %r does not denote a variable of the model" % name)


def lagnames(names, k, start=1):
    return [("W_" if p == 1 else "W%d_" % p) + v for p in range(start, start + k) for v in names]


def check_columns(what, M, names, base, W, rtol=1e-9):
    from .cmp import same, eq, arr
    M = arr(M)
    same(what + ": one name per column", M.shape[1], len(names))
    for j, nm in enumerate(names):
        eq("%s column %d named %r" % (what, j, nm), M[:, [j]], col(nm, base, W), rtol=rtol)

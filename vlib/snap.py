"""Deep snapshots of inputs and history of calls: nothing passed to the library may change."""
import numpy as np
import pandas as pd
from scipy import sparse
from .core import Violation


def snap(o, depth=0):
    """a comparable deep copy of everything a caller can see in o"""
    from libpysal.weights import W
    from libpysal.graph import Graph
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
        return ("v", type(o).__name__, repr(o))
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.flags.writeable, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, pd.Series):
        return ("s", repr(o.name), str(o.dtype), repr(list(o.index)), snap(o.to_numpy()))
    if isinstance(o, pd.DataFrame):
        return ("d", repr(list(o.columns)), repr([str(t) for t in o.dtypes]), repr(list(o.index)), tuple(snap(o.iloc[:, j].to_numpy()) for j in range(o.shape[1])))
    if sparse.issparse(o):
        c = o.tocoo()
        k = np.lexsort((c.col, c.row))
        return ("m", type(o).__name__, o.shape, c.row[k].tobytes(), c.col[k].tobytes(), c.data[k].tobytes())
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v, depth + 1) for v in o))
    if isinstance(o, W):
        ids = list(o.id_order)
        return ("W", type(o).__name__, o.transform, repr(ids), tuple((repr(i), repr(list(o.neighbors[i])), repr([float(v) for v in o.weights[i]])) for i in ids),
                snap(o.sparse), repr(sorted((k, v) for k, v in vars(o).items() if isinstance(v, (bool, int, float, str)) and not k.startswith("_"))))
    if isinstance(o, Graph):
        return ("G", o.transformation, repr(list(o.unique_ids)), snap(o.adjacency.reset_index(drop=True)), repr(list(o.adjacency.index)))
    return ("o", type(o).__name__)


def diff(a, b, path):
    """first difference of two snapshots"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "/%s" % (a[0] if isinstance(a[0], str) and i else i))
            if d:
                return d
    return "%s: %s -> %s" % (path, str(a)[:120], str(b)[:120])


class Watch:
    def __init__(self, **objs):
        self.objs = objs
        self.before = {k: snap(v) for k, v in objs.items()}

    def check(self, what):
        for k, v in self.objs.items():
            d = diff(self.before[k], snap(v), k)
            if d:
                raise Violation("%s changed its argument %s: %s" % (what, k, d))

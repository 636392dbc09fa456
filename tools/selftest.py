"""setup_cmd: checks that the framework can load (interpreter, hypothesis, spreg, references)."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import boot
spreg = boot.boot()
import hypothesis
import numpy as np
from vlib import gen, ref
for kind in gen.W_KINDS:
    for t in "rbodvs":
        w, D = gen.build_w({"kind": kind, "n": 17, "seed": 5, "t": t, "ids": "str"})
        assert np.allclose(w.full()[0], D, atol=1e-14), (kind, t)
        assert (D.sum(1) > 0).all() and np.all(np.diag(D) == 0)
print("ok", spreg.__file__, hypothesis.__version__, np.__version__)

"""Make `hypothesis` (tool venv) and `spreg` (/repo working tree) importable."""
import importlib.machinery
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = ("hypothesis", "sortedcontainers", "_hypothesis_globals",
          "_hypothesis_pytestplugin", "_hypothesis_ftz_detector")


class _ToolFinder:
    """Resolve only hypothesis and its one dependency from the tool venv."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name.split(".")[0] in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def boot():
    if not any(f is _ToolFinder for f in sys.meta_path):
        sys.meta_path.append(_ToolFinder)
    if "MPLCONFIGDIR" not in os.environ or os.environ["MPLCONFIGDIR"].startswith("/opt/vp"):
        os.environ["MPLCONFIGDIR"] = os.path.join(tempfile.gettempdir(), "verif-mpl")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(tempfile.gettempdir(), "verif-numba")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tempfile.gettempdir(), "verif-hyp")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import spreg
    f = os.path.realpath(spreg.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("spreg imported from %s, not from %s" % (f, REPO))
    return spreg

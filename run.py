#!/usr/bin/env python
"""Entry point of every registered check:  run.py P01 [--tier quick|thorough] [--replay FILE]

Must be started with the interpreter spreg's own dependencies live in
(/opt/venv/bin/python).  See DESIGN.md for the architecture.
"""
import os
import sys

sys.dont_write_bytecode = True
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMBA_NUM_THREADS", "NUMEXPR_NUM_THREADS", "NUMEXPR_MAX_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "Agg"
if os.environ.get("PYTHONHASHSEED") != "0":
    # one fixed hash seed: nothing here may depend on set/dict hash order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if __name__ == "__main__":
    from vlib import core
    sys.exit(core.main(sys.argv[1:]))

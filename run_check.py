#!/usr/bin/env python3
"""Entry point of every registered check:  run_check.py P11 --tier quick|thorough [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "PYTHONWARNINGS": "ignore", "PYTHONPATH": ""}

if os.environ.get("VERIF_BOOTSTRAPPED") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_BOOTSTRAPPED"] = "1"
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

if __name__ == "__main__":
    if "--setup" in sys.argv:
        from vlib import boot
        boot.setup()
        import hypothesis
        print("hypothesis", hypothesis.__version__, "ready; nothing to build")
        sys.exit(0)
    sys.exit(core.main(sys.argv[1:]))

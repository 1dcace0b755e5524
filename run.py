#!/usr/bin/env python3
"""Entry point of every check.

  python3 run.py P05 [--tier quick|thorough] [--replay FILE] [--sub NAME] [--jobs N] [--scale X]
  python3 run.py --setup

Exit 0: the property held on everything explored.  Exit 1 plus a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: harness error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
           MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MKL_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE", PYTHONNOUSERSITE="1")


def reexec():
    if os.environ.get("FPCHECK_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    env["FPCHECK_CHILD"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    sys.stdout.flush()
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    reexec()
    sys.path.insert(0, HERE)
    from fpcheck import main
    sys.exit(main.main(sys.argv[1:]))

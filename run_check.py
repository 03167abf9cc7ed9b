#!/usr/bin/env python3
"""run_check.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "SYMX_CHILD": "1"}
if os.environ.get("SYMX_CHILD") != "1" or os.path.realpath(sys.executable) != os.path.realpath(PY):
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault("HOME", "/root")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
# z3 lives in the tooling venv (same Python version); appended last so that it shadows nothing
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings

warnings.filterwarnings("ignore")
from symx import runner

sys.exit(runner.main(sys.argv[1], sys.argv[2:]))

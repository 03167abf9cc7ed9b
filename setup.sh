#!/bin/bash
# Nothing is compiled: check that the interpreter, z3 and the code under test can be imported together.
set -e
cd "$(dirname "$0")"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME=${HOME:-/root}
/opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, ".")
import z3, qermit, symx.engine, symx.shims
print("z3", z3.get_version_string(), "qermit", qermit.__path__)
P

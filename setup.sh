#!/bin/bash
# nothing to build: checks that the interpreter, the solver and paramz can be imported
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import numpy, scipy, paramz; print(paramz.__file__)"
/opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print(z3.get_version_string())"
/opt/venv/bin/python -m deduct.selfcheck 1 8   # the meaning given to numpy against the installed numpy
mkdir -p evidence replay

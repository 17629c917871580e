#!/bin/bash
# Nothing to compile: checks that the interpreter and the libraries needed are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "
import sys
sys.path[:0] = ['.', '/repo']
from dst import env
import numpy, pandas, pyarrow, casadi, jax, cyipopt
print('ok', numpy.__version__, casadi.__version__, jax.__version__)"

#!/bin/bash
# run_check.sh check ID [--tier=quick|thorough] | replay FILE | one ID N | digests ID N WORKERS
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" JAX_PLATFORMS=cpu \
  OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 HOME="${HOME:-/root}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" dst/main.py "$@"

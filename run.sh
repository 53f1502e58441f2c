#!/bin/bash
# run.sh Cxx [options]: deterministic environment for one check
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE TZ=UTC LC_ALL=C
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
exec "$PY" run.py "$@"

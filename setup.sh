#!/bin/bash
# nothing is built: pure Python; checks that the interpreter and the package can be imported
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
"$PY" -c "
import sys; sys.path[:0] = ['.', '/repo/src']
import numpy, scipy, xarray, h5netcdf, climate_indices
print('ready', sys.version.split()[0], numpy.__version__, xarray.__version__)"

#!/bin/bash
# Nothing has to be built: the checks import magnopy from /repo/src at run time.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=/repo/src:. /opt/venv/bin/python -c "import hypothesis, numpy, h5py, magnopy, vlib.run; print('ready', magnopy.__file__)"

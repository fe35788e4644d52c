#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE]
# Runs the check of one property against the code in /repo's working tree.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/verif/harness:/repo
exec /opt/venv/bin/python -W ignore harness/main.py "$@"

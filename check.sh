#!/bin/bash
# check.sh <property> [args]: run one check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m mc.run "$@"

#!/bin/bash
# usage: check.sh PROPERTY [run.py options] -- run one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/aeolis-verif-mpl}"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python harness/run.py "$@"

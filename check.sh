#!/bin/bash
# check.sh <property id> <tier> [--replay FILE]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif_mpl.$$"
mkdir -p "$MPLCONFIGDIR"
unset PYTHONPATH
/opt/venv/bin/python run.py "$@"
rc=$?
rm -rf "${MPLCONFIGDIR:?}"
exit $rc

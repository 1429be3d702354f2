#!/bin/bash
# check.sh <ID> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS="${OMP_NUM_THREADS:-4}" NUMEXPR_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}"
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python harness/main.py "$1" "$VERIF_TIER"

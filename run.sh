#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="$VERIF_REPO" MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$here/mc/main.py" "$@"

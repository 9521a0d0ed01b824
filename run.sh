#!/bin/bash
# usage: run.sh <PROPERTY> [--replay FILE] [--tier quick|thorough] [--sub NAME]
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore PIP_NO_INDEX=1
exec /opt/venv/bin/python -B "$HERE/vf/main.py" "$@"

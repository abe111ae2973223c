#!/bin/bash
# bash run.sh <property-id> [quick|thorough] [--replay FILE]
# Runs one check against the working tree of the repository (/repo, or $VERIF_REPO).
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="${1:?usage: run.sh ID [quick|thorough] [--replay FILE]}"; shift
TIER="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) TIER="$1"; shift;; esac
export VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export LC_ALL=C.UTF-8
unset NUMBA_DISABLE_JIT
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$HERE" || exit 2
exec "$PY" -B "$HERE/harness/run.py" "$ID" "$TIER" "$@"

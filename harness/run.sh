#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
P=$(echo "$1" | tr A-Z a-z)
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" "$P.py" "$VERIF_TIER"

#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || { echo "no $PY" >&2; exit 2; }
if [ "$1" = replay ]; then exec "$PY" -m sim.cli replay "$2"; fi
exec "$PY" -m sim.cli check "$1" "${2:-${VERIF_TIER:-quick}}"

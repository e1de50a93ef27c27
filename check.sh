#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
id="$1"; shift
tier="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) tier="$1"; shift;; esac
export VERIF_TIER="$tier"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="/verif-none"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -u -c 'import sys; sys.path.insert(0, sys.argv.pop(1)); from vp.core import main; sys.exit(main(sys.argv[1:]))' "$PWD" "$id" "$@"

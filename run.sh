#!/bin/bash
# usage: run.sh <property id> [--replay file]    (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
export PYTHONPATH="$PWD"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m mc.core "$@"

#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" mc/main.py "$@"

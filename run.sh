#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--only GLOB | --replay FILE]: one model check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -B mc/lib.py "$@"

#!/bin/bash
# usage: ./run.sh <property id> | setup | list        (run from anywhere)
# Runs one check against /repo's current working tree with a pinned environment.
cd "$(dirname "$0")" || exit 2
export LC_ALL=en_US.UTF-8 LANG=en_US.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset PYTHONPATH PYTHONHOME DISPLAY LANGUAGE PYTHONWARNINGS
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=/usr/bin/python3
exec "$PY" -B harness/main.py "$@"

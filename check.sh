#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]; see rv/run.py
cd "$(dirname "$0")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP
export PYTHONDONTWRITEBYTECODE=1
exec "$py" -m rv.run "$1" --tier "${2:-${VERIF_TIER:-quick}}"

#!/bin/sh
# usage: check.sh <property id> [--replay FILE]   (VERIF_SEED, VERIF_TIER in the environment)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pyc PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -B "$here/lib/main.py" "$@"

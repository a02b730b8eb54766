#!/bin/bash
# ./run.sh PROPERTY [args]: one check, from anywhere
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m pbt.check "$@"

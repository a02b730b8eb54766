#!/bin/bash
# Nothing to build: checks the tools and the reference the checks rely on.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m pbt.selftest

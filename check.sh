#!/bin/sh
# usage: check.sh <property id> [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0
exec /opt/venv/bin/python -B mc/run.py "$@"

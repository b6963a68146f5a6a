#!/bin/bash
# bash check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
# Runs one property's monitors against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -B run.py "$@"

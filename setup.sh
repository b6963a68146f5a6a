#!/bin/bash
# Nothing to compile: the checks import /repo/src directly. Verifies the tools and the oracles' own self-test.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -B selftest.py

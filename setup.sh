#!/bin/bash
# The library is imported straight from /repo; nothing is compiled.  Make sure
# the interpreter and the oracles work.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$here"
exec /opt/venv/bin/python -B -W ignore tools/selftest.py

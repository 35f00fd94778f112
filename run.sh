#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay file]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here"
export PYSCF_TMPDIR="${TMPDIR:-/tmp}"
exec /opt/venv/bin/python -B -W ignore -m mon.main "$@"

#!/bin/bash
# check.sh PID [--tier quick|thorough] [--replay FILE] [--sub NAME]
# Decides one property against the working tree of /repo.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$HERE"
export HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent-hypothesis
exec /opt/venv/bin/python -B -W ignore -m vlib.main "$@"

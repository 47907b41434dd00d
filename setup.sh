#!/bin/bash
# Nothing to build: checks that the interpreter, hypothesis and qopt import.
set -eu
cd "$(dirname "${BASH_SOURCE[0]}")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B -W ignore -c 'import vlib.core, qopt; print("ready")'

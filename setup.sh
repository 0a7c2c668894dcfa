#!/bin/bash
# Nothing is compiled: the checks import the code from /repo's working tree when they run.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" "$PY" -B -c "import lib.mc, edk2toollib; print('edk2toollib from', list(edk2toollib.__path__))"

#!/bin/bash
# run.sh PROP [--tier quick|thorough] [--replay FILE] [--suite NAME]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" LC_ALL=C.UTF-8 LANG=C.UTF-8
export GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=/dev/null PYTHONUTF8=1
unset WORKSPACE PACKAGES_PATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B lib/mc.py "$@"

#!/bin/sh
# ./check.sh PROP [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=python3-vt
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" -B -m vf.run "$@"

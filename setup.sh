#!/bin/sh
# Nothing to build: checks import /repo's working tree directly. Fails early if the interpreter lacks a needed library.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python -B -c "import hypothesis, numpy, scipy, networkx; print('ok')"

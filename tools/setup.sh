#!/bin/bash
# Nothing has to be compiled: check that the interpreter and the framework load.
cd "$(dirname "$0")/.." || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import mc.core"

#!/bin/bash
# usage: check.sh <property id> [quick|thorough] | check.sh --replay <file>
# Runs one check against the working tree in /repo (override with APT_REPO).
here="$(cd "$(dirname "$0")" && pwd)"
export APT_REPO="${APT_REPO:-/repo}"
export PYTHONPATH="$APT_REPO:$here"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
unset APPLETREE_USE_HYBRID JAX_ENABLE_X64 DO_NOT_USE_APPROX_IN_BINOM
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.run "$@"

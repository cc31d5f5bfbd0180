#!/bin/bash
# usage: check.sh <property id> [--thorough] [--replay FILE] [--only SCENARIO] [-v]
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export LC_ALL=C.UTF-8 PROJ_NETWORK=OFF PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/no-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -m checks."$1" "${@:2}"

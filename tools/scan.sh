#!/bin/bash
# usage: tools/scan.sh PID N [SEED [FIRST]]
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH="${SIMKIT_REPO:-/repo}:$PWD"
case "$1" in P11|P12|P17|P25|P26) export LD_PRELOAD="$PWD/build/simfs.so";; esac
exec /opt/venv/bin/python tools/scan.py "$@"

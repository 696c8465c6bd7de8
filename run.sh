#!/bin/bash
# One entry point for every check:  run.sh <PROPERTY> [runner options]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${SIMKIT_HASHSEED:-0}" MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH="${SIMKIT_REPO:-/repo}:$here${PYTHONPATH:+:$PYTHONPATH}"
case "$1" in P11|P12|P17|P25|P26)
  so="$here/build/simfs.so"
  [ -f "$so" ] || bash "$here/setup.sh" >/dev/null || exit 2
  export LD_PRELOAD="$so";;
esac
exec /opt/venv/bin/python -m simkit.runner "$@"

#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONPATH="$PWD:$here" exec "$py" "$here/demo.py"

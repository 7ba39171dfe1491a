#!/bin/bash
# run.sh ID quick|thorough      run the check of a property
# run.sh replay FILE            re-execute the one case recorded in a replay file
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore mc/main.py "$@"

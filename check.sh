#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] - explores the current /repo working tree
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export TZ=UTC PYTHONHASHSEED=0 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore run.py "$@"

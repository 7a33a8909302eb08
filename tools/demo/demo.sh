#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC
exec /opt/venv/bin/python -W ignore "$here/demo.py"

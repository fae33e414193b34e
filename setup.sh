#!/bin/bash
# Nothing is compiled: the checks import hera_pspec from /repo/src and hypothesis from the installed tool venv (or the wheelhouse).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore /opt/venv/bin/python -c 'import pv.boot; import hypothesis; print("hypothesis", hypothesis.__version__)'

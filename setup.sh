#!/bin/bash
# Nothing to compile: the checks run the package from /repo/src. Just confirm the interpreter and imports.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:. /opt/venv/bin/python -W ignore -c 'import hera_pspec, mc.core; print("ok", hera_pspec.__file__)'

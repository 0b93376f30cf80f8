#!/bin/bash
# Nothing to compile: check that the interpreter, the libraries and the code under test import.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -c "from mc import boot; boot.attach(); print('ok')"

#!/bin/bash
# Nothing to build: checks import /repo's Python sources directly.  This only
# verifies that the interpreter and the pre-installed libraries are there.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c '
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, sqlalchemy
print("hypothesis", hypothesis.__version__, "sqlalchemy", sqlalchemy.__version__)'

#!/bin/sh
# Nothing to build: the checks import the library from /repo/src.  Fail early if that is impossible.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c 'import dliswriter, mc.engine, mc.rp66'

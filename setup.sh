#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness is Python.  Checks that the tools are there.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import pysqlsync"
echo setup done

#!/bin/bash
# Nothing has to be built: check that the tools the checks need are there.
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${MBV_REPO:-/repo}:$PWD" /opt/venv/bin/python -c "import refellips, refnx, numpy, scipy, mbv.checks; print('ready')"

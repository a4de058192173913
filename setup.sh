#!/bin/bash
# Nothing to compile: the checks import hadar from /repo's working tree and run TLC on spec/*.tla. Verify the tools are there.
cd "$(dirname "$0")" || exit 1
set -e
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import numpy, pandas, ortools"
mkdir -p evidence
echo setup ok

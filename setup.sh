#!/bin/bash
# Nothing to build: checks that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import andromede, ortools, pandas"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence

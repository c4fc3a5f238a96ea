#!/bin/bash
# Prepares /verif: nothing is compiled; checks that the toolchain the checks use answers.
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -B -c 'import numpy, scipy, pandas, matplotlib'
echo setup ok

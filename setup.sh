#!/bin/bash
# Nothing to build: checks need Python (/opt/venv), Java and the TLC jar.
cd "$(dirname "$0")" || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
/opt/venv/bin/python -c 'import celpy, kr8s' || exit 1
java -version >/dev/null 2>&1 || exit 1
mkdir -p evidence

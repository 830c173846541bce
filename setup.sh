#!/bin/sh
# nothing to build: the checks run the code of /repo and TLC as they are
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
mkdir -p evidence out

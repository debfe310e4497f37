#!/bin/bash
# Nothing is compiled ahead of time: every check copies the library from /repo and runs it under Jython.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /usr/share/java/jython.jar
python3 - <<'PY'
import json
json.load(open('MANIFEST.json'))
PY
echo ok

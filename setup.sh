#!/bin/bash
# Nothing to build: the code under test is Python run from /repo, the specifications are read by TLC.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
mkdir -p evidence
java -version >/dev/null 2>&1 || { echo "java missing"; exit 1; }
test -f /opt/veriftools/tla/tla2tools.jar || { echo "TLC missing"; exit 1; }
/opt/venv/bin/python -c "import numpy, yaml" || exit 1
echo ready

#!/bin/bash
# Nothing has to be built ahead: TLC reads the specifications as they are, and
# the checks build the compiled parts of /repo when they need them.
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
/opt/venv/bin/python -c "import numpy, scipy" || exit 1
mkdir -p evidence replays

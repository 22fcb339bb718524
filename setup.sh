#!/bin/sh
# Everything needed is installed; make sure it can be used.
set -e
here=$(cd "$(dirname "$0")" && pwd)
/opt/venv/bin/python -c 'import numpy, six, greenlet'
z3 --version
mkdir -p "$here/evidence/replays"

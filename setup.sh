#!/bin/bash
# builds the IR dump tool; everything that depends on /repo is built by the checks themselves
set -e
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys
sys.path.insert(0, 'engine')
import extract
print(extract.tool())
P
python3-vt -c 'import z3; print(z3.get_version_string())'

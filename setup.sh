#!/bin/bash
# Nothing to install: the checks need only the interpreter, prophy's own dependencies and g++.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .work
/opt/venv/bin/python -c 'import ply, renew'
g++ --version | head -1

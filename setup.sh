#!/bin/bash
# Nothing to build: the checks import /repo directly.  Verify the tools are there.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c 'import hypothesis'
command -v iverilog >/dev/null
command -v vvp >/dev/null
mkdir -p evidence/replays

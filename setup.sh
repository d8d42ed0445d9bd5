#!/bin/sh
# Nothing is installed: every check builds what it needs from /repo. This only verifies that the tools are there.
set -e
command -v gcc clang make python3-vt >/dev/null
python3-vt -c 'import json, math, sys'
mkdir -p /verif/evidence /verif/replays

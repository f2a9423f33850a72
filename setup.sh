#!/bin/sh
# Nothing to build ahead of time: every check compiles its harness from /repo's
# working tree and runs TLC itself. This only verifies that the tools are there.
set -e
command -v tlc >/dev/null
command -v g++ >/dev/null
python3 -c 'import json, concurrent.futures'
mkdir -p "$(dirname "$0")/evidence"

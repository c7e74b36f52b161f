#!/bin/bash
# Nothing to build: checks that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
command -v tlc >/dev/null
/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "/repo"); import pyown'
out=$(mktemp)
for f in spec/*.tla; do
  (cd spec && tla-sany "$(basename "$f")") >"$out" 2>&1 || { cat "$out"; exit 1; }
done
rm -f "$out"
echo "setup done"

#!/bin/sh
# Nothing is precompiled: each check builds the library from /repo's working tree.
# Here the tools the checks rely on are confirmed and the specifications parsed.
set -e
cd "$(dirname "$0")/.."
for t in gcc make rsync java python3 git; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
python3 -m py_compile checks/*.py lib/*.py
echo setup ok

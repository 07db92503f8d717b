#!/bin/sh
# Nothing is prebuilt: every check compiles /repo's current tree itself. Verify the tools are there.
set -e
cd "$(dirname "$0")"
for t in gcc cmake ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p .build evidence replays
echo ok

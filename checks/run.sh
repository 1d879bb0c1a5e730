#!/bin/sh
# usage: checks/run.sh HARNESS PROPERTY [--thorough]: build from /repo's tree, then explore
cd "$(dirname "$0")/.." || exit 3
h=$1
shift
python3 tools/build.py "$h" >build.log 2>&1 || { cat build.log; exit 3; }
exec "build/bin/$h" "$@"

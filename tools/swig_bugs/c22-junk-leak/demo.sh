#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the python module keeps its promise.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'find "$dir" -delete' EXIT
export LD_LIBRARY_PATH=$PWD/_build/src/lib PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$PWD/_build/src/py:$PWD/src/tools
cd "$dir" && timeout 120 python3 "$here/demo.py"

#!/bin/bash
# Build the current directory (/repo) in a scratch directory and run demo.py.
here=$(cd "$(dirname "$0")" && pwd)
export REPO="$PWD" HERE="$here"
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python "$here/build.py" "$PWD" "$scratch" "$here/shims" || exit 90
mkdir "$scratch/work" && cd "$scratch/work" || exit 91
PYTHONPATH="$scratch/lib" timeout 200 /opt/venv/bin/python "$here/demo.py"

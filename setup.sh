#!/bin/sh
# nothing to build: the engine is Python and every check encodes /repo's current source itself.
# This only makes sure that the tools are there and that the engine agrees with plain Python.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
mkdir -p evidence replays
exec /opt/venv/bin/python -m symex.run selftest --tier quick

#!/bin/bash
# replay.sh FILE: re-executes a replay file against /repo's working tree (exit 1: reproduced exactly)
F=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
EXE=$(PYTHONDONTWRITEBYTECODE=1 python3 sim/build.py) || exit 2
exec "$EXE" replay "$F" "${@:2}"

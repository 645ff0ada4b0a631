#!/bin/bash
# check.sh PROPERTY [extra mtsim options]: rebuild from /repo's working tree, then run the seeded batch.
cd "$(dirname "$0")" || exit 2
P="$1"; shift
export PYTHONDONTWRITEBYTECODE=1
EXE=$(python3 sim/build.py) || { echo "error: the simulator does not build against the current tree"; exit 2; }
mkdir -p evidence out
exec "$EXE" batch --prop "$P" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --out out --evidence "evidence/$P.json" --known known_findings.txt "$@"

#!/bin/sh
# usage: checks/run.sh CNN   (the tier comes from VERIF_TIER, the seed from VERIF_SEED)
cd "$(dirname "$0")/.." && exec python3 -B checks/run.py "$@"

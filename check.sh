#!/bin/bash
# check.sh PROPERTY quick|thorough : rebuild from /repo's working tree, simulate, report.
cd "$(dirname "$0")" || exit 3
P=$1; T=${2:-quick}; B=build
mkdir -p $B evidence replays tmp
python3 tools/genninja.py "$PWD/$B" || exit 3
if ! ninja --quiet -C $B >$B/ninja.log 2>&1; then grep -E 'error|undefined|multiple' $B/ninja.log | cut -c1-300 | head -20; echo "build failed"; exit 3; fi
exec ./$B/sim.exe run --prop "$P" --tier "$T" --seed "${VERIF_SEED:-1}" --evidence evidence/$P.json --replays replays --known known_findings.txt --tmp tmp

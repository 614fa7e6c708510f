#!/bin/bash
# Checks build everything themselves; this only proves the toolchain is there and warms the build directory.
cd "$(dirname "$0")" || exit 1
for t in g++ ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence replays tmp
python3 tools/genninja.py "$PWD/build" && ninja --quiet -C build >build/ninja.log 2>&1 || { grep -E 'error|undefined' build/ninja.log | head; exit 1; }
./build/sim.exe list

#!/bin/bash
# Builds the simulator and every driver, and checks the simulator's own sensitivity and determinism.
cd "$(dirname "$0")" || exit 1
pids=()
for f in drivers/*.cpp; do n=$(basename "$f" .cpp); ./build.sh "$n" "$f" & pids+=($!); done
./build.sh smoke selftest/smoke.cpp & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || { echo "a build failed" >&2; exit 1; }; done
python3 selftest/selftest.py

#!/bin/bash
# Runs the interpreter over functions that are true for every input; prints those it cannot show (expected: none with NO).
cd "$(dirname "$0")/.." || exit 2
W=${TDMS_WORK:-$PWD/.work/fixtures}; mkdir -p "$W"
TDMS_REPO=$PWD/fixtures TDMS_WORK=$W ./facts.sh "$W/f.json" && python3 fixtures/selftest.py "$W/f.json" "$@"

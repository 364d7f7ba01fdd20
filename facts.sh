#!/bin/bash
# Usage: facts.sh OUT.json   -- analyse /repo's current working tree with the rustc driver.
# Builds the driver when it is missing, then type-checks the crate (all features) under it.
set -euo pipefail
OUT=$(realpath -m "$1")
REPO=${TDMS_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
WORK=${TDMS_WORK:-$HERE/.work}
mkdir -p "$WORK"
exec 9>"$WORK/lock"; flock 9
export CARGO_NET_OFFLINE=true
SYSROOT=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYSROOT/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
DRV=$WORK/driver-target/debug/tdms-mir-facts
cargo +nightly build -q --offline --manifest-path "$HERE/driver/Cargo.toml" --target-dir "$WORK/driver-target" >"$WORK/driver.log" 2>&1 || { cat "$WORK/driver.log" >&2; exit 3; }
# a scratch workspace so that nothing is ever written below $REPO
WS=$WORK/ws
rm -rf "${WS:?}"; mkdir -p "$WS"
for e in "$REPO"/*; do
  b=$(basename "$e")
  case "$b" in target|Cargo.lock|Cargo.toml) ;; *) ln -s "$e" "$WS/$b";; esac
done
cp "$REPO/Cargo.toml" "$WS/Cargo.toml"
if [ -f "$REPO/Cargo.lock" ]; then cp "$REPO/Cargo.lock" "$WS/Cargo.lock"
elif [ -f /opt/vp/tedium.Cargo.lock ]; then cp /opt/vp/tedium.Cargo.lock "$WS/Cargo.lock"
else cp "$HERE/Cargo.lock.repo" "$WS/Cargo.lock"; fi
rm -rf "$WORK"/target/debug/.fingerprint/tedium-* "$WORK"/target/debug/build/tedium "$WORK"/target/debug/build/tedium-* "$WORK"/target/debug/incremental/tedium-*
rm -f "$OUT"
RC=0
export RUSTFLAGS="-Zalways-encode-mir"
( cd "$WS" && TDMS_FACTS_CRATE=tedium TDMS_FACTS_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$DRV" \
  cargo +nightly check -q --offline --lib --all-features --target-dir "$WORK/target" ) >"$WORK/check.log" 2>&1 || RC=$?
if [ $RC -ne 0 ] || [ ! -s "$OUT" ]; then tail -40 "$WORK/check.log" >&2; exit 4; fi

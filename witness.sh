#!/bin/bash
# Usage: witness.sh OUT.json  -- type-check every witness program against /repo's current tree (after facts.sh); cargo's messages go to OUT.
set -uo pipefail
OUT=$(realpath -m "$1")
HERE=$(cd "$(dirname "$0")" && pwd)
WORK=${TDMS_WORK:-$HERE/.work}
export CARGO_NET_OFFLINE=true RUSTFLAGS="-Zalways-encode-mir"
exec 9>"$WORK/lock"; flock 9
WIT=$WORK/wit
rm -rf "${WIT:?}"; mkdir -p "$WIT/examples" "$WIT/src"
cp "$HERE"/witness/*.rs "$WIT/examples/"
: > "$WIT/src/lib.rs"
cp "$WORK/ws/Cargo.lock" "$WIT/Cargo.lock"
cat > "$WIT/Cargo.toml" <<T
[package]
name = "witness"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
tedium = { path = "../ws" }
T
rm -rf "$WORK"/target/debug/.fingerprint/tedium-* "$WORK"/target/debug/.fingerprint/witness-*
cd "$WIT" && cargo +nightly check -q --offline --examples --keep-going --message-format=json --target-dir "$WORK/target" >"$OUT" 2>"$WORK/witness.log"
exit 0

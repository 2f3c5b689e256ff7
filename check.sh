#!/bin/bash
# check.sh <PROPERTY> [--case N]   builds the harness from /repo's working tree and runs one property's monitors
set -u
ID="$1"; shift
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$HERE/target" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p "$HERE/evidence"
LOG="$HERE/evidence/build-$ID.log"
if ! cargo build --offline --locked --manifest-path "$HERE/harness/Cargo.toml" >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2; echo "harness build failed" >&2; exit 3
fi
BIN="$CARGO_TARGET_DIR/debug/vharness"
if [ "${1:-}" = "--case" ]; then exec "$BIN" case "$ID" "$2"; fi
exec "$BIN" run "$ID" "$HERE/evidence" "$HERE/known_findings.txt"

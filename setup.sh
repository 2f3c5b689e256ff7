#!/bin/bash
# Builds the harness once from the committed files (each check rebuilds what changed).
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$HERE/target"
mkdir -p "$HERE/evidence"
cargo build --offline --locked --manifest-path "$HERE/harness/Cargo.toml"

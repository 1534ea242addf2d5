#!/bin/bash
# Builds the checks once, so that later runs only rebuild what changed in /repo
here="$(cd "$(dirname "$0")/.." && pwd)"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
quiet() { local log; log="$("$@" 2>&1)" || { echo "$log" | tail -100; exit 1; }; }
cd "$here/harness" || exit 1
CARGO_TARGET_DIR="$here/target" quiet cargo build --offline --locked --quiet --bins
CARGO_TARGET_DIR="$here/target" quiet cargo build --offline --locked --quiet --bins --release
cd "$here/randharness" || exit 1
CARGO_TARGET_DIR="$here/target-rand" quiet cargo build --offline --locked --quiet --bins
CARGO_TARGET_DIR="$here/target-rand" quiet cargo build --offline --locked --quiet --bins --release
cd "$here/mcharness" || exit 1
export RUSTFLAGS="--cfg numeric_mc" CARGO_TARGET_DIR="$here/target-mc"
cargo build --offline --locked --quiet --bins --release --features linked >/dev/null 2>&1 ||
  quiet cargo build --offline --locked --quiet --bins --release

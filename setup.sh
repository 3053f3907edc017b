#!/bin/bash
# Builds the analyser and warms the dependency build.
set -e
cd "$(dirname "$0")"
bash engine/build.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/build/target CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" RUSTC_WRAPPER=$PWD/build/lt-engine
cargo +nightly check --offline --locked --manifest-path harness/Cargo.toml

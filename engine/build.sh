#!/bin/bash
# Builds the analyser into /verif/build (offline, nightly rustc with rustc-dev).
set -e
cd "$(dirname "$0")"
OUT=../build
mkdir -p $OUT
H=$(cat src/*.rs build.sh | sha256sum | cut -d' ' -f1)
if [ -x $OUT/lt-engine ] && [ "$(cat $OUT/engine.hash 2>/dev/null)" = "$H" ]; then exit 0; fi
SR=$(rustc +nightly --print sysroot)
rustc +nightly --edition 2024 -O -g -A unused -C codegen-units=8 -C link-arg=-Wl,-rpath,$SR/lib src/main.rs -o $OUT/lt-engine.tmp
mv $OUT/lt-engine.tmp $OUT/lt-engine
echo $H > $OUT/engine.hash

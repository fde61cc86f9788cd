#!/bin/bash
# asan_build.sh MANIFEST CRATE: build a monitor and the code under test with AddressSanitizer (toolchain of the project)
set -eu
cd "$(dirname "$0")/.."
. ./env.sh
export RUSTFLAGS="-Zsanitizer=address"
exec cargo build --manifest-path "$1" --target-dir "$PWD/target-asan" --target x86_64-unknown-linux-gnu -p "$2"

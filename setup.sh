#!/bin/bash
# build every monitor once, so that a check only rebuilds what changed
set -u
cd "$(dirname "$0")"
. ./env.sh
mkdir -p target
cargo build --manifest-path harness/Cargo.toml --target-dir "$PWD/target" --workspace 2>&1 | tail -3
rc="${PIPESTATUS[0]}"
# the sanitizer legs: a failure here is reported by the checks that need them
tools/asan_build.sh harness/Cargo.toml mem-mon 2>&1 | tail -1
tools/tsan_build.sh 2>&1 | tail -1
exit "$rc"

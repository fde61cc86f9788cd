#!/bin/bash
# check.sh ID [--replay FILE]: rebuild the monitors against /repo's working tree, run one check.
# exit 0: held; 1: violation; 2: no answer (build failure, harness error)
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
. ./env.sh
id="$1"; shift
case "$id" in
  A*) crate=abe-mon ;;
  B*) crate=fmt-mon ;;
  C*) crate=crypto-mon ;;
  I06) leg=tsan crate=tsan-mon ;;
  I*) crate=bus-mon ;;
  P*) crate=pkt-mon ;;
  D*) crate=core-mon ;;
  L*|S*) crate=linkspace-mon ;;
  X*) crate=cli-mon also='-p linkspace-cli' ;;
  M01) leg=asan crate=mem-mon ;;
  *) echo "unknown property $id"; exit 2 ;;
esac
ws=harness
mkdir -p evidence replays
log=$(mktemp)
case "${leg:-}" in
  "") build() { cargo build --manifest-path $ws/Cargo.toml --target-dir "$PWD/target" -p "$crate" ${also:-}; }; exe="target/debug/$crate" ;;
  asan) build() { tools/asan_build.sh $ws/Cargo.toml "$crate"; }; exe="target-asan/x86_64-unknown-linux-gnu/debug/$crate"
    export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1"; ulimit -s 262144 ;;
  tsan) build() { tools/tsan_build.sh; }; exe="target-tsan/x86_64-unknown-linux-gnu/debug/$crate"
    export TSAN_OPTIONS="halt_on_error=1:exitcode=66" ;;
esac
exec 9>target.lock; flock 9
if ! build >"$log" 2>&1; then
  grep -E '^error' -A12 "$log" | head -60; tail -5 "$log"; rm -f "$log"
  echo "build of $crate failed"; exit 2
fi
exec 9>&-
rm -f "$log"
exec "$exe" check "$id" "$@"

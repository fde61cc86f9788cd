#!/bin/bash
# build the ThreadSanitizer leg: a copy of /repo/crates/ipcbus with an instrumented std (nightly 1.101, which has rust-src).
# The copy only bridges one std API that changed name between the two toolchains.
set -eu
cd "$(dirname "$0")/.."
src="$PWD/target/tsan-src"
mkdir -p "$src"
rsync -a --delete /repo/crates/ipcbus/ "$src/ipcbus/" 2>/dev/null || { rm -rf "${src:?}/ipcbus"; cp -a /repo/crates/ipcbus "$src/ipcbus"; }
python3 - "$src" <<'P'
import sys, os, re
src = sys.argv[1]
root = open('/repo/Cargo.toml').read()
deps = re.search(r'^\[workspace\.dependencies\]\n(.*?)(?=^\[|\Z)', root, re.M | re.S).group(0)
pkg = re.search(r'^\[workspace\.package\]\n(.*?)(?=^\[|\Z)', root, re.M | re.S)
open(f'{src}/Cargo.toml', 'w').write('[workspace]\nmembers=["ipcbus"]\nresolver="2"\n' + (pkg.group(0) if pkg else '') + deps)
d = f'{src}/ipcbus/src'
n = 0
for f in os.listdir(d):
    if f.endswith('.rs'):
        s = open(f'{d}/{f}').read()
        t = re.sub(r'(?:std::mem::)?MaybeUninit::slice_assume_init_ref\(', 'crate::__assume_init_ref(', s)
        if f == 'lib.rs':
            t += '\n#[allow(dead_code)]\npub(crate) unsafe fn __assume_init_ref<T>(s: &[std::mem::MaybeUninit<T>]) -> &[T] { &*(s as *const [std::mem::MaybeUninit<T>] as *const [T]) }\n'
        if t != s:
            open(f'{d}/{f}', 'w').write(t)
P
export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread -Awarnings" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
exec cargo build -Zbuild-std --target x86_64-unknown-linux-gnu --offline --manifest-path harness-tsan/Cargo.toml --target-dir "$PWD/target-tsan"

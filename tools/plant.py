#!/usr/bin/env python3
"""plant.py SPEC.py [ids]: turn bug specs into /verif/seeded/<id>/, after confirming in a scratch copy of
/repo that the patch builds, passes the stable tests, and that the demo is 0 without and nonzero with it.
A spec is a list of dicts: id, property, file, edits [(old, new)], needs, breaks, demo (rust), deps (toml)."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
SC = '/tmp/plant'
DEMO = '''#!/bin/bash
# exit 0: the property held for the demonstrated case
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "${d:?}"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 1
debug = false
[dependencies]
@DEPS@
T
export RUSTUP_TOOLCHAIN=nightly-2023-11-04 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t"
if ! cargo build --offline --manifest-path "$d/Cargo.toml" >"$d/log" 2>&1; then tail -30 "$d/log"; exit 3; fi
ulimit -v 8000000
cd "$d" && TMPDIR="$d" timeout 200 ./t/debug/demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(SC)
    sh(f'git -C /repo worktree prune; git clone -q /repo {SC}/r')
    files = b['file'] if isinstance(b['file'], list) else [b['file']] * len(b['edits'])
    for f, (old, new) in zip(files, b['edits']):
        p = f'{SC}/r/{f}'; s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {SC}/r diff').stdout
    out = f"/verif/seeded/{b['id']}"
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    if 'demo_sh' in b:
        open(out + '/demo.sh', 'w').write(b['demo_sh'])
        for n, t in b.get('files', {}).items(): open(f'{out}/{n}', 'w').write(t)
    else:
        open(out + '/demo.sh', 'w').write(DEMO.replace('@DEPS@', b['deps']))
        open(out + '/demo.rs', 'w').write(b['demo'])
        shutil.copy('/opt/vp/Cargo.lock', out + '/demo.lock')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
    # confirm: demo on clean and patched copies, build + tests of the patched copy through /repo itself
    clean = sh(f'bash {out}/demo.sh', cwd='/repo')
    pat = sh(f'bash {out}/demo.sh', cwd=f'{SC}/r')
    ok = clean.returncode == 0 and pat.returncode not in (0, 3)
    msg = ''
    if not ok: msg = clean.stdout[-1500:] + clean.stderr[-500:] + '\n--patched--\n' + pat.stdout[-1500:] + pat.stderr[-500:]
    sh(f'git -C /repo apply {out}/patch.diff')
    try:
        bd = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant/o.json')
        passed = set(json.load(open('/tmp/plant/o.json'))['passed'])
    finally:
        sh('git -C /repo checkout -- .')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    print(b['id'], 'demo', clean.returncode, pat.returncode, 'build', bd.returncode, 'tests', 'ok' if stable <= passed else f'FAIL {stable - passed}', 'OK' if ok and stable <= passed and bd.returncode == 0 else 'BAD', msg, flush=True)
shutil.rmtree(SC, ignore_errors=True)

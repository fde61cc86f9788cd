"""plant2.py SPEC OUT REPO [ids]: makes OUT/<id>/ and tries the demo on a clean and a patched clone of REPO"""
import sys, os, subprocess, json, shutil
from concurrent.futures import ThreadPoolExecutor
spec = {}
exec(open(sys.argv[1]).read(), spec)
OUT, REPO, only = sys.argv[2], sys.argv[3], sys.argv[4:]
HEAD = '''#!/bin/bash
# exit 0: the property held for the demonstrated case
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "${d:?}"' EXIT
tar -xzf "$here/base.tgz" -C "$d"
grep -rlZ --include=Cargo.toml --include=build.rs /repo/ "$d/h" | xargs -0 sed -i "s|/repo/|$repo/|g"
export RUSTUP_TOOLCHAIN=nightly-2023-11-04 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t"
'''
LIB = HEAD + '''cp "$here/demo.rs" "$d/h/demo/src/main.rs"
if ! cargo build --offline -p demo --manifest-path "$d/h/Cargo.toml" >"$d/log" 2>&1; then tail -30 "$d/log"; exit 3; fi
ulimit -v 8000000
mkdir "$d/w"
cd "$d/w" && TMPDIR="$d/w" timeout 200 ../t/debug/demo
'''
LKD = HEAD + '''sed -i 's|"demo", ||' "$d/h/Cargo.toml"
if ! cargo build --offline -p linkspace-cli --manifest-path "$d/h/Cargo.toml" >"$d/log" 2>&1; then tail -30 "$d/log"; exit 3; fi
mkdir "$d/w"
cd "$d/w" && TMPDIR="$d/w" HOME="$d/w" timeout 200 bash "$here/demo_lk.sh" "$d/t/debug/lk"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(b):
    sc = f"/tmp/plant2/{b['id']}"
    shutil.rmtree(sc, ignore_errors=True); os.makedirs(sc)
    sh(f'git clone -q {REPO} {sc}/r')
    for old, new in b['edits']:
        p = f"{sc}/r/{b['file']}"; s = open(p).read()
        assert s.count(old) == 1, (b['id'], s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    out = f"{OUT}/{b['id']}"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + '/patch.diff', 'w').write(sh(f'git -C {sc}/r diff').stdout)
    if b['kind'] == 'lk':
        open(out + '/demo.sh', 'w').write(LKD)
        open(out + '/demo_lk.sh', 'w').write('lk=$1\nexport LK_SHIM_PERSIST=1\n' + b['demo'] + '\n')
        shutil.copy('/tmp/db/base.tgz', out)
    elif b['kind'] == 'lib':
        open(out + '/demo.sh', 'w').write(LIB)
        open(out + '/demo.rs', 'w').write(spec['PRE'] + b['demo'])
        shutil.copy(b.get('base', '/tmp/db/base.tgz'), out + '/base.tgz')
    else:
        v = open('/verif/seeded/bus-id/demo.sh').read()
        open(out + '/demo.sh', 'w').write(v)
        open(out + '/demo.rs', 'w').write(b['demo'])
        shutil.copy('/verif/seeded/bus-id/demo.lock', out)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
    pat = sh(f'bash {out}/demo.sh', cwd=f'{sc}/r')
    sh(f'git -C {sc}/r checkout -q -- .')
    clean = sh(f'bash {out}/demo.sh', cwd=f'{sc}/r')
    ok = clean.returncode == 0 and pat.returncode not in (0, 3)
    shutil.rmtree(sc)
    print(b['id'], clean.returncode, pat.returncode, 'OK' if ok else 'BAD ' + clean.stdout[-1200:] + clean.stderr[-400:] + '\n--patched--\n' + pat.stdout[-1200:] + pat.stderr[-400:], '|', pat.stdout[-150:].strip() if ok else '', flush=True)
with ThreadPoolExecutor(3) as ex: list(ex.map(one, [b for b in spec['BUGS'] if not only or b['id'] in only]))

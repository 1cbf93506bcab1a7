#!/usr/bin/env python3
"""Author-side tool: turn the bug descriptions in seeds.py into seeded/<id>/ directories.

For every seed it makes a scratch copy of /repo under /tmp, checks that the demo passes there,
applies the edit, checks that the tree builds, that the existing tests pass and that the demo
fails, and only then writes seeded/<id>/.  No check uses this file.

usage: seedgen.py [ID ...]
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS

OUT = '/verif/seeded'
DEMO = r'''#!/bin/bash
# run with cwd = the repository root; exit 0 when the property holds, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
root="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$root/Cargo.lock" ] && cp "$root/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ordinal-map = { path = "$root/ordinal-map", features = ["either"] }
ordinal-map-derive = { path = "$root/ordinal-map-derive" }
either = "1"
[profile.dev]
debug = 0
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline PROFILE
'''
NOCOMPILE = DEMO[:DEMO.index('cd "$d" &&')] + r'''cd "$d"
# the crate itself has to build; the program has to be refused
CARGO_TARGET_DIR="$d/target" timeout 250 cargo build -q --offline -p ordinal-map || exit 3
if CARGO_TARGET_DIR="$d/target" timeout 250 cargo build -q --offline > "$d/log" 2>&1; then
    echo "a program that must not compile was accepted"
    exit 1
fi
grep -q 'evaluation' "$d/log"
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(seed):
    sid = seed['id']
    w = tempfile.mkdtemp(prefix='seed-%s-' % sid, dir='/tmp')
    try:
        repo = os.path.join(w, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        stage = os.path.join(w, 'stage'); os.makedirs(stage)
        open(stage + '/main.rs', 'w').write(seed['demo'])
        open(stage + '/demo.sh', 'w').write((NOCOMPILE if seed.get('must_not_compile') else DEMO).replace('PROFILE', seed.get('profile', '')))
        os.chmod(stage + '/demo.sh', 0o755)
        r = run(['bash', stage + '/demo.sh'], repo)
        if r.returncode != 0:
            return sid, 'DEMO FAILS UNPATCHED\n' + r.stdout[-1500:]
        for f, old, new in seed['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return sid, 'EDIT NOT FOUND in ' + f + '\n' + old
            if s.count(old) > 1:
                return sid, 'EDIT AMBIGUOUS in ' + f + '\n' + old
            open(p, 'w').write(s.replace(old, new))
        r = run(['cargo', 'build', '--workspace', '--offline'], repo)
        if r.returncode != 0:
            return sid, 'DOES NOT BUILD\n' + r.stdout[-2500:]
        r = run(['cargo', 'test', '--workspace', '--all-features', '--no-fail-fast', '--offline'], repo)
        if r.returncode != 0:
            return sid, 'TESTS FAIL\n' + '\n'.join(l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[-1500:]
        r = run(['bash', stage + '/demo.sh'], repo)
        if r.returncode == 0:
            return sid, 'DEMO DOES NOT FAIL'
        if 'error: could not compile' in r.stdout and not seed.get('must_not_compile'):
            return sid, 'DEMO DOES NOT COMPILE\n' + r.stdout[-1500:]
        d = run(['git', 'diff', '--', 'ordinal-map', 'ordinal-map-derive'], repo).stdout
        o = os.path.join(OUT, sid)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(d)
        shutil.copy(stage + '/main.rs', o); shutil.copy(stage + '/demo.sh', o)
        json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['what']},
                  open(o + '/meta.json', 'w'), indent=1)
        return sid, 'ok'
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    want = sys.argv[1:]
    todo = [s for s in SEEDS if (s['id'] in want if want else not os.path.exists(os.path.join(OUT, s['id'], 'patch.diff')))]
    with cf.ThreadPoolExecutor(4) as ex:
        for sid, msg in ex.map(make, todo):
            print(sid, msg, flush=True)

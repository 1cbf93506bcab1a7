#!/usr/bin/env python3
"""Author-side: how the proofs take edits that keep the behaviour.  tryrefactor.py [ID...]
Applies each edit of refactors.py to a scratch copy of the source, runs the Verus part of every
check on it and prints which functions would be reported as failing (bad) or become undecided."""
import hashlib, os, shutil, sys, subprocess
from pathlib import Path
sys.path.insert(0, os.path.dirname(__file__))
os.environ['VERIF_TIER'] = 'quick'
import check, config, refactors
scratch = Path('/tmp/rfscratch'); src = scratch / 'ordinal-map/src'
check.REPO = scratch
cache = {}
orig = check.Check.verus_run
def vr(self, text, tag, extra, timeout):
    t = (self.build / f'{tag}.rs').read_text()
    h = hashlib.md5((tag + t).encode()).hexdigest()
    if h not in cache:
        cache[h] = orig(self, text, tag, extra, timeout)
    return cache[h]
check.Check.verus_run = vr
def apply(edits, dst):
    for f, a, b in edits:
        p = dst / f
        s = p.read_text()
        if a and a not in s:
            print('   !! text not found in', f, repr(a[:60])); return False
        if a: p.write_text(s.replace(a, b, 1))
    return True
ids = sys.argv[1:]
for rid, edits in refactors.R:
    if ids and rid not in ids or not edits[0][1]: continue
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo/ordinal-map/src', src)
    if not apply(edits, src):
        continue
    cache.clear()
    bad, und = {}, {}
    for pid, cfg in config.PROPS.items():
        if not cfg.get('verus'): continue
        c = check.Check(pid); c.build = check.ROOT / 'build' / 'rf'; c.build.mkdir(exist_ok=True)
        c.do_verus()
        for v, ni in c.violations:
            bad.setdefault(v.splitlines()[0][:150], []).append(pid)
        for u in c.undecided:
            und.setdefault(u[:200], []).append(pid)
    print(rid, 'OK' if not bad and not und else '', flush=True)
    for k, v in bad.items(): print('    BAD', v, k)
    for k, v in und.items(): print('    und', v[:3], k)
    sys.stdout.flush()
shutil.rmtree(scratch, ignore_errors=True)

#!/usr/bin/env python3
"""Author-side: apply each planted bug to /repo, run checks, undo.  usage: trybugs.py [--all] [ID...]
By default only the property's own check is run; --all runs every check."""
import glob, json, os, subprocess, sys, time
os.environ['VERIF_SEED'] = '1'; os.environ['VERIF_TIER'] = 'quick'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for sid in ids:
    d = '/verif/seeded/' + sid
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        for p in (props if '--all' in sys.argv else [prop]):
            t = time.time()
            try:
                r = subprocess.run(['bash', '/verif/check.sh', p], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print(sid, p, 'rc', r.returncode, '%.0fs' % (time.time() - t), *(v or r.stdout.splitlines()[-2:]), flush=True)
            except subprocess.TimeoutExpired:
                print(sid, p, 'TIMEOUT', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)

#!/usr/bin/env python3
"""Author-side: run checks on edited copies of the repository, several at a time and without touching
/repo: each worker has its own copies of /repo and /verif, mounted over the real paths in a mount
namespace of its own.
usage: probe.py [-j N] [--all] [--edits MODULE] [ID ...]   (MODULE: probes (default), refactors, seeds)"""
import concurrent.futures as cf, importlib, json, os, queue, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(name, default=None):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return default
N = int(opt('-j', '2')); mod = opt('--edits', 'probes'); props_opt = opt('--props')
allp = '--all' in args
ids = [a for a in args if not a.startswith('--')]
PROPS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = importlib.import_module(mod)
if mod.startswith('probes'): jobs = m.P
elif mod == 'refactors': jobs = [(i, PROPS, [('ordinal-map/src/' + f, a, b) for f, a, b in e]) for i, e in m.R if e[0][1]]
else: jobs = [(s['id'], [s['property']], s['edits']) for s in m.SEEDS]
if ids: jobs = [j for j in jobs if j[0] in ids]
W = '/tmp/probe'
def setup(i):
    d = f'{W}/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif', d + '/verif'], check=True)
    return d
def ns(d, cmd, timeout):
    return subprocess.run(['unshare', '-m', '--', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && {cmd}'],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
workers = queue.Queue()
for i in range(N): workers.put(setup(i))
def job(j):
    pid, props, edits = j
    d = workers.get()
    out = []
    try:
        subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
        for f, a, b in edits:
            path = f'{d}/repo/{f}'; s = open(path).read()
            if s.count(a) < 1: return pid, [f'   !! text not found in {f}: {a[:60]!r}']
            open(path, 'w').write(s.replace(a, b, 1))
        r = ns(d, 'cd /repo && bash /opt/vp/build.sh && cargo test --workspace --all-features --no-fail-fast --offline', 300)
        if r.returncode:
            err = [l for l in r.stdout.splitlines() if l.startswith('error') or 'FAILED' in l or 'panicked' in l]
            out.append('   (build or tests fail: ' + ' | '.join(err[:3]) + ')')
            if any('could not compile' in l for l in err): return pid, out
        for p in (PROPS if allp else props_opt.split(',') if props_opt else props):
            t = time.time()
            try: r = ns(d, f'cd /verif && ./check.sh {p}', 900)
            except subprocess.TimeoutExpired: out.append(f'   {p} TIMEOUT'); continue
            if os.environ.get('KEEP'): open(f'/tmp/probe-{pid}-{p}.out','w').write(r.stdout); subprocess.run(f'cp {d}/verif/evidence/{p}.json /tmp/probe-{pid}-{p}.json', shell=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')] or r.stdout.splitlines()[-1:]
            und = [l for l in r.stdout.splitlines() if 'undecided' in l.lower()]
            if allp or mod == 'refactors':
                if r.returncode == 0 and not und: continue
            out.append(f'   {p} rc {r.returncode} {time.time()-t:.0f}s ' + ' '.join(x[:160] for x in v) + (' [und]' if und else ''))
        return pid, out
    finally:
        subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
        workers.put(d)
with cf.ThreadPoolExecutor(N) as ex:
    for f in cf.as_completed([ex.submit(job, j) for j in jobs]):
        pid, out = f.result(); print(pid, *(['\n' + '\n'.join(out)] if out else ['-']), flush=True)
shutil.rmtree(W, ignore_errors=True)

"""Runs the property's check on each planted bug in a scratch copy (usage: seedcheck.py [ID...]); prints which are caught."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw/repo'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
for i in ids:
    meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=W)
    a = sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=W)
    if a.returncode: print(i, 'PATCH DOES NOT APPLY'); continue
    r = sh(f'python3 {V}/check.py {meta["property"]}', env=dict(os.environ, VERIF_REPO=W), cwd=V)
    ok = r.returncode == 1 and f'VIOLATION property={meta["property"]}' in r.stdout
    print(f'{i} {meta["property"]}: ' + ('caught: ' if ok else f'MISSED (rc {r.returncode}): ') + r.stdout.strip().splitlines()[0][:160], flush=True)
sh('git checkout -q -- .', cwd=W)

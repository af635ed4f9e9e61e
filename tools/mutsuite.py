#!/usr/bin/env python3
"""mutsuite.py [PID...]: development aid. Runs each listed change of tools/muts.py in a scratch copy and
reports changes the named check misses ('break') or alarms on ('keep')."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut, subprocess, glob
ns = {}
MUTS = []
files = [a[8:] for a in sys.argv[1:] if a.startswith('--files=')] # other lists than the stored ones
for f in files or sorted(glob.glob("/verif/tools/muts_*.py") + ["/verif/tools/muts.py"]):
    ns = {}
    exec(open(f).read(), ns)
    MUTS += ns['MUTS']
want = set(a for a in sys.argv[1:] if not a.startswith('-'))
ALL = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob('/verif/rules/p[0-9]*.py'))
also = [a[7:] for a in sys.argv[1:] if a.startswith('--also=')] # run these checks on every 'keep' change too
bad = 0
for kind, pids, file, old, new, *nth in MUTS:
    pids = pids.split() if pids else ALL
    if also: pids = also if kind == 'keep' else []
    if want: pids = [p for p in pids if p in want]
    if not pids: continue
    mut.fresh()
    try:
        for o, n in (old if isinstance(old, list) else [(old, new)]): mut.edit('src/' + file, o, n, nth[0] if nth else None)
        if isinstance(old, list): old, new = old[0]
    except SystemExit: print('!! cannot apply', pids, old[:60]); bad += 1; continue
    for pid in pids:
        r = subprocess.run(['python3', '/verif/check.py', pid], env=dict(os.environ, VERIF_REPO=mut.M), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip()
        if 'cargo check' in out: print('!! does not compile', pid, old[:60], out[-600:]); bad += 1; break
        good = (r.returncode == 1) if kind == 'break' else (r.returncode == 0)
        if not good: bad += 1
        if not good or '-v' in sys.argv: print(('ok   ' if good else 'MISS ' if kind == 'break' else 'ALARM'), pid, repr(old[:50]), '->', repr(new[:50]), '|', (out.splitlines()[0][:160] if kind == 'break' or not good else ''))
        if not good and kind == 'keep': print('     ', '\n      '.join(out.splitlines()[:6]))
print('bad:', bad)

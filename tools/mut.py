#!/usr/bin/env python3
"""mut.py FILE OLD NEW -- CHECK...: applies a textual change to a scratch copy of /repo and runs checks there.
(Development aid: the checks themselves always run against /repo.)"""
import sys, os, subprocess, shutil
M = os.environ.get('MUT_DIR', '/tmp/mut') + '/repo'
def fresh():
    os.makedirs(M, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', M + '/'], check=False) if shutil.which('rsync') else (shutil.rmtree(M, ignore_errors=True), shutil.copytree('/repo', M, ignore=shutil.ignore_patterns('target', '.git')))
def edit(file, old, new, nth=None):
    p = os.path.join(M, file)
    s = open(p).read()
    if old not in s: print('NOT FOUND', repr(old)); sys.exit(3)
    if s.count(old) > 1 and nth is None: print('AMBIGUOUS', s.count(old), repr(old)); sys.exit(3)
    if nth is None: s = s.replace(old, new)
    else:
        parts = s.split(old); s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, 'w').write(s)
def run(checks):
    env = dict(os.environ, VERIF_REPO=M)
    for c in checks:
        r = subprocess.run(['python3', '/verif/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('\n'.join(r.stdout.strip().splitlines()[-8:])[:1500]); print('  exit', r.returncode)
if __name__ == '__main__':
    a = sys.argv[1:]
    i = a.index('--')
    ed, ch = a[:i], a[i + 1:]
    fresh()
    if len(ed) == 1: subprocess.run(['git', 'apply', '--directory=.', os.path.abspath(ed[0])], cwd=M, check=True)
    else: edit(ed[0], ed[1], ed[2], int(ed[3]) if len(ed) > 3 else None)
    run(ch)

"""Confirms planted bugs from tools/seedspecs/*.py and stores them under /verif/seeded (usage: seed.py ID... | all | missing).

A spec file defines PROPERTY, EDITS = [(file under src, old, new)], MAIN (demo program), NEEDS, BREAKS.  The
change is applied to a scratch copy of /repo; it is stored only when it builds, the stable tests pass, and the
demonstration passes without it and fails with it."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
BASE = '9d1f004'


def sh(cmd, cwd=None, t=900): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)


def sync():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + '/repo'): sh(['cp', '-a', '/repo', W + '/repo'])
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W + '/repo')


def original_lines(f):
    return set(sh(['git', 'show', f'{BASE}:src/{f}'], '/repo').stdout.splitlines())


def one(i):
    spec = runpy.run_path(f'{V}/tools/seedspecs/{i}.py')
    repo = W + '/repo'
    sync()
    for f, old, new in spec['EDITS']:
        s = open(f'{repo}/src/{f}').read()
        if s.count(old) != 1: return f'{i}: {s.count(old)} occurrences of {old!r} in {f}'
        open(f'{repo}/src/{f}', 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff'], repo).stdout
    origs = {f: original_lines(f) for f, _, _ in spec['EDITS']}
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and not any(l[1:] in o for o in origs.values()): print(f'{i}: note: not an original line: {l[1:]}')
    d = f'{W}/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    if spec.get('KIND') == 'std':
        # runs on the built-in system against a stand-in for the cloud
        shutil.copy(V + '/tools/demo/demo_std.sh', d + '/demo.sh'); shutil.copy(V + '/tools/demo/fake.py', d)
        shutil.copy(V + '/tools/demo/src/stdh.rs', d + '/stdh.rs.txt')
    else:
        shutil.copy(V + '/tools/demo/demo.sh', d)
        if 'mod harness' in spec['MAIN']: shutil.copy(V + '/tools/demo/src/harness.rs', d + '/harness.rs.txt')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs.txt', 'w').write(spec['MAIN'])
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    if spec.get('DEMO'): open(d + '/demo.sh', 'w').write(spec['DEMO'])
    # not through /opt/vp/env.sh, which changes into /repo
    r = sh('CARGO_TARGET_DIR=$PWD/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip test::process::', repo)
    if 'error: could not compile' in r.stdout or 'error[' in r.stdout: return f'{i}: does not build\n' + '\n'.join(l for l in r.stdout.splitlines() if 'error' in l or '-->' in l)[:1500]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = [t for t in stable if f"test {t.split('::', 1)[1].replace('src/lib.rs::', '')} ... ok" not in r.stdout]
    if bad: return f'{i}: breaks stable tests {bad[:3]}'
    a = sh(['bash', d + '/demo.sh'], repo)
    if a.returncode == 0: return f'{i}: demonstration does not fail with the change\n{a.stdout[-800:]}'
    if a.returncode == 3: return f'{i}: demonstration does not build\n{a.stdout[-1800:]}'
    sync()
    b = sh(['bash', d + '/demo.sh'], repo)
    if b.returncode != 0: return f'{i}: demonstration fails without the change\n{b.stdout[-1500:]}'
    out = f'{V}/seeded/{i}'
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out); shutil.rmtree(d)
    return f'{i}: kept; with the change: ' + ' | '.join(a.stdout.strip().splitlines()[:3])[:300]


ids = sys.argv[1:]
allids = sorted(f[:-3] for f in os.listdir(f'{V}/tools/seedspecs') if f.endswith('.py'))
if ids == ['all']: ids = allids
if ids == ['missing']: ids = [i for i in allids if not os.path.exists(f'{V}/seeded/{i}/meta.json')]
for i in ids: print(one(i), flush=True)

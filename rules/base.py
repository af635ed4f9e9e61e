"""Shared plumbing of the checks: facts, findings, evidence, verdicts."""
import os, sys, json, time, hashlib, subprocess, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SKIP = {'target', '.git'}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b'\0')
            try: h.update(open(p, 'rb').read())
            except OSError: pass
            h.update(b'\0')
    return h.hexdigest()[:20]


def nightly():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    return r.stdout.strip().splitlines()[-1]


def build_driver():
    d = os.path.join(VERIF, 'driver')
    exe = os.path.join(CACHE, 'driver', 'debug', 'mirfacts')
    r = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(CACHE, 'driver')], cwd=d, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    if r.returncode != 0 or not os.path.exists(exe): raise SystemExit('driver build failed:\n' + r.stdout[-3000:])
    return exe


def with_lockfile(src):
    """/repo's Cargo.lock is git-ignored; a tree without one gets the recorded copy, in a mirror outside /repo."""
    return os.path.exists(os.path.join(src, 'Cargo.lock'))


def facts(features=None, tag='full'):
    """Type-checks /repo's current tree with the fact-dumping driver; returns the facts directory."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash(REPO) + tree_hash(os.path.join(VERIF, 'driver')) + tag
        key = hashlib.sha256(key.encode()).hexdigest()[:20]
        out = os.path.join(CACHE, 'facts', key)
        if os.path.exists(os.path.join(out, 'done')): return out
        exe = build_driver()
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(CACHE, 'target-' + tag)
        sysroot = nightly()
        env = dict(os.environ, RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=sysroot + '/lib', MIRFACTS_OUT=out,
                   MIRFACTS_CRATES='netsblox_vm,nb', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt)
        env.pop('RUSTFLAGS', None)
        # cargo's freshness cache would skip the wrapper: forget earlier runs on the workspace crate
        forget(tgt)
        r = cargo_check(env, features or [])
        lib = os.path.join(out, 'netsblox_vm.json')
        if r.returncode != 0 or not os.path.exists(lib):
            shutil.rmtree(out, ignore_errors=True)
            raise SystemExit('cargo check of /repo failed:\n' + r.stdout[-4000:])
        open(os.path.join(out, 'done'), 'w').write('ok')
        # keep the cache small
        root = os.path.join(CACHE, 'facts')
        olds = sorted((os.path.join(root, x) for x in os.listdir(root)), key=os.path.getmtime)
        for o in olds[:-6]: shutil.rmtree(o, ignore_errors=True)
        return out


def forget(tgt):
    """Removes what cargo remembers of the workspace crate (both target layouts), so the next run really analyses it."""
    fp = os.path.join(tgt, 'debug/.fingerprint')
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith('netsblox-vm-'): shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    shutil.rmtree(os.path.join(tgt, 'debug/build/netsblox-vm'), ignore_errors=True)


def cargo_check(env, features, cmd='check'):
    """Runs cargo in /repo, or in a mirror when the git-ignored lock file is missing there."""
    src = REPO
    mirror = None
    if not os.path.exists(os.path.join(REPO, 'Cargo.lock')):
        mirror = os.path.join(CACHE, 'mirror')
        shutil.rmtree(mirror, ignore_errors=True)
        shutil.copytree(REPO, mirror, ignore=shutil.ignore_patterns('target', '.git'))
        lock = '/opt/vp/Cargo.lock'
        if os.path.exists(lock): shutil.copy(lock, os.path.join(mirror, 'Cargo.lock'))
        src = mirror
    return sh(['cargo', '+nightly', cmd, '--offline'] + features, cwd=src, env=env)


class Missing(Exception):
    """An anchor the rule needs is gone: the obligation cannot be discharged."""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = {}          # key -> (message, loc, path)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.floors = []
        self.notes = []
        self._p = self._nb = None

    # ---- program
    @property
    def p(self):
        if self._p is None:
            from mir import Program
            self.dir = facts()
            self._p = Program(os.path.join(self.dir, 'netsblox_vm.json'))
        return self._p

    @property
    def nb(self):
        if self._nb is None:
            from mir import Program
            self.p
            self._nb = Program(os.path.join(self.dir, 'nb.json'))
        return self._nb

    @property
    def nostd(self):
        """The library as an embedded host builds it: no default features."""
        if getattr(self, '_nostd', None) is None:
            from mir import Program
            d = facts(['--lib', '--no-default-features'], 'nostd')
            self._nostd = Program(os.path.join(d, 'netsblox_vm.json'))
        return self._nostd

    def fn(self, path, alt=None):
        f = self.p.fn(path)
        if f is None and alt: f = alt()
        if f is None: raise Missing(path)
        return f

    # ---- results
    def violation(self, key, msg, loc='', path=()):
        """key: rule + construct, never a line number."""
        if key not in self.viol: self.viol[key] = (msg, loc, list(path))

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """Instance-count floor confirmed by hand on the reference tree."""
        n = self.counts.get(name, 0)
        self.floors.append(f'{name}: {n} >= {least}')
        if n < least: self.violation(f'floor:{name}', f'only {n} instances of "{name}" found, at least {least} expected: the rule no longer sees what it must decide')

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def rule(self, text): self.rules.append(text)

    def assume(self, text): self.assumptions.append(text)


def known():
    """key -> text for each listed finding: lines 'finding: property=<id> key=<key> <text>'."""
    out = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('finding:'):
                w = l[len('finding:'):].split()
                pid = w[0].split('=', 1)[1]
                key = w[1].split('=', 1)[1]
                out[(pid, key)] = ' '.join(w[2:])
    return out


def finish(c):
    kf = known()
    new, old = [], []
    for k, v in sorted(c.viol.items()):
        kk = k.replace(' ', '_')
        (old if (c.pid, kk) in kf else new).append((kk, v))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for f in c.floors: pass
    cov = dict(c.counts)
    cov['explanation'] = 'Rules applied to the resolved program (rustc MIR of the current /repo tree): ' + ' | '.join(c.rules)
    cov['samples'] = c.samples or ['(no sample)']
    cov['floors'] = c.floors
    if c._p is not None:
        cov['functions_in_program'] = len(c._p.fns)
    ev = dict(property=c.pid, tier=c.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=c.assumptions, wall_s=round(time.time() - c.t0, 3), violations=len(new))
    if c.notes: ev['coverage']['notes'] = c.notes
    with open(os.path.join(VERIF, 'evidence', c.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, (msg, loc, path) in old:
        print(f'KNOWN-FINDING: property={c.pid} {k}: {msg} [{loc}]')
    if new:
        rd = os.path.join(VERIF, 'evidence', c.pid + '.violations.txt')
        with open(rd, 'w') as f:
            for k, (msg, loc, path) in new:
                f.write(f'{k}\n  {msg}\n  at {loc}\n' + ''.join(f'    {x}\n' for x in path) + '\n')
        for k, (msg, loc, path) in new:
            print(f'  {loc}: {msg}')
        k0 = new[0]
        print(f'VIOLATION property={c.pid} replay={rd}')
        return 1
    print(f'{c.pid}: held; ' + ', '.join(f'{k}={v}' for k, v in c.counts.items()) + f'; {time.time() - c.t0:.1f}s')
    return 0

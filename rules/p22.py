"""P22: every documented feature combination type-checks; the core needs neither std nor the system layer."""
import os, re, base

SETS = ['', 'std', 'std-system', 'cli', 'std-system,native-tls', 'cli,native-tls', 'std-system,rustls-tls-native-roots', 'std-system,rustls-tls-webpki-roots', 'cli,rustls-tls-webpki-roots']
DEEP = ['std-system,native-tls-vendored', 'cli,rustls-tls-native-roots', 'native-tls', 'std,native-tls', 'rustls-tls-webpki-roots', 'rustls-tls-native-roots']
#: crates that are only there for hosts with an operating system
HOSTED = {'std', 'tokio', 'reqwest', 'futures', 'async_channel', 'tokio_tungstenite', 'getrandom', 'names', 'uuid', 'actix_web', 'actix_cors', 'clap', 'crossterm', 'rand_chacha'}


def errors(text):
    out, lines = [], text.splitlines()
    for i, l in enumerate(lines):
        m = re.match(r'error(\[(E\d+)\])?: (.*)', l)
        if m and not m.group(3).startswith(('could not compile', 'aborting')):
            loc = next((x.strip()[4:] for x in lines[i + 1:i + 6] if x.strip().startswith('--> ')), '')
            out.append((m.group(2) or 'error', m.group(3), loc))
    return out


def check(c):
    c.rule('the compiler type-checks the library in each documented feature combination, from the current tree')
    c.rule('without default features the crate graph contains neither std nor any host-only dependency')
    tgt = os.path.join(base.CACHE, 'target-matrix')
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt)
    env.pop('RUSTFLAGS', None)
    for s in SETS + (DEEP if c.tier == 'thorough' else []):
        base.forget(tgt)
        r = base.cargo_check(env, ['--lib', '--no-default-features'] + (['--features', s] if s else []))
        c.count('feature combinations')
        if r.returncode:
            es = [e for e in errors(r.stdout) if not e[2] or not e[2].startswith('/')] or [('error', r.stdout.strip()[-300:], '')]
            for code, msg, loc in es[:3]:
                c.violation(f'features:{s or "none"}:{code}:{msg[:60]}', f'the library does not build with features [{s}]: {msg}', loc)
        else: c.sample({'features': s, 'result': 'type-checks'})
    base.forget(tgt)
    r = base.cargo_check(env, ['--bin', 'nb'])
    c.count('feature combinations')
    if r.returncode:
        es = errors(r.stdout) or [('error', r.stdout.strip()[-300:], '')]
        c.violation(f'features:default:nb:{es[0][1][:60]}', f'the command line program does not build with default features: {es[0][1]}', es[0][2])
    if not any(k.startswith('features:none') for k in c.viol):
        p = c.nostd
        c.count('crates in the embedded crate graph', len(p.crates))
        for x in sorted(set(p.crates) & HOSTED):
            c.violation(f'std:{x}', f'without default features the library still pulls in {x}', 'src/lib.rs')
        c.floor('crates in the embedded crate graph', 15)
        p = c.p
        full = set(p.crates)
        c.count('host-only crates seen with all features', len(full & HOSTED))
        c.floor('host-only crates seen with all features', 8)
    c.floor('feature combinations', 10)
    c.assume('the build machine stands for the target: no target without std is installed, so std-freedom is read off the resolved crate graph')

"""P21: no unsafe code, no hand-written garbage-collector tracing."""
import re


def traced(f):
    """(variant, field) pairs of Self that a trace function reaches."""
    out = set()
    def walk(x, v):
        if isinstance(x, list):
            if len(x) and isinstance(x[0], int) and len(x) > 1 and all(isinstance(e, (list, str)) for e in x[1:]):
                cur = None
                for e in x[1:]:
                    if isinstance(e, list) and e[0] == 'v': cur = e[1]
                    elif isinstance(e, list) and e[0] == 'f': out.add((cur, e[2], e[3])); cur = None
                return
            for y in x: walk(y, v)
        elif isinstance(x, dict):
            for y in x.values(): walk(y, v)
    for b in f.blocks:
        if b.cleanup: continue
        for s in b.stmts: walk(s, None)
        walk(b.term, None)
    return out


def scan(c, p, config):
    if p.unsafe_code not in ('Forbid', 'Deny'):
        c.violation(f'lint:{config}', f'the compiler is not told to reject unsafe code (level of unsafe_code is {p.unsafe_code})', 'src/lib.rs')
    n = 0
    for kind, where, file, line, mac in p.unsafe_sites:
        n += 1
        if mac is None or mac == p.crate:
            c.violation(f'unsafe:{kind}:{where}', f'unsafe {kind} in {where}', f'{file}:{line}')
        elif kind == 'impl' and 'Collect' in where and mac != 'gc_arena_derive':
            c.violation(f'collect:{where}', f'{where} is not derived from its fields (it comes from a macro of {mac})', f'{file}:{line}')
    c.count(f'unsafe items from derives and macros of dependencies ({config})', n)
    nc = nf = 0
    for i in p.impls:
        tr = i['trait'] or ''
        if re.search(r' as gc_arena::(collect::)?Collect\b', tr):
            nc += 1
            if i['crate_of_mac'] != 'gc_arena_derive':
                c.violation(f"collect:{i['self']}", f"the tracing of {i['self']} is written by hand instead of derived from its fields", f"{i['file']}:{i['line']}")
        if re.search(r' as core::ops::(drop::)?Drop\b| as std::ops::Drop\b', tr) and "'gc" in i['self']:
            c.violation(f"drop:{i['self']}", f"{i['self']} holds collected pointers and runs code on drop, where they may already be gone", f"{i['file']}:{i['line']}")
    for f in p.fns:
        if f.trait == 'gc_arena::Collect' and f.method == 'trace' and f.selfadt in p.adts:
            seen = {(v, n) for v, n, o in traced(f) if o == f.selfadt}
            a = p.adts[f.selfadt]
            for v in a['vs']:
                for name, ty, _ in v[2]:
                    if "'gc" not in ty: continue
                    nf += 1
                    if (v[0] if a['kind'] == 'enum' else None, name) not in seen:
                        c.violation(f'untraced:{f.selfadt}:{v[0]}.{name}', f'{f.selfadt} does not trace its field {v[0]}.{name}: {ty}', f.loc())
    c.count(f'tracing implementations ({config})', nc)
    c.count(f'fields with collected pointers ({config})', nf)


def check(c):
    c.rule('unsafe_code is forbidden or denied for the library and no unsafe block, function, impl, trait or static is written in it')
    c.rule('every Collect implementation is derived, reaches every field whose type carries the arena lifetime, and no such type has a destructor')
    scan(c, c.p, 'all features')
    scan(c, c.nostd, 'no default features')
    for cfg, least in (('all features', 19), ('no default features', 18)):
        c.floor(f'tracing implementations ({cfg})', least)
        c.floor(f'fields with collected pointers ({cfg})', 30)
        c.floor(f'unsafe items from derives and macros of dependencies ({cfg})', 18)
    c.assume('gc-arena, its derive macro and the compiler are sound')

"""P31: reading, setting and changing a sprite property concern the same property."""
import re
from fractions import Fraction
from h import *

PROPS, PROP, COLOR = 'runtime::Properties', 'runtime::Property', 'runtime::Color'
X = ('x',)


class AccessRule(Plain):
    """Writes to the properties, completions of the key, and the exact term each value is."""
    def __init__(self, p, compose, decompose):
        super().__init__(p)
        self.compose, self.decompose = compose, decompose

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, r = callee.method, callee.rpath
        if m == 'complete' and len(args) == 2 and callee.trait and callee.trait.endswith('Key'):
            st.rs = st.rs + (('done', whole(sim, st, args[1]), deepread(sim, st, args[0])),)
            return [(st, UNIT)]
        if m in ('as_number', 'as_bool') and callee.local and deepread(sim, st, args[0]) == ('arg', 'x'):
            s = st.copy()
            return [(st, ok(X + (m,))), (s, err(('bad',)))]
        if 'CheckedFloat' in r and not callee.local:
            a = tuple(num(deepread(sim, st, x)) for x in args)
            if m == 'get': return [(st, a[0])]
            if m in ('new', 'add', 'sub', 'mul', 'div', 'neg', 'abs'):
                s = st.copy()
                v = a[0] if m == 'new' else arith(m, *a)
                return [(st, ok(('num', v))), (s, err(('badnum',)))]
        if callee.local in self.compose:
            return [(st, ('agg', COLOR, '', tuple(('chan', n, ('hsva',) + tuple(num(x) for x in args)) for n, _ in self.prog.fields(COLOR)), tuple(n for n, _ in self.prog.fields(COLOR))))]
        if callee.local in self.decompose:
            return [(st, ('agg', '()', '', tuple(('part', i, deepread(sim, st, args[0])) for i in range(4)), tuple('0123')))]
        if re.fullmatch(r'(from|to)_[bln]e_bytes', m): 
            if m.startswith('from'): return [(st, ('join', m[5], deepread(sim, st, args[0])))]
            v = num(deepread(sim, st, args[0]))
            return [(st, ('agg', '[]', '', tuple(('byte', m[3], i, v) for i in range(4)), tuple('0123')))]
        if callee.local and callee.rpath.rsplit('::', 1)[-1] in ('modulus',) or m in ('rem_euclid', 'rem', 'fmod'): return [(st, ('wrap',) + tuple(num(x) for x in args))]
        if m in ('max', 'min', 'clamp') and ('f64' in r or 'f32' in r or 'Float' in r or 'Ord' in r): return [(st, (m,) + tuple(num(x) for x in args))]
        if m in ('add', 'sub', 'mul', 'div', 'neg') and callee.trait and 'core::ops' in callee.trait: return [(st, arith(m, *(num(x) for x in args)))]
        if m in ('to_string', 'to_compact_string', 'fmt', 'format'): return [(st, ('text',))]
        return None

    def on_branch(self, sim, st, cx, v, choice):
        v = num(v)
        if not mentions(v, lambda y: y in (X + ('as_bool',), X + ('as_number',)) or y and y[0] in ('field', 'init') and mentions(y, lambda z: z == ('arg', 'self') or z[:1] == ('field',))): return
        e = ('if', v, choice if isinstance(choice, tuple) else ('is', choice))
        if e not in st.rs: st.rs = st.rs + (e,)

    def on_write(self, sim, st, cx, lv, val):
        if lv[0] == obj('self'): st.rs = st.rs + (('w', tuple(x[1] for x in lv[1] if x[0] == 'f'), whole(sim, st, val)),)


def whole(sim, st, v): return num(deepread(sim, st, v))


def arith(m, *a):
    if m == 'add': return ('plus',) + tuple(sorted(a, key=repr))
    return (m,) + a


def num(v):
    """A value without the wrappers that do not change what number it is."""
    v = strip(v)
    if not isinstance(v, tuple) or not v: return v
    if v[0] == 'num': return num(v[1])
    if v[0] == 'bin':
        m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'BitXor': 'xor'}.get(v[1])
        if m == 'xor': return ('xor',) + tuple(sorted((num(v[2]), num(v[3])), key=repr))
        if m: return arith(m, num(v[2]), num(v[3]))
    if v[0] == 'cast' and len(v) > 3 and v[2] in ('f32', 'f64') and v[3] in ('f32', 'f64'): return num(v[1])
    if v[0] == 'init' and v[1][0] == obj('self'): return ('field',) + tuple(x[1] for x in v[1][1] if x[0] == 'f')
    if v[0] in ('agg',): return v[:3] + (tuple(num(x) for x in v[3]),) + v[4:]
    if v[0] in ('join',): return v[:2] + (num(v[2]),)
    return v


def subst(v, a, b):
    if v == a: return b
    if isinstance(v, tuple): return resort(tuple(subst(x, a, b) for x in v))
    return v


def resort(v): return (v[0],) + tuple(sorted(v[1:], key=repr)) if v and v[0] in ('plus', 'xor') else v


def linear(v, var):
    """v as (a, b) with v = a * var + b."""
    if v == var: return Fraction(1), Fraction(0)
    if v[0] == 'c' and v[1] in ('f', 'i'): return Fraction(0), Fraction(str(v[2]))
    if v[0] == 'cast': return linear(v[1], var)
    if v[0] in ('plus', 'sub', 'mul', 'div') and len(v) == 3:
        x, y = linear(v[1], var), linear(v[2], var)
        if x is None or y is None: return None
        if v[0] == 'plus': return x[0] + y[0], x[1] + y[1]
        if v[0] == 'sub': return x[0] - y[0], x[1] - y[1]
        if v[0] == 'mul':
            if x[0] and y[0]: return None
            return x[0] * y[1] + y[0] * x[1], x[1] * y[1]
        if y[0] or not y[1]: return None
        return x[0] / y[1], x[1] / y[1]
    if v[0] == 'neg':
        x = linear(v[1], var)
        return x and (-x[0], -x[1])
    return None


def conds(st):
    """The decisions a path made about the value or the property."""
    return frozenset(e[1:] for e in st.rs if e[0] == 'if')


def shown(f): return '.'.join(f)


def check(c):
    p = c.p
    c.rule('for each property, read delivers one field, set stores a function of the value in that field, and change stores the same function of field + amount (for switches: field xor value); no two properties share a field')
    c.rule('the pen colour as one number is put together from and taken apart into the same four fields with inverse units, in the same byte order')
    c.rule('each access completes its key exactly once: with success after the store, or with an error and no store')
    get, sett, change = (selfarg_fn(p, PROPS, m) for m in ('perform_get_property', 'perform_set_property', 'perform_change_property'))
    compose = {f.id for f in p.fns if f.selfadt and strip_ty(f.selfadt) == COLOR and not f.trait and f.locals[1:f.nargs + 1] == ['f32'] * 4}
    decompose = {f.id for f in p.fns if f.selfadt and strip_ty(f.selfadt) == COLOR and not f.trait and f.locals[0] == '(f32, f32, f32, f32)'}
    if not compose or not decompose: raise Missing('the conversions between colour and hue, saturation and brightness')
    names = {}
    for n, t in p.fields(PROPS):
        inner = strip_ty(t)
        if inner in p.adts and inner != PROPS and p.adts[inner]['vs'] and len(p.adts[inner]['vs']) == 1 and inner.startswith('runtime::'):
            for m, _ in p.fields(inner): names[(n, m)] = m
        else: names[(n,)] = n
    bynorm = {}
    for f, n in names.items(): bynorm.setdefault(norm(n), set()).add(f)
    owner = {}
    for v in p.variants(PROP):
        c.count('properties')
        def run(f, extra):
            sim = Sim(p, AccessRule(p, compose, decompose), 200000)
            return sim.run(f, (refto('self'), ('arg', 'key'), ('agg', PROP, v, (), ())) + extra, St({}, {}, ()))
        G, S, H = run(get, ()), run(sett, (('arg', 'x'),)), run(change, (('arg', 'x'),))
        for what, outs, f in (('read', G, get), ('set', S, sett), ('change', H, change)):
            c.count('paths', len(outs))
            if not outs: c.violation(f'{v}:{what}:never', f'{what}ting `{v}` never finishes', f.loc())
            for st, _ in outs:
                done = [e for e in st.rs if e[0] == 'done']
                if len(done) != 1 or done[0][2] != ('arg', 'key'): c.violation(f'{v}:{what}:answer', f'to {what} `{v}` answers {len(done)} times on some path', f.loc())
                elif done[0][1][2] == 'Err' and any(e[0] == 'w' for e in st.rs): c.violation(f'{v}:{what}:error-stores', f'to {what} `{v}` stores something and then reports an error', f.loc())
                elif done[0][1][2] == 'Err' and what == 'read': c.violation(f'{v}:read:error', f'reading `{v}` fails', f.loc())
        # what is read
        reads = {e[1] for st, _ in G for e in st.rs if e[0] == 'done'}
        good = lambda outs: [st for st, _ in outs if any(e[0] == 'done' and e[1][0] == 'agg' and e[1][2] == 'Ok' for e in st.rs)]
        vals = set()
        for r in reads:
            x = num(r[3][0]) if r[0] == 'agg' and r[3] else r
            x = strip(x)
            while x[0] == 'agg' and x[1].endswith('SimpleValue') or x[0] == 'conv': x = num(x[3][0]) if x[0] == 'agg' else num(x[1])
            vals.add(num(x))
        sets = {}
        for st in good(S):
            w = {}
            for e in st.rs:
                if e[0] == 'w': w[e[1]] = num(e[2])
            sets.setdefault(tuple(sorted(w)), set()).add((conds(st), tuple(sorted(w.items()))))
        # one number made of four
        if len(vals) == 1 and next(iter(vals))[0] != 'field':
            color(c, p, v, next(iter(vals)), sets, H, good, get, sett, change)
            continue
        if len(vals) != 1: c.violation(f'{v}:read', f'`{v}` is read from more than one place', get.loc()); continue
        F = next(iter(vals))
        fld = F[1:]
        c.sample(f'{v}: {shown(fld)}')
        if fld in owner: c.violation(f'{v}:shared', f'`{v}` and `{owner[fld]}` read the same field', get.loc())
        owner[fld] = v
        n = norm(v)
        if n in bynorm and fld not in bynorm[n]: c.violation(f'{v}:name', f'`{v}` is read from `{shown(fld)}`', get.loc())
        if n not in bynorm and n.endswith('pos') and fld[-1] != {'x': '0', 'y': '1'}.get(n[0]): c.violation(f'{v}:name', f'`{v}` is read from `{shown(fld)}`', get.loc())
        if any(mentions(t, lambda y: y == X + ('as_bool',)) for st in good(S) for t in (st.rs, tuple(conds(st)))):
            switch(c, v, F, good(S), sett, 'set', lambda f, x: x)
            switch(c, v, F, good(H), change, 'change', lambda f, x: f != x)
            c.count('set and change compared')
            continue
        if set(sets) != {(fld,)}: c.violation(f'{v}:set', f'`{v}` is read from `{shown(fld)}` but setting it stores {", ".join("`" + shown(x) + "`" for k in sets for x in k) or "nothing"}', sett.loc()); continue
        chg = {}
        for st in good(H):
            w = {}
            for e in st.rs:
                if e[0] == 'w': w[e[1]] = num(e[2])
            chg.setdefault(tuple(sorted(w)), set()).add((conds(st), tuple(sorted(w.items()))))
        if set(chg) != {(fld,)}: c.violation(f'{v}:change', f'`{v}` is read from `{shown(fld)}` but changing it stores {", ".join("`" + shown(x) + "`" for k in chg for x in k) or "nothing"}', change.loc()); continue
        ts, tc = sets[(fld,)], chg[(fld,)]
        xn = X + ('as_number',)
        want = {subst2(t, xn, arith('add', F, xn)) for t in ts}
        if tc != want:
            c.violation(f'{v}:change', f'changing `{v}` stores {brief(tc)}, but setting it to the sum stores {brief(want)}', change.loc())
        c.count('set and change compared')
    c.floor('properties', 22)
    c.floor('paths', 100)
    c.floor('set and change compared', 20)
    c.assume('arithmetic, wrapping and clamping primitives are taken by name')


def truth(t, env):
    if t in env: return env[t]
    if t[0] == 'c' and t[1] == 'b': return t[2]
    if t[0] == 'un' and t[1] == 'Not': x = truth(num(t[2]), env); return None if x is None else not x
    if t[0] == 'xor' or t[0] == 'bin' and t[1] in ('Ne', 'Eq', 'BitAnd', 'BitOr'):
        a, b = (truth(num(x), env) for x in (t[1:] if t[0] == 'xor' else t[2:4]))
        if a is None or b is None: return None
        return {'xor': a != b, 'Ne': a != b, 'Eq': a == b, 'BitAnd': a and b, 'BitOr': a or b}[t[1] if t[0] == 'bin' else 'xor']
    return None


def switch(c, v, F, outs, fn, what, want):
    """The truth table of what is stored in a switch."""
    for f in (False, True):
        for x in (False, True):
            env = {F: f, X + ('as_bool',): x}
            hit = False
            for st in outs:
                cs = [(truth(k, env), b) for k, b in conds(st)]
                if any(t is not None and (b[0] == 'is' and (b[1] == '1') != t or b[0] == 'not' and ('1' if t else '0') in b[1]) for t, b in cs): continue
                hit = True
                new = f
                for e in st.rs:
                    if e[0] == 'w' and e[1] != F[1:]: c.violation(f'{v}:{what}', f'`{v}` is read from `{shown(F[1:])}` but to {what} it stores `{shown(e[1])}`', fn.loc())
                    elif e[0] == 'w': new = truth(num(e[2]), {**env, F: new})
                if new != want(f, x): c.violation(f'{v}:{what}', f'to {what} `{v}` from {f} by {x} leaves {new}', fn.loc())
            if not hit: c.violation(f'{v}:{what}:never', f'no path {what}s `{v}`', fn.loc())


def subst2(t, a, b):
    cs, w = t
    return frozenset((subst(k, a, b), f) for k, f in cs), subst(w, a, b)


def brief(ts): return ' or '.join(sorted(term(w[-1][1]) for _, w in ts))[:200]


def term(v):
    if not isinstance(v, tuple): return str(v)
    if v[0] == 'field': return shown(v[1:])
    if v[0] == 'x': return 'x'
    if v[0] == 'c': return str(v[2])
    if v[0] == 'plus': return ' + '.join(term(x) for x in v[1:])
    return f'{v[0]}({", ".join(term(x) for x in v[1:])})'


def norm(s): return re.sub(r'[^a-z0-9]', '', s.lower())


def color(c, p, v, val, sets, H, good, get, sett, change):
    """The composed property."""
    c.count('composed properties')
    def fail(k, msg, f): c.violation(f'{v}:{k}', msg, f.loc())
    while val[0] == 'cast': val = num(val[1])
    if val[0] != 'join' or val[2][0] != 'agg': return fail('read', f'`{v}` is not read from a field or put together from bytes', get)
    order = val[1]
    chans = [num(x) for x in val[2][3]]
    if any(x[0] != 'chan' for x in chans): return fail('read', f'`{v}` is not put together from the channels of a colour', get)
    hs = {x[2] for x in chans}
    if len(hs) != 1: return fail('read', f'`{v}` mixes channels of different colours', get)
    seq = [x[1] for x in chans]
    if sorted(seq) != sorted(n for n, _ in p.fields(COLOR)): fail('read', f'`{v}` uses a channel twice', get)
    parts = next(iter(hs))[1:]
    comp = {}
    for i, t in enumerate(parts):
        fs = {x for x in subvalues(t) | {t} if isinstance(x, tuple) and x and x[0] == 'field'}
        l = linear(t, next(iter(fs))) if len(fs) == 1 else None
        if l is None: fail('read', f'`{v}` is not read from one field per component', get); return
        comp[next(iter(fs))[1:]] = (i, l)
    # the fields are those of the single-component properties
    for keys, outs in sets.items():
        if set(keys) != set(comp): fail('set', f'`{v}` is read from {", ".join(map(shown, sorted(comp)))} but setting it stores {", ".join(map(shown, keys))}', sett); continue
        for cs, w in outs:
            for fld, t in w:
                ps = {x for x in subvalues(t) | {t} if isinstance(x, tuple) and x and x[0] == 'part'}
                if len(ps) != 1: fail('set', f'setting `{v}` does not store one component in `{shown(fld)}`', sett); continue
                part = next(iter(ps))
                l = linear(t, part)
                i, g = comp[fld]
                if part[1] != i or l is None or abs(g[0] * l[0] - 1) > 1e-6 or abs(g[0] * l[1] + g[1]) > 1e-6: fail(f'set:{shown(fld)}', f'`{v}` is put together from `{shown(fld)}` in another way than it is taken apart', sett)
                col = part[2]
                fs = fields_of(col)
                for j, n in enumerate(seq):
                    b = num(fs.get(n, ('?',)))
                    if b[:3] != ('byte', order, j): fail('bytes', f'`{v}` is read and set with a different order of bytes', sett); break
                    src = b[3]
                    while src[0] == 'cast': src = num(src[1])
                    if src != X + ('as_number',): fail('bytes', f'setting `{v}` does not use the given value', sett); break
    if not sets: fail('set', f'setting `{v}` stores nothing', sett)
    for st, _ in H:
        if any(e[0] == 'w' for e in st.rs) or any(e[0] == 'done' and e[1][2] == 'Ok' for e in st.rs): fail('change', f'changing `{v}` by an amount is not refused', change); break

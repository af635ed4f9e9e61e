"""P30: the sorted map keeps its keys sorted and unique."""
import re
from h import *

MOST = 2
READS = {'len', 'is_empty', 'get', 'get_mut', 'index', 'index_mut', 'iter', 'iter_mut', 'into_iter', 'first', 'last', 'as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'with_capacity', 'new',
         'reserve', 'shrink_to_fit', 'capacity', 'as_ref', 'get_unchecked', 'binary_search_by', 'binary_search_by_key', 'contains', 'default', 'clone', 'from_iter', 'fmt', 'trace', 'drop'}
REMOVES = {'remove', 'pop', 'clear', 'truncate', 'drain', 'retain', 'retain_mut', 'split_off'}


class Names:
    """The map found by shape: a struct with a vector of key/value entries and a const flavour."""
    def __init__(self, p):
        self.map = None
        for a, d in p.adts.items():
            if d['kind'] != 'struct' or len(d['vs']) != 1 or len(d['vs'][0][2]) != 1: continue
            f, t, _ = d['vs'][0][2][0]
            if not re.match(r'(alloc|std)::vec::Vec<', t): continue
            e = strip_ty(ty_args(t)[0])
            ed = p.adts.get(e)
            if ed and ed['kind'] == 'struct' and [x[1] for x in ed['vs'][0][2]] == ['K', 'V']:
                self.map, self.entry, self.f_vec = a, e, f
                self.f_key, self.f_val = [x[0] for x in ed['vs'][0][2]]
        if not self.map: raise Missing('the vector map (a vector of key/value entries)')
        self.file = next(f.file for f in p.fns if f.selfadt and strip_ty(f.selfadt) == self.map and not f.trait)


class MapRule(Plain):
    numbered = paired = True
    keep = True

    def __init__(self, prog, n, flag):
        super().__init__(prog, only=n.file.split('/')[-1])
        self.n, self.flag = n, flag
        self.flags = set()

    def event(self, st, *e):
        if e not in st.rs: st.rs = st.rs + (e,)

    def count(self, st, k): return sum(1 for e in st.rs if e[0] == k)

    def number(self, sim, st, it):
        k = self.count(st, 'took')
        st.rs = st.rs + (('took', k, it),)
        return k

    def enough(self, sim, st, it): return sum(1 for e in st.rs if e[0] == 'took' and e[2] == it) >= MOST

    def K(self, sim, st, v):
        """The key a (reference to a borrowed form of a) key stands for."""
        for _ in range(10):
            v = strip(v)
            if v[0] != 'ref': return v
            base, projs = v[1]
            if base[0] == 'V' and base[1][0] == 'deref' and not projs: v = base[1][1]
            else:
                w = sim.read(st, v[1])
                if strip(w) == ('init', v[1]): return ('init', v[1])
                v = w
        return v

    def entries(self, callee):
        """Does the callee work on the vector (or slice) of entries?"""
        a = callee.args[0] if callee.args else ''
        return any(strip_ty(x) == self.n.entry for x in [a, ty_args(a)[0] if ty_args(a) else '']) and ('vec' in callee.rpath or 'slice' in callee.rpath or 'Vec' in callee.rpath or '[' in callee.rpath or 'Index' in callee.rpath)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, t = callee.method, callee.trait or ''
        if t.endswith('cmp::Ord') and m == 'cmp' or t.endswith('cmp::PartialOrd') and m == 'partial_cmp':
            r = ('ord', self.K(sim, st, args[0]), self.K(sim, st, args[1]))
            return [(st, r if m == 'cmp' else some(r))]
        if t.endswith('cmp::PartialEq') and m in ('eq', 'ne'):
            a, b = self.K(sim, st, args[0]), self.K(sim, st, args[1])
            r = ('same', a, b)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'ord' and y[0] == 'agg' and y[2] == 'Equal': r = ('same', x[1], x[2])
            return [(st, r if m == 'eq' else ('un', 'Not', r))]
        if m in ('is_eq', 'is_ne') and args and strip(args[0])[0] == 'ord':
            r = ('same',) + strip(args[0])[1:]
            return [(st, r if m == 'is_eq' else ('un', 'Not', r))]
        if m in ('rev', 'next_back', 'rposition', 'rfind', 'reverse'): self.event(st, 'backwards', m)
        if t.endswith('Iterator') and m == 'next' and not callee.local:
            lv = sim.deref(args[0])
            it = sim.read(st, lv)
            out = models.produce(sim, st, cx, it, site, 0, lv)
            for s, o in out:
                if o[2] == 'None': self.event(s, 'exhausted', it)
            return out
        if t.endswith('Iterator') and m in ('find', 'position', 'any', 'find_map') and not callee.local:
            it = args[0] if args[0][0] != 'ref' else sim.read(st, args[0][1])
            out = []
            none = st.copy()
            for s, o in models.produce(sim, st.copy(), cx, it, site):
                if o[2] != 'Some': continue
                e = o[3][0]
                slot = (('V', ('tmp', site)), ())
                s.store[slot] = e
                for s2, v in sim.invoke(s, cx, args[1], (e,) if m in ('any', 'find_map', 'position') else (('ref', slot),), site):
                    if m == 'find_map':
                        out += [(s3, some(models.payload(sim, v, 'Some'))) for s3, var in list(sim.variants(s2, v, OPT)) if var == 'Some']
                        continue
                    c0 = v
                    pos = True
                    while c0[0] == 'un': c0, pos = c0[2], not pos
                    if c0[0] == 'same' and pos:
                        self.event(s2, 'cmp', c0[1], c0[2], True)
                        self.event(none, 'nomatch', c0[1], c0[2])
                    else: self.event(s2, 'oddtest')
                    out.append((s2, TRUE if m == 'any' else some(('position', e)) if m == 'position' else some(e)))
            out.append((none, FALSE if m == 'any' else NONE))
            return out
        if not args or not self.entries(callee): return None
        if m in ('binary_search_by', 'binary_search_by_key'):
            k = self.count(st, 'search')
            probe = ('V', ('probe', k))
            res = set()
            clo = args[-1]
            for s2, v in sim.invoke(st.copy(), cx, clo, (('ref', (probe, ())),), site):
                res.add(strip(v) if m == 'binary_search_by' else ('ord', self.K(sim, s2, v), self.K(sim, st, args[1])))
            pk = ('init', (probe, (('f', self.n.f_key),)))
            key = next(iter(res))[2] if len(res) == 1 and next(iter(res))[0] == 'ord' and next(iter(res))[1] == pk else None
            if key is None: self.event(st, 'badsearch', tuple(sorted(map(repr, res)))[:1])
            a, b = st, st.copy()
            self.event(a, 'search', k, key, True)
            self.event(b, 'search', k, key, False)
            return [(a, ok(('found', k))), (b, err(('place', k)))]
        if m in ('index', 'index_mut'): return [(st, ('ref', (self.at(args[1]), ())))]
        if m in ('get', 'get_mut'): return [(st, some(('ref', (self.at(args[1]), ())))), (st.copy(), NONE)]
        if m == 'insert':
            self.event(st, 'ins', args[1], args[2], len(st.rs)); return [(st, UNIT)]
        if m == 'push':
            self.event(st, 'push', args[1], len(st.rs)); return [(st, UNIT)]
        if m in REMOVES or m == 'swap_remove' and self.flag is False:
            self.event(st, 'removed', m); return None
        if m == 'len': return [(st, ('veclen',))]
        if m == 'is_empty': return [(st, ('bin', 'Eq', ('veclen',), ('c', 'i', '0', 'usize')))]
        if m not in READS and not t.endswith(('Iterator', 'IntoIterator', 'Clone', 'Drop')): self.event(st, 'other', m)
        return None

    def at(self, i):
        i = strip(i)
        if i[0] == 'position': return ('V', i[1])
        return ('V', ('at', i))

    def on_branch(self, sim, st, cx, v, choice):
        if v[0] == 'same': self.event(st, 'cmp', v[1], v[2], choice in ('1', ('is', '1')))
        if v[0] == 'ord' and isinstance(choice, str): self.event(st, 'cmp', v[1], v[2], choice == 'Equal')

    def on_write(self, sim, st, cx, lv, val):
        base, projs = lv
        if base[0] == 'V' and base[1][0] in ('at', 'elem', 'probe'):
            if not projs: self.event(st, 'whole')
            elif projs[-1] == ('f', self.n.f_key) or projs[0] == ('f', self.n.f_key): self.event(st, 'keywrite')
            elif projs == (('f', self.n.f_val),): self.event(st, 'setvalue', base, val)
        if projs and projs[-1] == ('f', self.n.f_vec) and len(projs) == 1 and base[0] == 'V': self.event(st, 'assign')


class FlagSim(Sim):
    """The flavour is a const parameter: both values are tried."""
    def constant(self, c):
        v = super().constant(c)
        if v[:2] == ('c', 'txt') and c.get('ty') == 'bool':
            self.rule.flags.add(v[2])
            return ('c', 'b', self.rule.flag)
        return v


def paths(p, n, fn, args, flag, store=()):
    rule = MapRule(p, n, flag)
    sim = FlagSim(p, rule, 200000)
    out = sim.run(fn, tuple(args), St(dict(store), {}, ()))
    return sim, rule, out


def evs(st, *k): return [e for e in st.rs if e[0] in k]


def keyof(n, b): return ('init', (b, (('f', n.f_key),)))


def matched(n, st, b, key):
    """This path found entry b to carry the key."""
    if b[1][0] == 'at' and b[1][1][0] == 'found': return any(e[1] == b[1][1][1] and e[2] == key and e[3] for e in evs(st, 'search'))
    return any(e[3] and {e[1], e[2]} == {keyof(n, b), key} for e in evs(st, 'cmp'))


def absent(n, st, key, before=None):
    """This path found that no entry carries the key."""
    rs = st.rs[:before] if before is not None else st.rs
    for e in rs:
        if e[0] == 'search' and e[2] == key and not e[3]: return True
        if e[0] == 'nomatch' and key in e[1:] and any(x[0] == 'init' and x[1][1] == (('f', n.f_key),) for x in e[1:]): return True
    if any(e[0] == 'exhausted' and from_vec(n, e[1]) for e in rs):
        took = [e for e in rs if e[0] == 'took' and from_vec(n, e[2])]
        if all(any(x[0] == 'cmp' and not x[3] and key in x[1:3] and any(('no', e[1]) in subvalues(y) for y in x[1:3]) for x in rs) for e in took): return True
    return False


def from_vec(n, it): return mentions(it, lambda x: x[0] == 'init' and isinstance(x[1], tuple) and x[1][1] and x[1][1][-1] == ('f', n.f_vec))


def valuebase(n, v):
    v = strip(v)
    if v[0] in ('ref', 'init') and v[1][1] == (('f', n.f_val),) and v[1][0][0] == 'V': return v[1][0]
    return None


def structure(c, n, fn, flag, st):
    """What may happen to the entries, whatever the operation."""
    name, loc = fn.method, fn.loc()
    fl = 'sorted' if flag else 'unsorted'
    for e in evs(st, 'other'): c.violation(f'{name}:{fl}:shape', f'`{name}` rearranges the entries of a map through `{e[1]}`', loc)
    if evs(st, 'keywrite', 'whole'): c.violation(f'{name}:{fl}:key', f'`{name}` changes the key of an entry in place', loc)
    if evs(st, 'assign'): c.violation(f'{name}:{fl}:assign', f'`{name}` replaces all entries of a map at once', loc)
    for e in evs(st, 'badsearch'): c.violation(f'{name}:{fl}:search', f'`{name}` searches the entries by something else than comparing each entry\'s key with the wanted one', loc)
    if not flag and evs(st, 'search'): c.violation(f'{name}:{fl}:flavour', f'`{name}` searches an unsorted map as if it were sorted', loc)
    if evs(st, 'backwards'): c.violation(f'{name}:{fl}:order', f'`{name}` goes through the entries out of order', loc)
    puts = []
    for e in st.rs:
        if e[0] not in ('ins', 'push'): continue
        en = fields_of(strip(e[-2]))
        if not en: c.violation(f'{name}:{fl}:entry', f'`{name}` adds an entry that cannot be read off', loc); continue
        k = strip(en[n.f_key])
        c.count('entries added')
        puts.append((k, strip(en[n.f_val])))
        i = st.rs.index(e)
        if not absent(n, st, k, i): c.violation(f'{name}:{fl}:unique', f'`{name}` adds an entry without having found its key to be absent', loc)
        if flag:
            pos = strip(e[1]) if e[0] == 'ins' else None
            if pos is None or pos[0] != 'place' or not any(x[1] == pos[1] and x[2] == k and not x[3] for x in evs(st, 'search')):
                c.violation(f'{name}:{fl}:place', f'`{name}` puts an entry of a sorted map somewhere else than where the search for its key says', loc)
    for e in evs(st, 'setvalue'): puts.append((None, strip(e[2]), e[1]))
    return puts


def check(c):
    p = c.p
    n = Names(p)
    M = obj('map')
    fns = [f for f in p.fns if f.file == n.file and f.kind != 'Closure' and not f.promoted and not f.derived and f.selfadt and not f.path.startswith('test')]
    own = [f for f in fns if strip_ty(f.selfadt) == n.map and entry(p, f)]
    c.rule('each operation of the vector map is followed on every path for both flavours: an entry is added only after its key was found absent, in the sorted flavour only at the place the search for that key reports; keys are never written; lookups return the value of an entry found to carry the key, and nothing only after the key was found absent; a sorted search compares entry key with wanted key, in that order, and is only used on sorted maps')
    seenflag = set()
    roles = set()
    for f in sorted(own, key=lambda f: f.path):
        tys = [f.locals[i + 1] for i in range(f.nargs)]
        ret = f.locals[0]
        for flag in (True, False):
            args = []
            for t in tys:
                if strip_ty(t.lstrip('&').replace('mut ', '')) == n.map: args.append(('ref', (M, ())) if t.startswith('&') else ('init', (M, ())))
                elif t in ('K', '&K'): args.append(('thekey',) if t == 'K' else ('ref', (('V', ('pure', ('thekey',))), ())))
                elif t == 'V': args.append(('thevalue',))
                elif re.fullmatch(r"&('\w+ )?\w", t): args.append(('ref', (('V', ('pure', ('thekey',))), ())))
                else: args.append(('value', t))
            sim, rule, out = paths(p, n, f, args, flag)
            seenflag |= rule.flags
            c.count('operations (each flavour)')
            fl = 'sorted' if flag else 'unsorted'
            for st, r in out:
                c.count('paths')
                puts = structure(c, n, f, flag, st)
                # lookups
                if re.match(r"(core|std)::option::Option<&('\w+ )?(mut )?V>", ret):
                    roles.add(ret)
                    c.count('lookup paths')
                    if r == NONE:
                        if not absent(n, st, ('thekey',)): c.violation(f'{f.method}:{fl}:missing', f'`{f.method}` reports nothing without having found the key to be absent', f.loc())
                    elif r[0] == 'agg' and r[2] == 'Some':
                        b = valuebase(n, r[3][0])
                        if b is None or not matched(n, st, b, ('thekey',)): c.violation(f'{f.method}:{fl}:wrong', f'`{f.method}` returns the value of an entry not found to carry the key', f.loc())
                    else: c.violation(f'{f.method}:{fl}:wrong', f'`{f.method}` returns something that cannot be read off', f.loc())
                # insertion
                if tys[1:] == ['K', 'V']:
                    roles.add('insert')
                    c.count('insert paths')
                    if len(puts) != 1: c.violation(f'{f.method}:{fl}:once', f'`{f.method}` stores the value {len(puts)} times', f.loc()); continue
                    x = puts[0]
                    if x[1] != ('thevalue',): c.violation(f'{f.method}:{fl}:value', f'`{f.method}` stores another value than the given one', f.loc())
                    if len(x) == 2:
                        if x[0] != ('thekey',): c.violation(f'{f.method}:{fl}:keyed', f'`{f.method}` stores the value under another key', f.loc())
                        if 'Option<V>' in ret and r != NONE: c.violation(f'{f.method}:{fl}:previous', f'`{f.method}` reports a previous value for a new key', f.loc())
                    else:
                        if not matched(n, st, x[2], ('thekey',)): c.violation(f'{f.method}:{fl}:overwrite', f'`{f.method}` overwrites the value of an entry not found to carry the key', f.loc())
                        if 'Option<V>' in ret and not (r[0] == 'agg' and r[2] == 'Some' and strip(r[3][0]) == ('init', (x[2], (('f', n.f_val),)))): c.violation(f'{f.method}:{fl}:previous', f'`{f.method}` does not report the value it replaces', f.loc())
                if ret == 'usize' and len(tys) == 1 and strip(r) != ('veclen',): c.violation(f'{f.method}:{fl}:size', f'`{f.method}` does not report the number of entries', f.loc())
                if f.trait and f.trait.endswith(('FromIterator', 'Extend')):
                    roles.add('from')
                    took = [e for e in evs(st, 'took') if not from_vec(n, e[2]) and not isvec(st, n, e[2])]
                    src = [e for e in took if mentions(e[2], lambda x: x[0] == 'value')]
                    c.count('collected items', len(src))
                    for e in src:
                        if not any(('no', e[1]) in subvalues(x[1]) for x in puts): c.violation(f'{f.method}:{fl}:dropped', f'`{f.method}` loses an item', f.loc())
    iterators(c, p, n, own)
    exposure(c, p, n)
    if not seenflag: raise Missing('the const parameter that selects the flavour')
    if 'insert' not in roles or sum(1 for r in roles if 'option' in r) < 2: raise Missing('lookup and insertion of the map')
    c.floor('operations (each flavour)', 14)
    c.floor('lookup paths', 6)
    c.floor('insert paths', 4)
    c.floor('entries added', 3)
    c.floor('collected items', 1)
    c.floor('items', 3)
    c.assume('keys compare consistently (Ord, Eq and Borrow agree); maps that are deserialised were serialised by this crate')


def isvec(st, n, it): return False


def iterators(c, p, n, own):
    M = obj('map')
    made = 0
    for f in own:
        ad = strip_ty(f.locals[0])
        nx = [g for g in p.fns if g.method == 'next' and g.trait and g.trait.endswith('Iterator') and g.selfadt and strip_ty(g.selfadt) == ad and g.file == n.file]
        if len(nx) != 1: continue
        made += 1
        arg = ('ref', (M, ())) if f.locals[1].startswith('&') else ('init', (M, ()))
        sim, rule, out = paths(p, n, f, [arg], True)
        for st, it in out:
            if evs(st, 'backwards'): continue     # reported above
            sim2, rule2, out2 = paths(p, n, nx[0], [('ref', (obj('it'), ()))], True, store={(obj('it'), ()): strip(it)})
            for st2, r in out2:
                c.count('paths')
                structure(c, n, nx[0], True, st2)
                if r == NONE:
                    if any(e[0] == 'took' for e in st2.rs): c.violation(f'{ad}:skip', 'an iterator of the map passes over an entry', nx[0].loc())
                    continue
                k, v = (r[3][0][3] if r[0] == 'agg' and r[3] and r[3][0][0] == 'agg' and len(r[3][0][3]) == 2 else (TOP, TOP))
                c.count('items')
                a, b = part(k), part(v)
                if not (a and b and a[0] == b[0] and (a[1], b[1]) == (n.f_key, n.f_val)): c.violation(f'{ad}:pair', 'an iterator of the map yields a key with the value of another entry', nx[0].loc())
                if sum(1 for e in st2.rs if e[0] == 'took') > 1: c.violation(f'{ad}:skip', 'an iterator of the map passes over an entry', nx[0].loc())
                src = [e for e in st2.rs if e[0] == 'took']
                if not any(from_vec(n, e[2]) for e in src): c.violation(f'{ad}:source', 'an iterator of the map yields something else than its entries', nx[0].loc())
    if made < 3: raise Missing('the iterators of the map')


def part(v):
    """(entry, field) a value is."""
    v = strip(v)
    if v[0] in ('ref', 'init') and v[1][1] and v[1][1][-1][0] == 'f': return (v[1][0][1] if v[1][0][0] == 'V' else v[1][0], v[1][1][-1][1])
    if v[0] == 'p' and v[2][0] == 'f': return (v[1], v[2][1])
    return None


def exposure(c, p, n):
    c.rule('no function of the map hands out mutable access to keys, entries or the vector of entries, and the vector is a private field')
    for fld, ty, pub in p.adts[n.map]['vs'][0][2]:
        if pub: c.violation(f'{n.map}:{fld}:public', f'`{n.map}.{fld}` can be changed from outside', '')
    ent = re.escape(n.entry)
    bad = re.compile(r"&('[\w_]+ )?mut (K\b|\[?" + ent + r"\b|[\w:]*Vec<" + ent + r")|(slice::IterMut|vec::Drain|slice::ChunksMut)<[^>]*" + ent)
    wrappers = set()
    for f in p.fns:
        if f.file != n.file or f.kind == 'Closure' or f.promoted or f.derived: continue
        c.count('signatures')
        if bad.search(f.locals[0]): c.violation(f'{f.path}:exposes', f'`{f.path}` hands out mutable access to the keys of a map', f.loc())
        if f.locals[0].startswith(('&mut', "&'")) and 'K' == f.locals[0].split()[-1] and 'mut' in f.locals[0]: c.violation(f'{f.path}:exposes', f'`{f.path}` hands out mutable access to the keys of a map', f.loc())
    for a, d in p.adts.items():
        if a.rsplit('::', 1)[0] != n.map.rsplit('::', 1)[0]: continue
        for v in d['vs']:
            for fld, ty, pub in v[2]:
                if pub and bad.search(ty): c.violation(f'{a}:{fld}:public', f'`{a}.{fld}` hands out mutable access to the keys of a map', '')
    c.floor('signatures', 10)

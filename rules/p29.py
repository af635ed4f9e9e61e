"""P29: a stale handle never reaches a newer occupant of its slot."""
from h import *

MOST = 2          # slots a loop is followed through (each step is independent of the earlier ones)
READS = {'len', 'is_empty', 'get', 'get_mut', 'index', 'index_mut', 'iter', 'iter_mut', 'into_iter', 'first', 'last', 'last_mut', 'first_mut', 'capacity'}
ALLOCATION = {'reserve', 'with_capacity', 'shrink_to_fit', 'reserve_exact'}


class Names:
    """The container found by the shape of its fields: a vector of slots (optional value + generation), a vector of free positions, a count."""
    def __init__(self, p):
        self.slot = self.map = None
        for a, d in p.adts.items():
            if d['kind'] != 'struct' or '::' not in a or len(d['vs']) != 1: continue
            fs = d['vs'][0][2]
            for f, t, _ in fs:
                if not t.startswith(('alloc::vec::Vec<', 'std::vec::Vec<')): continue
                e = strip_ty(ty_args(t)[0])
                sd = p.adts.get(e)
                if not sd or sd['kind'] != 'struct': continue
                sf = sd['vs'][0][2]
                kinds = sorted('o' if 'option::Option<' in t2 else t2 for _, t2, _ in sf)
                if kinds == ['o', 'usize'] and any(t3.endswith('Vec<usize>') for _, t3, _ in fs):
                    self.map, self.slot, self.f_slots = a, e, f
                    self.f_free = next(f3 for f3, t3, _ in fs if t3.endswith('Vec<usize>'))
                    self.f_num = next((f3 for f3, t3, _ in fs if t3 == 'usize'), None)
                    self.f_val = next(f3 for f3, t3, _ in sf if 'option::Option<' in t3)
                    self.f_gen = next(f3 for f3, t3, _ in sf if t3 == 'usize')
        if not self.map: raise Missing('the generational container (slots of optional value and generation, free list)')
        self.file = next(f.file for f in p.fns if f.selfadt and strip_ty(f.selfadt) == self.map and not f.trait)
        self.key = next((f.callees[b].trait for f in p.fns if f.file == self.file for b in f.callees if f.callees[b].trait and f.callees[b].trait.endswith('::Key')), None)
        if not self.key: raise Missing('the trait of handles')


class SlotRule(Plain):
    numbered = paired = True
    keep = True

    def __init__(self, prog, n):
        super().__init__(prog, only=n.file.split('/')[-1])
        self.n = n
        self.bad = []

    def number(self, sim, st, it):
        k = sum(1 for e in st.rs if e[0] == 'took')
        st.rs = st.rs + (('took', k),)
        return k

    def enough(self, sim, st, it): return sum(1 for e in st.rs if e[0] == 'took') >= MOST

    def which(self, sim, st, v):
        """'slots' / 'free' when v is (a reference to) one of the container's vectors."""
        for _ in range(6):
            v = strip(v)
            if v[0] == 'iter': v = v[1]
            elif v[0] == 'ref':
                base, projs = v[1]
                if base[0] == 'V' and base[1][0] == 'deref' and not projs: v = base[1][1]
                else:
                    w = self.role(v[1])
                    if w: return w
                    v = sim.read(st, v[1])
            elif v[0] == 'init': return self.role(v[1])
            else: return None

    def role(self, lv):
        base, projs = lv
        if not projs or projs[-1][0] != 'f': return None
        if self.inmap(base, projs[:-1]):
            return {self.n.f_slots: 'slots', self.n.f_free: 'free'}.get(projs[-1][1])

    def inmap(self, base, projs): return base == obj('map') and not projs

    def event(self, st, *e): st.rs = st.rs + (e,)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None or not args and not callee.trait: return None
        m = callee.method
        if callee.trait and callee.trait == self.n.key:
            key = [strip(sim.read(st, sim.deref(a))) if a[0] == 'ref' else strip(a) for a in args]
            if m == 'new': return [(st, ('handle', args[0], args[1]))]
            if key[0] != ('thekey',) or ('uses', (m, key[0])) not in st.rs: self.event(st, 'uses', (m, key[0]))
            return [(st, (m, key[0]))]
        if callee.trait and callee.trait.startswith('core::ops::Fn') and m.startswith('call') and strip(args[0])[0] != 'clo':
            f = strip(args[0])
            f = sim.read(st, f[1]) if f[0] == 'ref' else f
            if f == ('asked',) or f == ('init', (obj('f'), ())) or f == ('V', ('arg', 'f')):
                tup = args[1]
                k = sum(1 for e in st.rs if e[0] == 'ask')
                self.event(st, 'ask', tup[3] if tup[0] == 'agg' else (), k)
                return [(st, ('answer', k))]
        if not args: return None
        w = self.which(sim, st, args[0])
        if w is None: return None
        if m in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'by_ref', 'clone'): return None
        if w == 'free':
            if m == 'pop':
                k = sum(1 for e in st.rs if e[0] == 'pop')
                s = st.copy()
                self.event(s, 'nofree')
                self.event(st, 'pop', ('popped', k))
                return [(st, some(('popped', k))), (s, NONE)]
            if m == 'push':
                self.event(st, 'free', args[1])
                return [(st, UNIT)]
            if m not in READS | ALLOCATION and 'iter' not in callee.rpath: self.event(st, 'other', w, m)
            return None
        if callee.trait and callee.trait.endswith(('Iterator', 'IntoIterator')) or m in ('iter', 'iter_mut', 'into_iter'): return None
        if m == 'len': return [(st, ('slotslen', sum(1 for e in st.rs if e[0] == 'grow')))]
        if m in ('get', 'get_mut'):
            s = st.copy()
            return [(st, some(('ref', (('V', ('slot', args[1])), ())))), (s, NONE)]
        if m in ('index', 'index_mut'): return [(st, ('ref', (('V', ('slot', args[1])), ())))]
        if m == 'push':
            self.event(st, 'grow', args[1])
            return [(st, UNIT)]
        if m not in READS | ALLOCATION: self.event(st, 'other', w, m)
        return None

    def on_branch(self, sim, st, cx, v, choice):
        if v[0] == 'answer': self.event(st, 'said', v[1], choice if isinstance(choice, str) else choice)

    def on_write(self, sim, st, cx, lv, val):
        w = self.role(lv)
        if w: self.event(st, 'assign', w, val)
        base, projs = lv
        if base[0] == 'V' and not projs and base[1][0] in ('slot', 'elem'): self.event(st, 'whole', base[1])


def add(v, k):
    return v if k == 0 else ('c', 'i', str(int(v[2]) + k), v[3]) if v[0] == 'c' else (k, v)


def offset(v):
    """v as (base, constant): sums and differences with constants folded."""
    v = strip(v)
    k = 0
    while True:
        if v[0] == 'p' and v[2] == ('f', '0') and v[1][0] == 'bin': v = v[1]
        if v[0] == 'bin' and v[1][:3] in ('Add', 'Sub') and v[3][0] == 'c':
            k += int(v[3][2]) * (1 if v[1][0] == 'A' else -1); v = strip(v[2])
        elif v[0] == 'bin' and v[1][:3] == 'Add' and v[2][0] == 'c': k += int(v[2][2]); v = strip(v[3])
        elif v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('wrapping_add', 'saturating_add', 'wrapping_sub', 'saturating_sub') and len(v) > 3 and len(v[3]) == 2 and v[3][1][0] == 'c':
            k += int(v[3][1][2]) * (1 if v[1].endswith('add') else -1); v = strip(v[3][0])
        else: break
    if v[0] == 'c' and v[1] == 'i': return None, int(v[2]) + k
    return v, k


class View:
    """What one path did to the container."""
    def __init__(self, sim, st, n):
        self.sim, self.st, self.n = sim, st, n
        self.num0 = ('init', (obj('map'), (('f', n.f_num),)))
        self.num = offset(sim.read(st, (obj('map'), (('f', n.f_num),)))) if n.f_num else (self.num0, 0)
        bases = {k[0] for k in st.store if k[0][0] == 'V' and isinstance(k[0][1], tuple) and k[0][1][0] in ('slot', 'elem')}
        bases |= {k[1][0] for k in st.facts if k[0] == 'init' and k[1][0][0] == 'V' and isinstance(k[1][0][1], tuple) and k[1][0][1][0] in ('slot', 'elem')}
        self.bases = bases

    def evs(self, *k): return [e for e in self.st.rs if e[0] in k]

    def lv(self, b, f): return (b, (('f', f),))

    def index(self, b):
        if b[1][0] == 'slot': return strip(b[1][1])
        return ('idx', b[1][1], b[1][2])

    def before(self, b):
        f = self.st.facts.get(('init', self.lv(b, self.n.f_val)))
        if f and f[0] == 'is': return f[1]
        if f and f[0] == 'not' and len(f[1]) == 1: return {'None': 'Some', 'Some': 'None'}.get(next(iter(f[1])))

    def value(self, b): return self.sim.read(self.st, self.lv(b, self.n.f_val))

    def after(self, b):
        v = strip(self.value(b))
        if v == ('init', self.lv(b, self.n.f_val)): return self.before(b) or 'same'
        if v[0] == 'agg': return v[2]
        return '?'

    def changed(self, b): return strip(self.value(b)) != ('init', self.lv(b, self.n.f_val))

    def gen0(self, b): return ('init', self.lv(b, self.n.f_gen))

    def gen(self, b): return offset(self.sim.read(self.st, self.lv(b, self.n.f_gen)))


def paths(c, p, n, fn, args, store=()):
    rule = SlotRule(p, n)
    sim = Sim(p, rule, 200000)
    out = sim.run(fn, tuple(args), St(dict(store), {}, rule.init_rs))
    res = []
    for st, ret in out:
        st.facts = {byref(k): f for k, f in st.facts.items()}
        res.append((View(sim, st, n), byref(ret)))
    return res


def byref(v):
    """Slots taken by value written like slots behind references."""
    if not isinstance(v, tuple): return v
    v = tuple(byref(x) for x in v)
    if len(v) == 3 and v[0] == 'p' and isinstance(v[2], tuple) and v[2][:1] in (('f',), ('v',)):
        if v[1][0] == 'elem': return ('init', (('V', v[1]), (v[2],)))
        if v[1][0] == 'init': return ('init', (v[1][1][0], v[1][1][1] + (v[2],)))
    return v


def mentions_slot(v, b, n): return mentions(v, lambda x: x[:1] == ('init',) and x[1][0] == b or x[:1] == ('ref',) and x[1][0] == b)


def slots_in(sim, st, v, d=0):
    """Slots whose value is reachable from v."""
    out = set()
    for x in subvalues(v):
        if x and x[0] in ('init', 'ref') and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], tuple) and x[1][0][:1] == ('V',) and isinstance(x[1][0][1], tuple) and x[1][0][1][0] in ('slot', 'elem'): out.add((x[1][0], x[1][1]))
    return out


def common(c, fn, name, w):
    """Bookkeeping that every path of every operation keeps up."""
    n, st = w.n, w.st
    loc = fn.loc()
    for e in w.evs('other'): c.violation(f'{name}:shape', f'`{name}` changes the list of {"slots" if e[1] == "slots" else "free positions"} through `{e[2]}`, so positions no longer identify slots', loc)
    for e in w.evs('assign'):
        c.violation(f'{name}:assign', f'`{name}` replaces the list of {"slots" if e[1] == "slots" else "free positions"}, so old handles can meet new values', loc)
    for e in w.evs('whole'): c.violation(f'{name}:whole', f'`{name}` overwrites a slot together with its generation', loc)
    delta = 0
    freed = [strip(e[1]) for e in w.evs('free')]
    popped = [e[1] for e in w.evs('pop')]
    emptied = []
    for b in sorted(w.bases, key=repr):
        i, b0, a0 = w.index(b), w.before(b), w.after(b)
        g, k = w.gen(b)
        if a0 == '?': c.violation(f'{name}:unknown', f'`{name}` leaves a slot in a state that cannot be read off', loc)
        vacated = w.changed(b) and a0 == 'None' and b0 != 'None'
        filled = w.changed(b) and a0 == 'Some'
        if vacated:
            c.count('removals')
            if b0 != 'Some':
                c.violation(f'{name}:blind', f'`{name}` empties a slot without looking whether it held a value, so the bookkeeping cannot be right', loc); continue
            emptied.append(i)
            delta -= 1
            if g != w.gen0(b) or k < 1: c.violation(f'{name}:generation', f'`{name}` removes a value without moving its slot to a new generation: handles to it stay valid when the slot is reused', loc)
            if freed.count(i) != 1: c.violation(f'{name}:free', f'`{name}` removes a value but records its slot as free {freed.count(i)} times', loc)
        elif filled:
            if b0 == 'Some':      # value replaced in place
                c.violation(f'{name}:replace', f'`{name}` replaces the value of a slot that is in use, so existing handles reach the new value', loc); continue
            c.count('insertions')
            delta += 1
            if i not in popped: c.violation(f'{name}:unfree', f'`{name}` puts a value into a slot that stays recorded as free', loc)
            if b0 is None and not (i in popped): c.violation(f'{name}:occupied', f'`{name}` puts a value into a slot that may be in use', loc)
            if g != w.gen0(b): c.violation(f'{name}:rewind', f'`{name}` sets the generation of a reused slot to something older handles may carry', loc)
        elif (g, k) != (w.gen0(b), 0) and not (g == w.gen0(b) and k > 0 and b0 == 'None'):
            c.violation(f'{name}:drift', f'`{name}` changes the generation of a slot that keeps its value', loc)
    for i in freed:
        if i not in emptied: c.violation(f'{name}:free-used', f'`{name}` records a slot as free that it did not empty', loc)
    for e in w.evs('grow'):
        f = fields_of(e[1])
        if not f: c.violation(f'{name}:grow', f'`{name}` adds a slot that cannot be read off', loc); continue
        v = strip(f[n.f_val])
        if v[0] == 'agg' and v[2] == 'Some': delta += 1; c.count('insertions')
        elif v[0] == 'agg' and v[2] == 'None':
            if w.evs('free') == []: c.violation(f'{name}:grow-empty', f'`{name}` adds an empty slot nobody can reuse', loc)
        else: c.violation(f'{name}:grow', f'`{name}` adds a slot that cannot be read off', loc)
    return delta


def check(c):
    p = c.p
    n = Names(p)
    M = obj('map')
    slots = ('init', (M, (('f', n.f_slots),)))
    free = ('init', (M, (('f', n.f_free),)))
    fns = [f for f in p.fns if f.selfadt and strip_ty(f.selfadt) == n.map and f.kind != 'Closure' and not f.promoted and not f.derived and f.file == n.file and entry(p, f)]
    c.rule('each operation of the slot container is followed on every path with loops over two slots: a slot whose value goes is moved to a new generation, listed as free exactly once and no longer counted; a slot that gets a value was listed as free (or is new), keeps its generation and is counted; nothing else touches slots')
    c.rule('a handle is made from the position and the generation of the very slot that holds the value; a value is reached from a handle only after the slot at its position is found to have its generation')
    mutating = 0
    keyparam = None
    for f in sorted(fns, key=lambda f: f.path):
        name = f.method
        tys = [f.locals[i + 1] for i in range(f.nargs)]
        ret = f.locals[0]
        if f.nargs and (tys[0].startswith('&') or strip_ty(tys[0]) == n.map):
            byref = tys[0].startswith('&')
            args = [('ref', (M, ())) if byref else ('init', (M, ()))]
        elif any(strip_ty(t) == n.map for t in tys): raise Missing(f'an understandable receiver for {f.path}')
        elif f.nargs == 0:
            constructor(c, p, n, f)
            continue
        else: continue
        for t in tys[1:]:
            args.append(('thekey',) if len(t) <= 2 and t == 'K' else ('init', (obj('f'), ())) if len(t) <= 2 and t == 'F' or t.startswith('impl ') else ('value', t))
        mutable = tys[0].startswith('&') and ' mut ' in tys[0][:12] or tys[0].startswith('&mut')
        c.count('container operations')
        if mutable: mutating += 1
        ps = paths(c, p, n, f, args)
        if not ps: raise Missing(f'a path through {f.path}')
        for w, r in ps:
            c.count('paths')
            delta = common(c, f, name, w)
            size(c, f, name, w, delta)
            handles(c, f, name, w, r)
            if ('thekey',) in args: access(c, f, name, w, r)
            asked(c, f, name, w)
        if ret == 'usize' and f.nargs == 1:
            for w, r in ps:
                if offset(r) != (w.num0, 0): c.violation(f'{name}:size', f'`{name}` does not report the number of values', f.loc())
        if ret == 'bool' and f.nargs == 1:
            for w, r in ps:
                if not emptytest(r, w): c.violation(f'{name}:empty', f'`{name}` does not say whether the number of values is zero', f.loc())
    iterators(c, p, n, fns)
    keys(c, p, n)
    privacy(c, p, n)
    c.floor('container operations', 7)
    c.floor('paths', 20)
    c.floor('removals', 3)
    c.floor('insertions', 2)
    c.floor('guarded accesses', 3)
    c.floor('handles made', 4)
    c.floor('handle types', 1)
    if mutating < 4: raise Missing('the mutating operations of the container')
    c.assume('a slot is reused fewer than 2^64 times; the containers given to the std collections behave as documented')
    c.assume('a handle is only used with the container that made it (the crate has a handle type per container)')


def emptytest(r, w):
    r = strip(r)
    neg = False
    while r[0] == 'un' and r[1] == 'Not': r, neg = r[2], not neg
    if r[0] != 'bin': return False
    a, b = offset(r[2]), offset(r[3])
    if r[1] == ('Ne' if neg else 'Eq'): return {a, b} == {(w.num0, 0), (None, 0)}
    if r[1] == ('Gt' if neg else 'Le'): return (a, b) == ((w.num0, 0), (None, 0))
    if r[1] == ('Ge' if neg else 'Lt'): return (a, b) == ((w.num0, 0), (None, 1))
    return False


def size(c, f, name, w, delta):
    if w.num == (w.num0, delta): return
    whole = [e for e in w.st.rs if e[0] == 'took']
    if w.num == (None, 0):     # "now empty": every slot was visited and is empty at the end
        if all(w.after(b) == 'None' for b in w.bases): return
    c.violation(f'{name}:count', f'`{name}` changes the number of values by {delta} but the reported size by something else', f.loc())


def handles(c, f, name, w, r):
    """Every handle that is returned or shown to a predicate names a slot by its own position and generation."""
    shown = [r] + [v for e in w.evs('ask') for v in e[1]]
    for v in shown:
        for h in subvalues(v):
            if not h or h[0] != 'handle': continue
            c.count('handles made')
            i, g = strip(h[1]), h[2]
            ok = False
            for b in w.bases | {x[1][0] for x in subvalues(g) if x and x[0] == 'init' and x[1][0][0] == 'V'}:
                if b[0] == 'V' and b[1][0] in ('slot', 'elem') and w.index(b) == i:
                    if v is r: want = w.gen(b)
                    else: want = (w.gen0(b), 0)
                    if offset(g) == want: ok = True
            for k, e in enumerate(w.evs('grow')):
                if offset(i) in ((('slotslen', k), 0), (('slotslen', k + 1), -1)):
                    gg = fields_of(e[1]).get(n_gen(w))
                    if gg is not None and offset(gg) == offset(g): ok = True
            if not ok: c.violation(f'{name}:handle', f'`{name}` makes a handle whose position or generation is not that of the slot it stands for', f.loc())
    if r[0] == 'handle' or any(x and x[0] == 'handle' for x in subvalues(r)):
        pass


def n_gen(w): return w.n.f_gen


def guarded(w, b):
    """The path found slot b to carry the generation of the key it was given, at the key's position."""
    if w.index(b) != ('get_slot', ('thekey',)): return False
    for k, f in w.st.facts.items():
        if k[0] != 'sw' or f[0] != 'is': continue
        x, val = k[1], f[1] == '1'
        while x[0] == 'un' and x[1] == 'Not': x, val = x[2], not val
        if x[0] == 'bin' and x[1] in ('Eq', 'Ne') and (x[1] == 'Eq') == val:
            if {strip(x[2]), strip(x[3])} == {w.gen0(b), ('get_generation', ('thekey',))}: return True
    return False


def access(c, f, name, w, r):
    touched = {b for b, pr in slots_in(w.sim, w.st, r) if pr[:1] != (('f', w.n.f_gen),)} | {b for b in w.bases if w.changed(b) and w.before(b) == 'Some'}
    for b in touched:
        if r == NONE and not w.changed(b): continue
        c.count('guarded accesses')
        if not guarded(w, b): c.violation(f'{name}:guard', f'`{name}` reaches the value of a slot without finding it to be of the generation of the handle', f.loc())
    # a live handle keeps working
    for b in w.bases:
        if guarded(w, b) and w.before(b) == 'Some' and r == NONE and f.locals[0].startswith(('core::option', 'std::option')):
            c.violation(f'{name}:live', f'`{name}` does not find the value of a handle that is still valid', f.loc())


def asked(c, f, name, w):
    """A predicate decides about the slot it was shown."""
    for e in w.evs('ask'):
        k = e[2]
        said = next((x[2] for x in w.evs('said') if x[1] == k), None)
        said = {'1': True, '0': False, ('is', '1'): True, ('is', '0'): False}.get(said)
        bs = {b for v in e[1] for b, pr in slots_in(w.sim, w.st, v)}
        vals = {b for v in e[1] if not any(x and x[0] == 'handle' for x in subvalues(v)) for b, pr in slots_in(w.sim, w.st, v)}
        if len(bs) != 1 or len(vals) != 1: c.violation(f'{name}:ask', f'`{name}` asks about a value and a handle that do not belong together', f.loc()); continue
        b = next(iter(bs))
        if said is None: c.violation(f'{name}:unheeded', f'`{name}` does not act on what the predicate says', f.loc())
        elif said == w.changed(b) or (not said and w.after(b) != 'None'): c.violation(f'{name}:answer', f'`{name}` keeps what the predicate rejects or drops what it accepts', f.loc())
    if w.evs('ask'):
        seen = {b for e in w.evs('ask') for v in e[1] for b, pr in slots_in(w.sim, w.st, v)}
        for b in w.bases - seen:
            if w.before(b) == 'Some': c.violation(f'{name}:skipped', f'`{name}` leaves a value the predicate is not asked about', f.loc())


def constructor(c, p, n, f):
    for w, r in paths(c, p, n, f, ()):
        d = fields_of(strip(r))
        if not d:
            c.violation(f'{f.method}:fresh', f'`{f.method}` does not build an empty container', f.loc()); continue
        c.count('constructors')
        if n.f_num and offset(d[n.f_num]) != (None, 0): c.violation(f'{f.method}:fresh', f'a new container reports values it does not have', f.loc())
        for k in (n.f_slots, n.f_free):
            if not emptyvec(d[k]): c.violation(f'{f.method}:fresh', 'a new container does not start empty', f.loc())


def emptyvec(v):
    v = strip(v)
    return v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('new', 'default', 'with_capacity') or v[:2] == ('c', 'default')


def iterators(c, p, n, fns):
    """What the iterators yield: each handle with the value of the very slot it names."""
    M = obj('map')
    made = 0
    for f in sorted(fns, key=lambda f: f.path):
        ad = strip_ty(f.locals[0])
        nx = [g for g in p.fns if g.method == 'next' and g.trait and g.trait.endswith('Iterator') and g.selfadt and strip_ty(g.selfadt) == ad and g.file == n.file]
        if len(nx) != 1: continue
        made += 1
        byref = f.locals[1].startswith('&')
        for w, r in paths(c, p, n, f, [('ref', (M, ())) if byref else ('init', (M, ()))]):
            it = strip(r)
            for w2, r2 in paths(c, p, n, nx[0], [('ref', (obj('it'), ()))], store={(obj('it'), ()): it}):
                c.count('paths')
                name = f'{ad.rsplit("::", 1)[-1]}'
                delta = common(c, nx[0], name, w2)
                if delta: c.violation(f'{name}:count', 'going through the container changes it', nx[0].loc())
                handles(c, nx[0], name, w2, r2)
                got = set()
                if r2 != NONE:
                    if r2[0] != 'agg' or r2[2] != 'Some' or r2[3][0][0] != 'agg': c.violation(f'{name}:item', 'an iterator yields something else than handle and value', nx[0].loc()); continue
                    k, v = r2[3][0][3]
                    if k[0] != 'handle': c.violation(f'{name}:item', 'an iterator yields something else than a handle', nx[0].loc()); continue
                    got = {b for b, pr in slots_in(w2.sim, w2.st, v) if pr[:1] == (('f', n.f_val),)} | {('V', x) for x in subvalues(v) if x and x[0] == 'elem'}
                    c.count('items')
                    if not any(w2.index(b) == strip(k[1]) for b in got): c.violation(f'{name}:pair', 'an iterator pairs a handle with the value of another slot', nx[0].loc())
                for b in w2.bases - got:
                    if w2.before(b) == 'Some': c.violation(f'{name}:skip', 'an iterator passes over a value', nx[0].loc())
    if made < 3: raise Missing('the iterators of the container')
    c.floor('items', 3)


def keys(c, p, n):
    for f in p.fns:
        if f.method == 'new' and f.trait == n.key and f.selfadt:
            ad = strip_ty(f.selfadt)
            A, B = ('pos',), ('gen',)
            for g, want in (('get_slot', A), ('get_generation', B)):
                gs = [x for x in p.fns if x.trait == n.key and x.method == g and x.selfadt and strip_ty(x.selfadt) == ad]
                if len(gs) != 1: raise Missing(f'{g} of {ad}')
                sim, ex = runfn(p, f, (A, B))
                for st, k in ex:
                    sim2, ex2 = runfn(p, gs[0], (('ref', (obj('k'), ())),), store={(obj('k'), ()): k})
                    for st2, v in ex2:
                        if strip(v) != want: c.violation(f'{ad}:{g}', f'a handle does not give back the {"position" if want is A else "generation"} it was made with', gs[0].loc())
            c.count('handle types')


def privacy(c, p, n):
    for a in (n.map, n.slot):
        for fld, ty, pub in p.adts[a]['vs'][0][2]:
            if pub: c.violation(f'{a}:{fld}:public', f'`{a}.{fld}` can be changed from outside the container', '')
    # within the crate, only the container's own file may touch the fields
    for f in p.fns:
        if f.file == n.file or f.derived: continue
        for ad in (n.map, n.slot):
            if any(strip_ty(t) == n.slot for t in f.locals): c.violation('outside', f'`{f.path}` handles slots outside the container', f.loc())

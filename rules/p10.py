"""P10: no script can make the VM borrow a cell it already has borrowed."""
import re
from h import *
from p33 import Locks

TAKE = re.compile(r'(RefLock<[^<>]*>>>|RefCell|RefLock)::(borrow|borrow_mut)$')
GUARDTY = re.compile(r'(?:core::cell::(Ref|RefMut)|(runtime::SharedRef))<')
PLAIN = {'bool', 'char', 'str', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64', '()'}
FRESH = 'fresh'


def tidy(t):
    t = re.sub(r"'\w+(, )?", '', t).replace('<>', '').replace('& ', '&')
    t = re.sub(r'\b(std_system::StdSystem<\w+>)', 'S', t)
    return re.sub(r'\b(alloc|std)::(collections|vec|string)::', '', re.sub(r'::<', '<', t)).strip()


def inside(t, i):
    """The text between the bracket that opens before position i and its partner."""
    d, k = 1, i
    while k < len(t) and d:
        if t[k] == '<': d += 1
        elif t[k] == '>' and t[k - 1] not in '-=': d -= 1
        k += 1
    return t[i:k - 1]


def held_by(t):
    """Guards a value of this type holds: [(mode, cell type)]."""
    t = t.strip()
    if t.startswith(('&', '*', '{', 'fn(')): return []
    out = []
    for m in GUARDTY.finditer(t):
        if re.search(r"&('\w+ )?(mut )?$", t[:m.start()]): continue
        out.append(('x' if m.group(1) == 'RefMut' else 's', tidy(inside(t, m.end()))))
    return out


def plain(t):
    t = re.sub(r"^&('\w+ )?(mut )?", '', t.strip())
    return t in PLAIN or t.startswith(('fn(', 'unsafe fn(', 'compact_str::', 'std::string::String', 'gc_arena::Mutation', 'core::option::Option<usize>', 'core::option::Option<bool>', 'core::cmp::Ordering', 'core::ops::Range<usize>', 'runtime::Type', 'runtime::Number', 'runtime::Identity'))


class Cells10(Locks):
    """What each function may borrow, and which of its parameters the borrowed cells come from."""
    def __init__(self, p, c):
        super().__init__(p)
        self.c = c
        self.org, self.sums, self.memo_fmt = {}, {}, {}
        self.reified, self.asdyn = [], []
        for f in p.fns:
            for b in f.blocks:
                for s in b.stmts:
                    if s[0] == '=' and s[2][0] == 'cast' and isinstance(s[2][1], str):
                        ty = s[2][4]
                        ids = self.of(self.closures(f), s[2][2])
                        if re.match(r'(unsafe )?(for<[^>]*> )?(unsafe )?fn\(', ty): self.reified += [(i, ty) for i in ids]
                        elif 'dyn ' in ty and 'Fn' in ty: self.asdyn += [(i, ty) for i in ids]
        self.gcadts = self.bearing()

    def bearing(self):
        """Types through which cells of the VM can be reached."""
        out = {n for n, a in self.p.adts.items() if any('RefLock<' in t or 'gc_arena::Gc<' in t for v in a['vs'] for _, t, *_ in v[2] if 'dyn ' not in t)}
        while True:
            new = {n for n, a in self.p.adts.items() if n not in out and any(re.search(r'\b' + re.escape(x) + r'\b', t) for v in a['vs'] for _, t, *_ in v[2] if 'dyn ' not in t for x in out)}
            if not new: return out
            out |= new
    def reachable_cells(self, t):
        """Cell types a value of type t leads to."""
        cells, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            for m in re.finditer(r'RefLock<', x): cells.add(tidy(inside(x, m.end())))
            if re.search(r'runtime::SharedRef<|runtime::Shared<', x): cells.add('runtime::Value<C, S>')
            for n in self.gcadts:
                if n not in seen and re.search(r'\b' + re.escape(n) + r'\b', x):
                    seen.add(n)
                    todo += [t2 for v in self.p.adts[n]['vs'] for _, t2, *_ in v[2] if 'dyn ' not in t2]
        return cells

    def closures(self, f):
        if f.id in self.clos: return self.clos[f.id]
        m = {}
        while True:
            before = sum(map(len, m.values()))
            for bi, b in enumerate(f.blocks):
                for s in b.stmts:
                    if s[0] != '=': continue
                    l, r = s[1][0], s[2]
                    got = set()
                    if r[0] == 'agg':
                        if r[1]['k'] == 'closure': got.add(r[1]['id'])
                        for o in r[2]: got |= self.of(m, o)
                    elif r[0] == 'use': got |= self.of(m, r[1])
                    elif r[0] == 'cast': got |= self.of(m, r[2])
                    elif r[0] == 'ref': got |= m.get(r[2][0], set())
                    if got: m.setdefault(l, set()).update(got)
                t = b.term
                if t[0] == 'call' and re.search(r'\{closure|dyn |\bfn\(|fn\(|::fn_name|\{fn', f.locals[t[3][0]]):
                    cl = f.callees.get(bi)
                    if cl is not None and cl.local in self.p.by_id: continue
                    got = set()
                    for o in t[2]: got |= self.of(m, o)
                    if got: m.setdefault(t[3][0], set()).update(got)
            if sum(map(len, m.values())) == before: break
        self.clos[f.id] = m
        return m

    # -- where values come from
    def origins(self, f):
        """Local -> what it was made from: ('p', i) parameters, (FRESH, block) new cells, '?' anything else."""
        if f.id in self.org: return self.org[f.id]
        m = {i: {('p', i)} for i in range(1, f.nargs + 1)}
        back = {}
        def of(o):
            if o[0] not in 'my': return set()
            if plain(f.locals[o[1][0]]): return set()
            return m.get(o[1][0], set())
        def add(l, got):
            if got and not got <= m.get(l, set()): m.setdefault(l, set()).update(got); return True
            return False
        ch = True
        while ch:
            ch = False
            for bi, b in enumerate(f.blocks):
                if b.cleanup: continue
                for s in b.stmts:
                    if s[0] != '=': continue
                    l, r = s[1][0], s[2]
                    got = set()
                    if r[0] == 'agg':
                        for o in r[2]: got |= of(o)
                    elif r[0] == 'use': got = of(r[1])
                    elif r[0] == 'cast': got = of(r[2])
                    elif r[0] == 'ref':
                        got = m.get(r[2][0], set())
                        if r[1] == 'mut' or 'mut' in str(r[1]).lower(): back.setdefault(l, set()).add(r[2][0])
                    elif len(r) > 2 and isinstance(r[2], list) and r[2] and isinstance(r[2][0], int): got = m.get(r[2][0], set())
                    elif r[0] == 'addr' or r[0] == 'rawptr': got = set(m.get(r[-1][0], set()))
                    if not plain(f.locals[l]): ch |= add(l, got)
                t = b.term
                if t[0] != 'call': continue
                cl = f.callees.get(bi)
                got = set()
                for o in t[2]: got |= of(o)
                if cl is not None and cl.method == 'new' and 'Gc' in cl.rpath.split('::') and 'gc_arena' in cl.rpath: got = {(FRESH, bi)}
                if not plain(f.locals[t[3][0]]): ch |= add(t[3][0], got)
                if cl is not None and len(t[2]) > 1:
                    # what is handed along with a mutable reference may end up behind it
                    for o in t[2]:
                        if o[0] in 'my' and f.locals[o[1][0]].startswith("&") and re.match(r"&('\w+ )?mut ", f.locals[o[1][0]]):
                            for l in {o[1][0]} | back.get(o[1][0], set()): ch |= add(l, got)
        self.org[f.id] = m
        return m

    # -- what a call does
    def events(self, f, bi):
        """[(mode, cell, origins of the borrowed cell in f)], [(host call, reach, what)] of one call."""
        t = f.blocks[bi].term
        cl = f.callees.get(bi)
        org = self.origins(f)
        def of(o):
            if o[0] not in 'my': return frozenset()
            return frozenset(org.get(o[1][0], {'?'} if not plain(f.locals[o[1][0]]) else ()))
        tak, host = set(), set()
        if cl is not None:
            m = TAKE.search(cl.rpath)
            if m:
                ty = tidy(cl.args[-1]) if cl.args else '?'
                tak.add(('x' if m.group(2) == 'borrow_mut' else 's', ty, of(t[2][0]), f.path))
                return tak, host
        ids = self.runs10(f, bi)
        alls = frozenset().union(*[of(o) for o in t[2]]) if t[2] else frozenset()
        for i in ids:
            g = self.p.by_id[i]
            sub = cl is not None and cl.local == i
            st, sh = self.sums.get(i, (set(), set()))
            for mode, ty, ps, wh in st:
                if sub:
                    got = set()
                    for q in ps:
                        if isinstance(q, tuple) and q[0] == 'p': got |= of(t[2][q[1] - 1]) if q[1] - 1 < len(t[2]) else {'?'}
                        elif isinstance(q, tuple) and q[0] == FRESH: got.add((FRESH, 'inner'))
                        else: got.add(q)
                    if ty == 'T': ty = next((tidy(a) for a in cl.args if not a.startswith("'")), ty)
                    tak.add((mode, ty, frozenset(got), wh))
                else:
                    got = set(alls) | {q for q in ps if q == '?'}
                    if any(isinstance(q, tuple) and q[0] == FRESH for q in ps) and all(isinstance(q, tuple) and q[0] == FRESH for q in ps): got = {(FRESH, 'inner')}
                    tak.add((mode, ty, frozenset(got), wh))
            for what, v, reach, mc, wh in sh:
                if isinstance(v, tuple):
                    for w in self.variant(f, bi) or {''}: host.add((what, w, reach, mc, wh))
                else: host.add((what, v, reach, mc, wh))
        if cl is not None and cl.local not in self.p.by_id and cl.trait and self.hosttrait(cl) and not (ids and 'Fn' in cl.trait):
            tys = [self.optype(f, o) for o in t[2]]
            reach = set()
            for x in tys: reach |= self.reachable_cells(re.sub(r'\bC\b|\bS\b', '', x)) if not x.startswith('fn(') else set()
            mc = any('Mutation' in x for x in tys)
            self.c_host.add((f.id, bi))
            for v in self.variant(f, bi) or {''}: host.add((f'{cl.trait.rsplit("::", 1)[-1]}::{cl.method}', v, frozenset(reach), mc, f.path))
        return tak, host

    def hosttrait(self, cl):
        """Traits the embedding program implements, called on its own types."""
        n = cl.trait.rsplit('::', 1)[-1]
        if n in ('System', 'CustomTypes', 'GetType'): return True
        a = cl.args[0] if cl.args else ''
        if n in ('Fn', 'FnMut', 'FnOnce'): return 'dyn ' in a
        return n in ('From', 'Into', 'TryFrom') and ' as runtime::CustomTypes' in a

    def optype(self, f, o):
        if o[0] not in 'my': return ''
        t = f.locals[o[1][0]]
        last = o[1][-1]
        return last[4] if isinstance(last, list) and len(last) > 4 else t

    def variant(self, f, bi):
        """The requests or commands handed over: names, or the parameters they come from."""
        out = set()
        for o in f.blocks[bi].term[2]:
            if o[0] not in 'my' or not re.search(r'\b(Command|Request)<', f.locals[o[1][0]]): continue
            todo, seen = [o[1][0]], set()
            while todo:
                l = todo.pop()
                if l in seen: continue
                seen.add(l)
                if 1 <= l <= f.nargs: out.add(('p', l))
                for b in f.blocks:
                    if b.cleanup: continue
                    for s in b.stmts:
                        if s[0] == '=' and s[1] == [l]:
                            r = s[2]
                            if r[0] == 'agg' and r[1]['k'] == 'adt' and strip_ty(r[1]['adt']).rsplit('::', 1)[-1] in ('Command', 'Request'): out.add(r[1]['v'])
                            if r[0] in ('use', 'cast') and (r[1] if r[0] == 'use' else r[2])[0] in 'my': todo.append((r[1] if r[0] == 'use' else r[2])[1][0])
                            if r[0] == 'ref': todo.append(r[2][0])
        return frozenset(out)

    def runs10(self, f, bi):
        cl = f.callees.get(bi)
        t = f.blocks[bi].term
        out = set()
        if cl is None or cl.trait and cl.trait.startswith('core::ops::Fn') and cl.local not in self.p.by_id:
            fty = f.locals[t[1][1][0]] if cl is None and t[1][0] in 'my' else (cl.args[0] if cl is not None and cl.args else '')
            known = self.of(self.closures(f), t[1]) if cl is None else set()
            if cl is not None and t[2]: known = known | self.of(self.closures(f), t[2][0])
            if known: return {i for i in known if i in self.p.by_id}
            if 'dyn ' in fty:
                if 'netsblox' in f.file or True: out |= {i for i, ty in self.asdyn if arity(ty) == arity(fty)}
            elif fty.startswith(('fn(', 'for<', 'unsafe fn')) or cl is None: out |= {i for i, ty in self.reified if arity(ty) == arity(fty)}
            for o in t[2]: out |= self.of(self.closures(f), o)
            return {i for i in out if i in self.p.by_id}
        if 'spawn' in cl.method: return out
        out |= super().runs(f, bi)
        # formatting and comparing through the standard library
        if cl.local not in self.p.by_id:
            for tr, ms in (('Debug', ('new_debug',)), ('Display', ('new_display', 'to_string')), ('Clone', ('clone', 'cloned', 'to_vec', 'to_owned', 'collect', 'extend', 'from_iter', 'resize', 'make_mut')), ('PartialEq', ('eq', 'ne', 'contains', 'dedup')), ('Ord', ('cmp', 'sort', 'max', 'min')), ('Hash', ('hash',))):
                if cl.method in ms:
                    s = ' '.join(cl.args)
                    for g in self.p.fns:
                        if g.trait and g.trait.rsplit('::', 1)[-1] == tr and g.selfadt and re.search(r'\b' + re.escape(strip_ty(g.selfadt)) + r'\b', s): out.add(g.id)
        return {i for i in out if i in self.p.by_id}

    def summarise(self):
        """Fixpoint of what every function borrows and hands to the host."""
        self.c_host = set()
        fns = [f for f in self.p.fns if not f.promoted]
        callers = {}
        for f in fns:
            for bi, b in enumerate(f.blocks):
                if b.term[0] == 'call' and not b.cleanup and bi in f.reachable:
                    for i in self.runs10(f, bi): callers.setdefault(i, set()).add(f.id)
        todo = [f.id for f in fns]
        queued = set(todo)
        while todo:
            i = todo.pop(); queued.discard(i)
            f = self.p.by_id[i]
            tak, host = set(), set()
            for bi, b in enumerate(f.blocks):
                if b.term[0] == 'call' and not b.cleanup and bi in f.reachable:
                    a, h = self.events(f, bi)
                    for mode, ty, o, wh in a:
                        if f.kind == 'closure' or '{closure' in f.path: o = frozenset(x for x in o if isinstance(x, tuple) and x[0] == FRESH) or frozenset({('p', 1)})
                        tak.add((mode, ty, frozenset(('FR' and x) for x in o), wh))
                    host |= h
            if (tak, host) != self.sums.get(i, (set(), set())):
                self.sums[i] = (tak, host)
                for j in callers.get(i, ()):
                    if j not in queued: queued.add(j); todo.append(j)


def arity(t):
    m = re.search(r'(?:\bfn|Fn|FnMut|FnOnce)\((.*)', t)
    if not m: return None
    d, n, s = 0, 0, m.group(1)
    for k, ch in enumerate(s):
        if ch in '(<[': d += 1
        elif ch in ')>]':
            if ch == '>' and s[k - 1] in '-=': continue
            if d == 0 and ch == ')': return n + (1 if s[:k].strip() else 0)
            d -= 1
        elif ch == ',' and d == 0: n += 1
    return n


def live(cz, f):
    """Guards held before each terminator: {(local, field or '', mode, cell, origins)}."""
    inn = {0: frozenset((i, k, mo, ty, frozenset({('p', i)})) for i in range(1, f.nargs + 1) for k, (mo, ty) in enumerate(held_by(f.locals[i])))}
    work, at = [0], {}
    org = cz.origins(f)
    def take(st, o):
        if o[0] != 'm': return st, []
        l, pl = o[1][0], o[1]
        got = [x for x in st if x[0] == l]
        if not got: return st, []
        if len(pl) == 1: return frozenset(x for x in st if x[0] != l), got
        n = next((e[1] for e in pl[1:] if isinstance(e, list) and e[0] == 'f'), None)
        last = pl[-1]
        ty = last[4] if isinstance(last, list) and len(last) > 4 else None
        if ty is not None and not held_by(ty): return st, []
        part = [x for x in got if x[1] == n] or got
        return frozenset(x for x in st if x not in part), part
    while work:
        bi = work.pop()
        st, b = inn[bi], f.blocks[bi]
        for s in b.stmts:
            if s[0] == 'dead': st = frozenset(x for x in st if x[0] != s[1])
            if s[0] != '=': continue
            r, d = s[2], s[1][0]
            ops = [r[1]] if r[0] == 'use' else r[2] if r[0] == 'agg' else [r[2]] if r[0] == 'cast' else []
            new = []
            for n, o in enumerate(ops):
                st, got = take(st, o)
                new += [(d, n if r[0] == 'agg' and len(ops) > 1 else x[1], *x[2:]) for x in got]
            st = st | frozenset(new)
        t = b.term
        at[bi] = st
        out = st
        if t[0] == 'drop':
            l = t[1][0]
            n = next((e[1] for e in t[1][1:] if isinstance(e, list) and e[0] == 'f'), None)
            out = frozenset(x for x in st if x[0] != l or len(t[1]) > 1 and n is not None and x[1] != n)
        elif t[0] == 'call':
            moved = []
            for o in t[2]:
                out, g = take(out, o)
                moved += g
            gs = held_by(f.locals[t[3][0]])
            if gs and t[4] is not None:
                out = frozenset(x for x in out if x[0] != t[3][0] or len(t[3]) > 1)
                cl = f.callees.get(bi)
                o = frozenset().union(*[frozenset(org.get(a[1][0], ())) for a in t[2] if a[0] in 'my'])
                if moved: out |= {(t[3][0], x[1], x[2], x[3], x[4]) for x in moved}
                else:
                    for k, (mo, ty) in enumerate(gs):
                        if ty == 'T' and cl is not None: ty = next((tidy(a) for a in cl.args if not a.startswith("'")), ty)
                        out |= {(t[3][0], k, mo, ty, o)}
        for s in f.succ(bi):
            new = inn.get(s)
            m = out if new is None else new | out
            if new is None or m != new: inn[s] = m; work.append(s)
    return at


def isfresh(o): return bool(o) and all(isinstance(x, tuple) and x[0] == FRESH for x in o)


def short(ty): return re.sub(r'\b[a-z_]+::', '', ty).replace('<C, S>', '').replace('VecDeque<Value>', 'list')


def check(c):
    c.rule('while a cell is borrowed, no cell that could be the same one is borrowed in a conflicting way, in the function itself or in anything it calls')
    c.rule('no host code that can reach the cell runs while it is borrowed')
    cz = Cells10(c.p, c)
    cz.summarise()
    for f in c.p.fns:
        if f.promoted: continue
        n = [bi for bi, cl in f.callees.items() if bi in f.reachable and not f.blocks[bi].cleanup and TAKE.search(cl.rpath)]
        if n: c.count('borrows', len(n))
        if not n and not any(held_by(t) for t in f.locals): continue
        c.count('functions that borrow cells')
        at = live(cz, f)
        for bi, st in sorted(at.items()):
            b = f.blocks[bi]
            t = b.term
            if not st or b.cleanup or t[0] != 'call': continue
            cl = f.callees.get(bi)
            moved = {x for x in st for o in t[2] if o[0] == 'm' and o[1] == [x[0]]}
            if cl is not None and (cl.method == 'forget' or cl.method == 'leak' or 'ManuallyDrop' in cl.rpath) and moved:
                c.violation(f'{f.path}:leak', f'`{f.path}` never gives up a borrow of a {short(sorted(moved, key=repr)[0][3])}', f.loc(t[6]))
            if cl is not None and cl.rpath == 'core::mem::drop': continue
            c.count('calls made while a cell is borrowed')
            if cl is not None: c.sample(f'{f.path} calls {cl.rpath} holding {short(sorted(st, key=repr)[0][3])}')
            tak, host = cz.events(f, bi)
            for l, k, mo, ty, o in sorted(st, key=repr):
                for mo2, ty2, o2, wh in sorted(tak, key=repr):
                    if ty2 != ty and 'T' not in (ty, ty2) or (mo, mo2) == ('s', 's'): continue
                    c.count('pairs of borrows told apart')
                    if isfresh(o) and not (o & o2) : continue
                    if isfresh(o2) and not (o & o2): continue
                    if (l, k) in {(x[0], x[1]) for x in moved}: pass
                    c.violation(f'{name(f)}:{mo}{mo2}:{short(ty)}:{name(c.p, wh)}', f'`{f.path}` may borrow {"exclusively " if mo2 == "x" else ""}a {short(ty)} (in `{wh}`) it has already borrowed{" exclusively" if mo == "x" else ""}', f.loc(t[6]), [f.path])
                if isfresh(o): continue
                for what, v, reach, mc, wh in sorted(host, key=repr):
                    if isinstance(v, str) and v: what = f'{what}[{v}]'
                    if ty in reach and (mc or mo == 'x'):
                        c.violation(f'host:{mo}:{short(ty)}:{what}' if v and isinstance(v, str) else f'{name(f)}:host:{mo}:{short(ty)}:{what}', f'`{f.path}` has a {short(ty)} borrowed{" exclusively" if mo == "x" else ""} while the host runs `{what}`, which can reach it', f.loc(t[6]), [f.path])
    c.count('calls into the host', len(cz.c_host))
    c.floor('borrows', 80)
    c.floor('functions that borrow cells', 30)
    c.floor('calls made while a cell is borrowed', 900)
    c.floor('calls into the host', 30)
    c.assume('a cell created by the function itself is not any cell it was given')
    c.assume('host callbacks reach cells only through what the VM hands them (the process, the entity, values, the mutation context)')


def name(f, path=None): return (path or f.path).replace('{', '').replace('}', '').lstrip('<').split('::', 1)[-1]

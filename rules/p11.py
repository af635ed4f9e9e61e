"""P11: every recursive walk over script values keeps track of the lists it is inside of.

All recursion of the program is found on the call graph (with formatting dispatched through
`{}`/`{:?}` added).  Recursion over owned trees is bounded by the tree; recursion over values of the
running program can be given a list that contains itself, so on every path to such a recursive call
the walk must have asked a record of visited lists, found this list absent, entered it, and must hand
the same record on.
"""
from h import *
from mir import strip_ty
from base import Missing
import re

VAL = re.compile(r"runtime::Value<")
LISTT = re.compile(r"VecDeque<runtime::Value<")


def valueish(t): return bool(VAL.search(t))


def graph(p):
    g, via = {}, set()
    fmt = {}
    for f in p.fns:
        if f.method == 'fmt' and f.trait and f.selfadt and not f.promoted: fmt.setdefault((f.trait.rsplit('::', 1)[-1], strip_ty(f.selfadt)), []).append(f.id)
    for (tr, adt), ids in fmt.items():      # derived formatting goes through every field
        for i in ids:
            if not p.by_id[i].derived or adt not in p.adts: continue
            for v in p.adts[adt]['vs']:
                for fld in v[2]:
                    for n in re.findall(r'[\w:]+', fld[1]): g.setdefault(i, set()).update(fmt.get((tr, n), ()))
    for f in p.fns:
        if '/test' in f.file or f.promoted: continue
        g.setdefault(f.id, set()).update(p.callgraph.get(f.id, ()))
        for b, cl in f.callees.items():
            if f.blocks[b].cleanup or b not in f.reachable: continue
            if cl.method in ('new_debug', 'new_display', 'new_lower_hex') and cl.args:
                tr = {'new_debug': 'Debug', 'new_display': 'Display'}.get(cl.method)
                for a in cl.args:
                    t = strip_ty(re.sub(r"^(&('\w+ )?(mut )?)+", '', a))
                    g.setdefault(f.id, set()).update(fmt.get((tr, t), ())); via |= {(f.id, h) for h in fmt.get((tr, t), ())}
    return g, via


def components(g, nodes=None):
    """Strongly connected components (iterative Tarjan), only those with a cycle."""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    ok = (lambda x: True) if nodes is None else (lambda x: x in nodes)
    for r in sorted(g):
        if r in idx or not ok(r): continue
        work = [(r, iter(sorted(g.get(r, ()))))]
        idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if not ok(w): continue
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(sorted(g.get(w, ()))))); break
                if w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = set()
                    while True:
                        w = st.pop(); on.discard(w); comp.add(w)
                        if w == v: break
                    if len(comp) > 1 or v in g.get(v, ()): out.append(comp)
    return out


class Walk(Plain):
    """One walk, entered at `f`; calls back to `f` are recorded with what the record of visited lists says."""
    def __init__(self, prog, f, group):
        Plain.__init__(self, prog)
        self.f, self.group = f, group
        self.init_rs = ()
        self.calls, self.loc = [], f.loc()
        self.opaque_closures = False

    def inline(self, sim, fn):
        return fn.id != self.f.id and (fn.id in self.group or fn.file == self.f.file and not fn.selfadt and len(fn.blocks) < 40)

    def record(self, v):
        """Identity of a record of visited lists: the reference it is reached by."""
        return strip(v)

    def key(self, sim, st, v): return deepread(sim, st, v)

    def event(self, st, e):
        if e not in st.rs: st.rs = st.rs + (e,)

    def drop(self, st, cache, key): st.rs = tuple(e for e in st.rs if not (e[0] in ('in', 'fresh') and e[1:3] == (cache, key)))

    def on_write(self, sim, st, cx, lv, val):
        Plain.on_write(self, sim, st, cx, lv, val)
        if lv[0][0] == 'V' and lv[0][1][0] == 'memo' and len(lv[0][1]) == 3 and not (strip(val)[0] == 'agg' and strip(val)[2] == 'None'):
            _, cache, key = lv[0][1]
            self.drop(st, cache, key); self.event(st, ('in', cache, key, 'done'))

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return [(st, sim.fresh(st, ('call', 'dyn', site, ())))]
        if callee.local == self.f.id:
            self.calls.append((st.rs, tuple(args), tuple(deepread(sim, st, a) for a in args), dict(st.facts)))
            self.event(st, ('rec',))
            v = ('call', 'rec', site, ())
            return [(st, sim.fresh(st, v))]
        m = callee.method
        if m == 'identity' and callee.local: return [(st, ('ident', deepread(sim, st, args[0])))]
        if callee.rpath.startswith('gc_arena::Gc') and m in ('as_ptr', 'ptr') and args: return [(st, ('ident', deepread(sim, st, args[0])))]
        if m in ('insert', 'contains', 'contains_key', 'get', 'remove', 'replace', 'get_mut', 'entry') and len(args) >= 2 and ('BTree' in callee.rpath or 'Hash' in callee.rpath):
            cache, key = self.record(args[0]), self.key(sim, st, args[1])
            if not ismark(key): return None
            ismap = 'Map' in callee.rpath
            known = any(e[0] == 'in' and e[1:3] == (cache, key) for e in st.rs)
            fresh = any(e[0] == 'fresh' and e[1:3] == (cache, key) for e in st.rs)
            if m == 'remove':
                if not any(e == ('rec',) for e in st.rs) and known: self.event(st, ('early', cache, key))
                self.drop(st, cache, key)
                self.event(st, ('out', cache, key))
                return [(st, ('hav', site))]
            if m == 'entry':
                a = st.copy(); self.event(a, ('in', cache, key, 'entry'))
                self.event(st, ('seen', cache, key))
                E = 'std::collections::btree_map::Entry'
                return [(a, ('agg', E, 'Vacant', (('hav', site),), ('0',))), (st, ('agg', E, 'Occupied', (('hav', site),), ('0',)))]
            if m in ('contains', 'contains_key'):
                if known: return [(st, ('c', 'b', True))]
                if fresh: return [(st, ('c', 'b', False))]
                a = st.copy(); self.event(a, ('fresh', cache, key))
                self.event(st, ('seen', cache, key))
                return [(a, ('c', 'b', False)), (st, ('c', 'b', True))]
            if m in ('get', 'get_mut'):
                if known or fresh: return [(st, NONE if fresh else some(('ref', (('V', ('memo', cache, key)), ()))))]
                a = st.copy(); self.event(a, ('fresh', cache, key))
                self.event(st, ('seen', cache, key))
                return [(a, NONE), (st, some(('ref', (('V', ('memo', site)), ()))))]
            if m in ('insert', 'replace'):
                val = deepread(sim, st, args[2]) if len(args) > 2 else None
                kind = 'open' if val is not None and val[0] == 'agg' and val[2] == 'None' else 'done' if ismap else 'set'
                back = lambda new: NONE if new else some(('memo', site))
                if known or fresh:
                    self.drop(st, cache, key); self.event(st, ('in', cache, key, kind))
                    return [(st, back(fresh) if ismap else ('c', 'b', fresh))]
                a = st.copy(); self.event(a, ('in', cache, key, kind))
                self.event(st, ('seen', cache, key))
                return [(a, back(True) if ismap else ('c', 'b', True)), (st, back(False) if ismap else ('c', 'b', False))]
        return Plain.on_call(self, sim, st, cx, callee, args, site)


def ismark(k):
    if not isinstance(k, tuple): return False
    return bool(k) and k[0] == 'ident' or any(ismark(x) for x in k if isinstance(x, tuple))


def marks(k):
    if not isinstance(k, tuple) or not k: return set()
    if k[0] == 'ident': return {k[1]}
    r = set()
    for x in k: r |= marks(x)
    return r


def params(v):
    """Parameters a term is made from."""
    if not isinstance(v, tuple) or not v: return set()
    if v[0] == 'arg' and len(v) == 2 and isinstance(v[1], str) and v[1].startswith('param'): return {int(v[1][5:])}
    r = set()
    for x in v: r |= params(x)
    return r


def par(i, byref): return ('ref', (('V', ('arg', f'param{i}')), ())) if byref else ('arg', f'param{i}')


def whole(v, i):
    """v is parameter i itself."""
    v = strip(v)
    return v in (('arg', f'param{i}'), ('ref', (('V', ('arg', f'param{i}')), ())), ('init', (('V', ('arg', f'param{i}')), ())))


def sub(v, i):
    """v is a strict part of the slice in parameter i."""
    v = strip(v)
    if v[0] in ('ref', 'init') and v[1][0] == ('V', ('arg', f'param{i}')): return any(isinstance(q, tuple) and q[0] == 'ss' and q[1] + q[2] > 0 for q in v[1][1])
    if v[0] == 'init' or v[0] == 'ref':
        return False
    if v[0] == 'call' and str(v[1]).rsplit('::', 1)[-1] in ('split_first', 'split_at') and i in params(v): return True
    return False


def walk(c, p, f, group):
    rule = Walk(p, f, group)
    sim = Sim(p, rule, 60000); sim.argdepth = 10
    args = tuple(par(i, f.locals[i + 1].startswith('&')) for i in range(f.nargs))
    ex = [(st, deepread(sim, st, r)) for st, r in sim.run(f, args, St({}, {}, ()))]
    c.count('paths of walks', len(ex))
    return rule, ex


def guarded(c, p, f, rule, ex):
    """Every recursive call of a walk over program values is made with this list entered in a record that is handed on."""
    t = f.locals[1:f.nargs + 1]
    ok = True
    for rs, raw, deep, facts in rule.calls:
        c.count('recursive calls')
        down = [i for i in range(f.nargs) if valueish(t[i]) and not whole(raw[i], i)]
        down = [i for i in down if not (is_acc(t[i]) and (strip(deep[i])[0] in ('hav', 'init')))]
        if not down:
            dec = [i for i in range(f.nargs) if sub(raw[i], i) or sub(deep[i], i)]
            flip = [i for i in range(f.nargs) if t[i] == 'bool' and strip(raw[i])[0] == 'c' and flipped(facts, i, raw[i])]
            if not dec and not flip: ok = False; c.violation(f'{f.path}:progress', f'`{f.path}` calls itself with nothing made smaller', f.loc())
            continue
        if all(any(sub(deep[i], i) or sub(raw[i], i) for _ in (0,)) for i in down): continue
        # a record with this list entered, handed on
        good = False
        why = 'without recording which lists it is inside of'
        for e in rs:
            if e[0] != 'in': continue
            cache, key = e[1], e[2]
            js = [i for i in range(f.nargs) if strip(raw[i]) == cache]
            ms = marks(key)
            mine = any(whole_term(m, i) for m in ms for i in down) or any(m == strip(deep[i]) for m in ms for i in down)
            if not mine: why = 'after recording something other than the list it descends from'; continue
            if not handed(raw, cache, f): why = 'with another record of visited lists'; continue
            good = True
        if any(e[0] == 'seen' for e in rs) and not good: why = 'for a list it is already inside of'
        if not good: ok = False; c.violation(f'{f.path}:unguarded', f'`{f.path}` descends into a list {why}: a list that contains itself is walked forever', f.loc())
    # a list is remembered only while the walk is inside it
    errs = any(('seen') in [e[0] for e in st.rs] and refuses(st, r) for st, r in ex)
    for st, r in ex:
        if fails(r): continue
        for e in st.rs:
            if e[0] == 'in' and e[3] in ('set', 'entry', 'open') and errs and ('rec',) in st.rs:
                c.violation(f'{f.path}:left', f'`{f.path}` still counts a list as being walked after it has left it, so the same list met twice is refused as a cycle', f.loc()); ok = False
            if e[0] == 'in' and e[3] == 'open' and errs and ('rec',) not in st.rs:
                c.violation(f'{f.path}:left', f'`{f.path}` still counts a list as being walked after it has left it, so the same list met twice is refused as a cycle', f.loc()); ok = False
    if any(e[0] == 'early' for st, r in ex for e in st.rs if ('rec',) in st.rs and st.rs.index(e) < st.rs.index(('rec',))):
        c.violation(f'{f.path}:early', f'`{f.path}` forgets a list before walking it', f.loc()); ok = False
    return ok


def is_acc(t): return t.startswith('&mut ') and not t.startswith("&mut runtime::Value<")


def handed(raw, cache, f):
    """The record is reached through one of the arguments of the recursive call (itself, or captured by reference)."""
    return any(strip(a) == cache or contains(a, cache) for a in raw)


def contains(a, x):
    if a == x: return True
    return isinstance(a, tuple) and any(contains(y, x) for y in a)


def whole_term(m, i):
    m = strip(m)
    return whole(m, i) or params(m) == {i} and not has_elem(m)


def has_elem(t):
    if not isinstance(t, tuple) or not t: return False
    return t[0] == 'elem' or any(has_elem(x) for x in t)


def flipped(facts, i, v):
    """On this path the flag had the other value."""
    for k, f in facts.items():
        if params(k) == {i} and f[0] in ('is', 'not'): 
            cur = f[1] if f[0] == 'is' else None
            new = '1' if v[2] in (True, 'true', '1') else '0'
            if cur is not None and cur != new: return True
            if f[0] == 'not' and new in f[1]: return True
    return False


def fails(r): return r[0] == 'agg' and r[2] in ('Err', 'None') and r[1].endswith(('Result', 'Option'))
def refuses(st, r):
    """A path that met a known list and reports it (an error, or text in its place)."""
    return fails(r) or r[0] in ('call', 'hav', 'top')


def worklists(c, p):
    """Loops that take values from a list of values and add their elements to it again."""
    import p13
    for f in p.fns:
        if '/test' in f.file or f.promoted or not f.file.endswith(('process.rs', 'runtime.rs')): continue
        pops, pushes = [], []
        for b, cl in f.callees.items():
            if f.blocks[b].cleanup or b not in f.reachable or not cl.args or not VAL.search(cl.args[0]): continue
            if not ('Vec' in cl.rpath): continue
            if cl.method in ('pop', 'pop_front', 'pop_back') and p13.uses(f, f.blocks[b].term[3][0]): pops.append(b)
            if cl.method in ('push', 'push_back', 'push_front', 'extend', 'append') or (cl.trait or '').endswith('Extend'): pushes.append(b)
        if not pops or not pushes or len(f.blocks) > 400: continue
        c.count('loops over values')
        for a in pops:
            fwd = from_(f, a)
            for b in pushes:
                if b in fwd and a in from_(f, b) and not any(x in fwd and a in from_(f, x) and cl.method in ('insert', 'contains') and 'Identity' in str(cl.args) for x, cl in f.callees.items()):
                    ra = rooted(f, f.blocks[a].term[2][0]); rb = rooted(f, f.blocks[b].term[2][0])
                    if ra & rb: c.violation(f'{f.path}:worklist', f'`{f.path}` keeps adding the elements of the lists it visits without recording which it has visited', f.loc())


def rooted(f, op):
    import p17
    return p17.roots(f, op)


def from_(f, b):
    seen, work = set(), list(f.succ(b))
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x); work += f.succ(x)
    return seen


TREES = re.compile(r'netsblox_ast::|runtime::SimpleValue|serde_json::|template::|std_system::')


def check(c):
    p = c.p
    c.rule('every recursion in the program is over an owned tree (bounded by it), over a shrinking slice, or over program values; in the last case, on every path to the recursive call the list being left is entered in a record of visited lists that was asked first and is handed on, and a list already in it is not descended into')
    c.rule('a walk that refuses lists it is already inside of takes each list off its record again when it leaves it')
    g, via = graph(p)
    walks = 0
    for comp in components(g):
        fs = [p.by_id[x] for x in comp if not p.by_id[x].promoted]
        if any('/test' in f.file for f in fs): continue
        c.count('recursive groups')
        tys = [t for f in fs for t in f.locals[1:f.nargs + 1] if f.kind != 'Closure']
        heads = [f for f in fs if f.kind != 'Closure']
        # only values of the running program can be cyclic
        if not any(valueish(t) for t in tys) or all(not valueish(t) or t.startswith('&mut ') and 'Entity' in t for t in tys):
            if all('Value<' not in t or 'serde' in t or 'ast' in t for t in tys) or any(TREES.search(t) for t in tys):
                c.count('recursions over owned trees'); continue
        heads = [h for h in heads if any(valueish(t) for t in h.locals[1:h.nargs + 1])] or heads
        if not any(valueish(t) for h in heads for t in h.locals[1:h.nargs + 1]):
            src = [TREES.search(t) for h in heads for t in h.locals[1:h.nargs + 1]]
            if any(src): c.count('recursions over owned trees'); continue
        walks += 1
        back = sorted((p.by_id[a].path, p.by_id[b].path) for a, b in via if a in comp and b in comp)
        if back:
            for a, b in back: c.violation(f'{a}:format', f'`{a}` formats something that holds program values while such a value is being formatted, through `{b}` and with a new record of visited lists', fs[0].loc())
            continue
        # a group of several functions is entered at a function all of its cycles go through
        done = False
        for h in sorted(heads, key=lambda f: f.path):
            if not components(g, set(comp) - {h.id}):
                rule, ex = walk(c, p, h, set(comp))
                if not rule.calls: continue
                done = True
                if guarded(c, p, h, rule, ex): c.sample(f'{h.path}: descends only into lists it is not inside of')
                break
        if not done: c.violation(f'{heads[0].path if heads else fs[0].path}:shape', f'the recursion of {", ".join(sorted(f.path for f in fs))} could not be followed', fs[0].loc())
    worklists(c, p)
    c.count('walks over program values', walks)
    c.floor('walks over program values', 6); c.floor('recursive groups', 14); c.floor('recursive calls', 10)
    c.assume('Value::identity tells different lists apart and stays the same for one list')
    c.assume('nesting depth of acyclic lists is bounded by memory, not by this rule')

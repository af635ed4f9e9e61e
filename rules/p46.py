"""P46: comparing two values gives one answer, decided by their kinds and contents."""
from compile import *
from terms import *
from sim import TRUE, FALSE
from base import Missing
from p09 import Recursion, has

ORD = 'core::cmp::Ordering'
def ordn(x): return ('agg', ORD, x, (), ())


class Compare(Recursion):
    """The comparison; its own calls answer each of less, equal, greater, incomparable and failed."""
    def __init__(self, p, fn, loop=None):
        Recursion.__init__(self, p, fn)
        self.loop = loop if loop is not None else {fn.id}

    def inline(self, sim, f): return f.id not in self.loop and FnRule.inline(self, sim, f)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.local in self.loop:
            xs = tuple(self.norm(sim, st, x) for x in args[:2])
            n = sum(1 for e in st.rs if e[0] == 'rec')
            if n >= 4: return []   # loops are followed for as many rounds
            out = []
            for o in ('Less', 'Equal', 'Greater', None, 'Err'):
                s = st.copy()
                s.rs = s.rs + (('rec', n) + xs + (o,),)
                out.append((s, err(('err', 'rec')) if o == 'Err' else ok(NONE if o is None else some(ordn(o)))))
            return out
        if callee is not None and callee.method in ('eq', 'ne') and len(args) == 2:
            def plain(x):
                x = strip(x)
                while x[0] == 'ref': x = strip(sim.read(st, x[1]))
                if x[0] != 'agg': return None
                ys = tuple(plain(y) for y in x[3])
                return None if None in ys else (x[2],) + ys
            a, b = map(plain, args)
            if a is not None and b is not None: return [(st, TRUE if (a == b) == (callee.method == 'eq') else FALSE)]
        return Recursion.on_call(self, sim, st, cx, callee, args, site)

    def on_branch(self, sim, st, cx, v, choice):
        t = self.norm(sim, st, v)
        if t[0] in ('Eq', 'Ne', 'eq', 'ne', 'ptr_eq', 'Not', 'addr_eq', 'variant', 'cmp'): self.note(st, ('if', t, choice))


def element(t, whole):
    """The position of an element of `whole`; None for other terms."""
    if t[:1] == ('elem',) and len(t) == 3 and t[1] == whole: return t[2]
    if t[:1] == ('index',) and len(t) == 3 and t[1] == whole:
        k = t[2]
        if k[:1] == ('c',): return int(k[1]) if str(k[1]).isdigit() else None
        if k[:1] == ('elem',) and len(k) == 3 and len(k[1]) == 3 and k[1][0] in ('Range', 'range') and k[1][1] in (('c', 0), ('c', '0')): return k[2]
    return None


def values(p, f):
    return [i for i in range(f.nargs) if strip_ty(ptype_(f.locals[i + 1])).endswith('runtime::Value')]


def pair(p, f, x, y, vals, swap=()):
    n = iter('ab')
    k = iter((x, y))
    out = []
    for i in range(f.nargs):
        if i in vals: out.append(('ref', (('V', ('pure', ('agg', 'runtime::Value', next(k), (('arg', next(n)),), ('0',)))), ())))
        else: out.append(('arg', f'param{i}'))
    return out


CI = {'new', 'to_lowercase', 'to_uppercase', 'unicode', 'to_casefold'}


def unary(t, name):
    """x when t is name(x), possibly through call wrappers."""
    if t[:2] == ('call', name) and len(t) == 3: return t[2]
    if t[0] == name and len(t) == 2: return t[1]
    return None


def side(t, mine, kind):
    """How a side of a comparison reads its operand: 'self', 'number', 'text' (case-insensitive)."""
    if t == (mine,): return 'self'
    if unary(t, 'parse_number') == (mine,): return 'number'
    if t[0] in CI and len(t) == 2 or t[:1] == ('call',) and t[1] in CI and len(t) == 3:
        u = t[-1]
        if u == (mine,): return 'text' if kind == 'Text' else None
        if unary(u, 'stringify_number') == (mine,): return 'text' if kind == 'Number' else None
    return None


def same_object(e):
    """('if', t, choice) that tests whether a and b are one object: True/False, None for another test."""
    t, ch = e[1], e[2]
    ch = truth(ch)
    while t[0] == 'Not': t, ch = t[1], not ch
    sides = set(map(repr, t[1:]))
    if len(t) != 3 or ch is None: return None
    def addr(x, n): return x == (n,) or x[0] in ('as_ptr', 'identity') and len(x) == 2 and x[1] == (n,)
    if not (addr(t[1], 'a') and addr(t[2], 'b') or addr(t[1], 'b') and addr(t[2], 'a')): return None
    if t[0] in ('ptr_eq', 'addr_eq'): return ch
    if t[1][0] in ('as_ptr', 'identity') or t[2][0] in ('as_ptr', 'identity'): return ch == (t[0] in ('Eq', 'eq'))
    return None


OBJECTS = {'Image', 'Audio', 'Native', 'Closure', 'Entity'}


def judge(x, y, outs):
    """What is wrong with the outcomes of comparing an x with a y; None if nothing."""
    if x == y == 'List':
        for r, rs in outs:
            recs = [e for e in rs if e[0] == 'rec']
            for e in recs:
                A, B = e[2], e[3]
                i, j = element(A, ('a',)), element(B, ('b',))
                if i is None or j is None: return f'compares {show(A)} with {show(B)}'
                if i != j or i != e[1]: return 'pairs elements of different positions'
            ended = recs and recs[-1][4] != 'Equal'
            if any(e[4] != 'Equal' for e in recs[:-1]): return 'goes on after elements that differ'
            if ended:
                want = {None: ('None',), 'Err': 'Err'}.get(recs[-1][4], (recs[-1][4],))
                if want == 'Err':
                    if r[0] != 'Err': return f'yields {show(r)} when comparing elements fails'
                elif r != want: return f'yields {show(r)} when the first differing elements compare {recs[-1][4]}'
                continue
            n = len(recs)
            lens = ('cmp', ('len', ('a',)), ('len', ('b',)))
            if r == lens and not any(e[0] == 'if' and has(e[1], 'len') for e in rs): continue   # the shorter one ended first
            ta = sum(1 for e in rs if e[0] == 'took' and e[1] == ('a',)); tb = sum(1 for e in rs if e[0] == 'took' and e[1] == ('b',))
            if min(ta, tb) != n or r[0] == 'rec': return 'leaves elements uncompared'
            if ta == tb == n and not (ta or r == ('Equal',)) : return f'yields {show(r)} for two empty lists'
            want = ('Equal',) if ta == tb else ('Greater',) if ta > tb else ('Less',)
            if r != want: return f'yields {show(r)} for lists equal up to the end of the ' + ('first' if ta < tb else 'second' if ta > tb else 'both')
        return None
    if x == y and x in OBJECTS:
        for r, rs in outs:
            tests = {same_object(e) for e in rs if e[0] == 'if'} - {None}
            if r == ('Equal',) and tests != {True}: return 'yields Equal without being one object'
            if r == ('None',) and tests != {False}: return 'is incomparable with itself'
            if r not in (('Equal',), ('None',)): return f'yields {show(r)}'
        return None if len({r for r, _ in outs}) == 2 else 'does not tell one object from two'
    got = set()
    for r, rs in outs:
        if r[0] == 'cmp' and len(r) == 3: got.add((side(r[1], 'a', x), side(r[2], 'b', y)) if has(r[1], 'a') or r[1] == ('a',) else ('swapped',))
        elif r[0] == 'reverse' and r[1][0] == 'cmp': got.add((side(r[1][2], 'a', x), side(r[1][1], 'b', y)))
        else: got.add(r)
    want = {('Bool', 'Bool'): {('self', 'self')}, ('Number', 'Number'): {('self', 'self')}, ('Number', 'Text'): {('self', 'number'), ('text', 'text')},
            ('Text', 'Number'): {('number', 'self'), ('text', 'text')}, ('Text', 'Text'): {('number', 'number'), ('text', 'text')}}.get((x, y), {('None',)})
    if got == want: return None
    return 'yields ' + ' or '.join(sorted(show(r) for r, _ in outs))[:160]


def show(t):
    if not isinstance(t, tuple): return str(t)
    if len(t) == 1: return str(t[0])
    return f'{t[0]}(' + ', '.join(show(x) for x in t[1:]) + ')'


def check(c):
    p = c.p
    kinds = list(p.variants('runtime::Value'))
    fs = [f for f in p.fns if f.file.endswith('process.rs') and len(values(p, f)) == 2 and 'Option<core::cmp::Ordering>' in f.locals[0] and not f.root]
    # the recursive one
    def reach(f):
        seen, todo = set(), [f.id]
        while todo:
            g = p.by_id[todo.pop()]
            for cl in g.callees.values():
                if cl.local in p.by_id and cl.local not in seen and p.by_id[cl.local].file.endswith('process.rs'): seen.add(cl.local); todo.append(cl.local)
        return seen
    cyc = [f for f in fs if f.id in reach(f)]
    if not cyc: raise Missing('the comparison of values')
    loop = {f.id for f in cyc}
    main = cyc[0]
    c.rule('for every pair of kinds of value: booleans and numbers compare by value, a number with a text (and two texts) as numbers where the text is one and otherwise as text without regard to case, lists element by element with the shorter first, other objects are equal only to themselves, and everything else is incomparable')
    vals = values(p, main)
    for x in kinds:
        for y in kinds:
            rule = Compare(p, main, loop)
            sim = Sim(p, rule)
            outs = set()
            for st, r in sim.run(main, pair(p, main, x, y, vals)):
                t = rule.norm(sim, st, r)
                fresh = any(e[0] == 'mut' and e[1] == 'insert' and has(e, 'identity') for e in st.rs)
                if not fresh and (t[0] == 'Err' and not any(e[0] == 'rec' for e in st.rs) or 'get' in words_in(t)): continue   # answered from what is being compared
                if x == y == 'List':
                    at = next((n for n, e in enumerate(st.rs) if e[0] == 'rec'), None)
                    if at is not None:
                        c.count('nested comparisons')
                        marks = [e for e in st.rs[:at] if e[0] == 'mut' and e[1] in ('insert', 'entry') and len(e) > 3 and has(e[3], 'identity')]
                        if not any({'a', 'b'} <= words_in(e[3]) for e in marks): c.violation('unmarked', f'{main.path} compares the elements of two lists without having marked the pair of lists as being compared: lists that contain themselves are compared forever', main.loc(), [main.path])
                outs.add((t, st.rs))
            c.count('pairs of kinds'); c.count('comparison paths', len(outs))
            m = judge(x, y, outs) if outs else 'has no outcome'
            if m: c.violation(f'compare:{x}:{y}', f'{main.path}: comparing {x} with {y} {m}', main.loc(), [main.path])
    c.rule('the functions the rest of the interpreter compares through hand on their operands in order and the answer as it is')
    for f in fs:
        if f.id in loop or not (reach(f) & loop): continue   # a part of the comparison
        rule = Compare(p, f, loop)
        sim = Sim(p, rule)
        c.count('entries to the comparison')
        for st, r in sim.run(f, [('arg', 'ab'[values(p, f).index(i)]) if i in values(p, f) else ('arg', f'param{i}') for i in range(f.nargs)]):
            t = rule.norm(sim, st, r)
            recs = [e for e in st.rs if e[0] == 'rec']
            if len(recs) != 1 or recs[0][2:4] != (('a',), ('b',)): c.violation(f'entry:{f.path}', f'{f.path} compares ' + '; '.join(f'{show(e[2])} with {show(e[3])}' for e in recs), f.loc(), [f.path]); continue
            o = recs[0][4]
            if (t[0] != 'Err' if o == 'Err' else t != ('None' if o is None else o,)): c.violation(f'entry:{f.path}', f'{f.path} yields {show(t)} when the values compare {o}', f.loc(), [f.path])
    c.rule('two values are identical when they are one object, or equal booleans, numbers or texts; never across kinds')
    ids = [f for f in p.fns if f.file.endswith('process.rs') and f.nargs == 2 and len(values(p, f)) == 2 and f.locals[0] == 'bool' and not f.root]
    inner = set().union(*(reach(f) for f in fs + ids)) | {f.id for f in fs + ids}   # parts of the comparison, and of the test itself
    users = {cl.local for g in p.fns if g.id not in inner and g.root not in inner for cl in g.callees.values()}
    ids = [f for f in ids if f.id in users]
    if not ids: raise Missing('the test for identical values')
    for f in ids:
        for x in kinds:
            for y in kinds:
                rule = Compare(p, f, loop)
                sim = Sim(p, rule)
                outs = set()
                for st, r in sim.run(f, pair(p, f, x, y, values(p, f))): outs.add((rule.norm(sim, st, r), st.rs))
                c.count('identity paths', len(outs))
                m = identity(x, y, outs)
                if m: c.violation(f'identical:{x}:{y}', f'{f.path}: {x} and {y} {m}', f.loc(), [f.path])
    c.rule('looking for a value in a list answers with the position of the first element that compares equal, and with nothing only after all of them')
    finds = [f for f in p.fns if f.file.endswith('process.rs') and len(values(p, f)) == 1 and 'Option<usize>' in f.locals[0] and not f.root and loop & reach(f)]
    if not finds: raise Missing('the search for a value in a list')
    for f in finds:
        v = values(p, f)[0]
        rule = Compare(p, f, loop | set())
        sim = Sim(p, rule)
        for st, r in sim.run(f, [('arg', 'value') if i == v else ('arg', 'list') for i in range(f.nargs)]):
            t = rule.norm(sim, st, r)
            recs = [e for e in st.rs if e[0] == 'rec']
            c.count('search paths')
            m = None
            for e in recs:
                A, B = (e[2], e[3]) if e[3] == ('value',) else (e[3], e[2])
                if B != ('value',) or element(A, ('list',)) is None: m = f'compares {show(e[2])} with {show(e[3])}'
                elif element(A, ('list',)) != e[1]: m = 'does not go through the elements from first to last'
            last = recs[-1] if recs else None
            if m is None and any(e[4] in ('Equal', 'Err') for e in recs[:-1]): m = 'goes on after an equal element'
            if m is None and t == ('None',) and last and last[4] == 'Equal': m = 'misses an equal element'
            if m is None and t[0] == 'Err' and not (last and last[4] == 'Err'): m = 'fails without a failing comparison'
            if m is None and t != ('None',) and t[0] != 'Err':
                if not last or last[4] != 'Equal': m = f'finds {show(t)} without an equal element'
                elif t not in (('c', str(last[1])), ('c', last[1]), ('idx',)) and not element(('index', ('list',), t), ('list',)) == last[1] and not (t[0] in ('index', 'count') and t[-1] == last[1]): m = f'answers {show(t)} for element {last[1]}'
            if m: c.violation(f'search:{f.path}', f'{f.path} {m}', f.loc(), [f.path])
    c.floor('pairs of kinds', 81)
    c.floor('comparison paths', 90)
    c.floor('nested comparisons', 5)
    c.floor('entries to the comparison', 1)
    c.floor('identity paths', 81)
    c.floor('search paths', 4)


def identity(x, y, outs):
    if x != y:
        return None if all(t in (('c', False), ('c', 'False')) for t, _ in outs) else 'may be identical'
    for t, rs in outs:
        neg = False
        while t[0] == 'Not': t, neg = t[1], not neg
        if t[0] == 'c' and any(e[0] == 'if' for e in rs):
            e = [e for e in rs if e[0] == 'if'][-1]
            want = str(t[1]) == 'True'
            ch = truth(e[2])
            t = e[1]
            if ch is None or (want == ch) == neg: return 'are told apart the wrong way round'
            while t[0] == 'Not': t = t[1]; return 'are told apart the wrong way round'
        elif neg: return 'are told apart the wrong way round'
        if x in OBJECTS | {'List'}:
            if same_object(('if', t, '1')) is not True: return f'are compared by {show(t)}'
        elif x == 'Number':
            if not (len(t) == 3 and t[0] in ('Eq', 'eq') and t[1] in (('a',), ('to_bits', ('a',)), ('get', ('a',))) and t[2] in (('b',), ('to_bits', ('b',)), ('get', ('b',)))): return f'are compared by {show(t)}'
        elif t not in (('eq', ('a',), ('b',)), ('Eq', ('a',), ('b',)), ('eq', ('b',), ('a',)), ('Eq', ('b',), ('a',))): return f'are compared by {show(t)}'
    return None if outs else 'have no answer'


def truth(ch):
    if isinstance(ch, bool): return ch
    if isinstance(ch, tuple) and ch[0] == 'is': ch = ch[1]
    return {'0': False, '1': True, 'False': False, 'True': True}.get(str(ch))

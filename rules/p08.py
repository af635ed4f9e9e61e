"""P08: no part of a block is lost or duplicated in compilation."""
from compile import *
import p02, p07, link
from base import Missing

# inputs of a block that do not influence what it does
UNUSED = {('ExprKind', 'Closure'): {'kind'}, ('ExprKind', 'Entity'): {'name'}, ('Value', 'List'): {'1'}}
# what an input is, as far as its name in the parsed block says
EXPECT = {'list': 'list', 'items': 'list', 'index': 'number', 'condition': 'bool', 'f': 'closure', 'closure': 'closure', 'new_entity': 'entity', 'beats': 'number', 'msg_type': 'text'}
# kinds whose primitive takes its operands in another order than the block lists them (checked by P09)
REORDERED = {('ExprKind', 'StrGet'), ('ExprKind', 'Log')}
CHILD = {EXPR: 'expr', STMT: 'stmt', AVAL: 'value'}


def slots(p, t, path, d=0):
    """The parts of a block: a tree of ('leaf', kind, path) | ('opt', path, tree) | ('many', path, tree) | ('all', trees) | ('enum', path, {variant: tree}) | ('scalar', path)."""
    t = ptype(t)
    s = strip_ty(t)
    if s in CHILD: return ('leaf', CHILD[s], path)
    last = s.rsplit('::', 1)[-1]
    if last == 'Box': return slots(p, ty_args(t)[0], path, d)
    if last == 'Option':
        x = slots(p, ty_args(t)[0], path + '.Some', d + 1)
        return ('opt', path, x) if leafy(x) else ('scalar', path)
    if last in ('Vec', 'VecDeque'):
        x = slots(p, ty_args(t)[0], path + '[]', d + 1)
        return ('many', path, x)
    if t.startswith('('):
        parts = ty_args('X<' + t[1:-1] + '>')
        xs = [slots(p, y, f'{path}.{i}', d + 1) for i, y in enumerate(parts)]
        return ('all', xs)
    a = p.adts.get(s)
    if a is not None and s.startswith(AST) and d < 6:
        if a['kind'] == 'enum':
            vs = {v: ('all', [slots(p, ft, f'{path}.{v}.{n}', d + 1) for n, ft in p.fields(s, v)]) for v in p.variants(s)}
            if any(leafy(x) for x in vs.values()): return ('enum', path, vs)
        elif a['kind'] == 'struct':
            xs = [slots(p, ft, f'{path}.{n}', d + 1) for n, ft in p.fields(s)]
            if any(leafy(x) for x in xs): return ('all', xs)
    return ('scalar', path)


def leafy(x):
    if x[0] == 'leaf': return True
    if x[0] == 'scalar': return False
    if x[0] in ('opt', 'many'): return leafy(x[2])
    if x[0] == 'all': return any(leafy(y) for y in x[1])
    return any(leafy(y) for y in x[2].values())


class Cover:
    """Which parts of a block one template uses."""
    def __init__(self, b, ty, variant, events, facts, canon_=None):
        self.b, self.p = b, b.p
        self.canon = canon_ or (lambda x: canon(b, ty, variant, x)[0])
        self.problems = []
        self.kids = {}
        self.used = set()
        self.later = {}
        self.lens = {}
        stack = []
        for e in events:
            if e[0] == 'len' and e[3]: self.lens[self.canon(e[1])] = e[2]
            if e[0] == 'len': continue
            if e[0] == 'for': stack.append(self.canon(e[1])); self.used.add(self.canon(e[1]))
            elif e[0] == 'end': stack.pop() if stack else None
            elif e[0] in ('expr', 'stmt', 'value'):
                k = (e[0], self.canon(e[1]))
                self.kids.setdefault(k, []).append(tuple(stack))
            elif e[0] == 'later':
                for n, x in enumerate(e[3][3] if e[3][0] == 'agg' else ()):
                    if x[0] == 'ast': self.later.setdefault(self.canon(x[1]), []).append((e[1], n, tuple(stack)))
            if e[0] not in ('for', 'end'): self.walk(e)
        self.facts = {}
        for k, f in facts.items():
            x = astpath(None, None, k) if k[0] != 'sw' else None
            if x: self.facts[self.canon(x)] = f
            self.walk(k)

    def walk(self, v, d=0):
        if d > 14 or not isinstance(v, tuple) or not v: return
        if isinstance(v[0], str):
            try: x = astpath(None, None, v)
            except Exception: x = None
            if x: self.used.add(self.canon(x))
        for y in v:
            if isinstance(y, tuple): self.walk(y, d + 1)

    def uses(self, path):
        return any(u == path or u.startswith(path + '.') or u.startswith(path + '[') for u in self.used)

    def known(self, path, v):
        """True / False / None: the path's variant is v."""
        f = self.facts.get(path)
        if not f: return None
        if f[0] == 'is': return f[1] == v
        if f[0] == 'not' and v in f[1]: return False
        return None

    def cover(self, x, ctx=()):
        k = x[0]
        if k == 'scalar':
            self.scalars.append(x[1])
            return
        if k == 'all':
            for y in x[1]: self.cover(y, ctx)
            return
        if k == 'opt':
            if self.known(x[1], 'None') is True or self.known(x[1], 'Some') is False: return
            self.cover(x[2], ctx)
            return
        if k == 'many':
            if not leafy(x[2]): self.scalars.append(x[1]); return
            if x[1] in self.later: self.deferred(x[1]); return
            fixed = self.indexed(x[1])
            if x[1] in self.lens: fixed = [f'{x[1]}[{i}]' for i in range(self.lens[x[1]])]
            if fixed is not None:
                for path in fixed: self.cover(rename(x[2], x[1] + '[]', path), ctx)
                return
            # a fixed number of elements: the path knows the length
            self.cover(x[2], ctx + (x[1],))
            return
        if k == 'enum':
            vs = [v for v in x[2] if self.known(x[1], v) is not False]
            yes = [v for v in x[2] if self.known(x[1], v) is True]
            for v in (yes or vs):
                n = len(self.problems)
                self.cover(x[2][v], ctx)
            if not yes and len(vs) > 1: self.scalars.append(x[1])
            return
        # leaf
        if x[2] in self.later: self.deferred(x[2]); return
        got = self.kids.get((x[1], x[2]), [])
        if len(got) == 1:
            self.leaves += 1
            if got[0] != ctx: self.problems.append(('often', f'{x[2]} is compiled a wrong number of times (inside {list(got[0]) or "no loop"} instead of {list(ctx) or "no loop"})'))
            return
        if len(got) > 1: self.problems.append(('twice', f'{x[2]} is compiled {len(got)} times')); return
        # taken apart: the input is a literal whose parts are compiled in its place
        if x[1] == 'expr':
            K = AST + 'ExprKind'
            f = self.facts.get(x[2] + '.kind')
            if f and f[0] == 'is':
                before = len(self.problems), self.leaves
                for n, ft in self.p.fields(K, f[1]): self.cover(slots(self.p, ft, f'{x[2]}.kind.{f[1]}.{n}'), ctx)
                if self.leaves > before[1] or len(self.problems) > before[0]: return
        if x[1] == 'value':
            f = self.facts.get(x[2])
            if f and f[0] == 'is':
                before = len(self.problems), self.leaves
                for n, ft in self.p.fields(AVAL, f[1]): self.cover(slots(self.p, ft, f'{x[2]}.{f[1]}.{n}'), ctx)
                if self.leaves > before[1] or len(self.problems) > before[0]: return
        self.problems.append(('lost', f'{x[2]} is not compiled'))

    def deferred(self, path):
        hits = self.later[path]
        if len(hits) > 1: self.problems.append(('twice', f'{path} is compiled {len(hits)} times'))
        self.leaves += 1
        self.defers.append((path, hits[0][0], hits[0][1]))

    def indexed(self, path):
        """Element paths when the elements are taken apart by position."""
        idx = set()
        for (k, q) in self.kids: 
            if q.startswith(path + '[') and not q.startswith(path + '[]'): idx.add(q[:q.index(']', len(path)) + 1])
        for q in self.used:
            if q.startswith(path + '[') and not q.startswith(path + '[]'): idx.add(q[:q.index(']', len(path)) + 1])
        return sorted(idx) if idx else None

    def run(self, trees):
        self.scalars, self.leaves, self.defers = [], 0, []
        for t in trees: self.cover(t)
        return self


def rename(x, a, b):
    if isinstance(x, str): return b + x[len(a):] if x.startswith(a) else x
    if isinstance(x, (tuple, list)): return type(x)(rename(y, a, b) for y in x)
    if isinstance(x, dict): return {k: rename(y, a, b) for k, y in x.items()}
    return x


class Labels:
    """Which input each operand of each generated instruction comes from."""
    def __init__(self, fl, eff, b, ty, variant):
        self.fl, self.eff, self.b = fl, eff, b
        self.canon = lambda x: canon(b, ty, variant, x)[0]
        self.uses = []          # (item index, instruction, {depth: label}, roles)
        items = fl.items
        graph = fl.graphs[0][1]
        seen, work = set(), [(0, ())]
        while work:
            n, s = work.pop()
            if n in seen or n >= len(items): continue
            seen.add(n)
            outs = self.step(n, items[n][1], s)
            for kind, s2 in outs:
                if kind == 'next': work.append((n + 1, s2))
                elif isinstance(kind, tuple):
                    k = resolve(fl.t.events, kind[1])
                    if k is None: continue
                    m = next((j for j, (i, it) in enumerate(items) if i >= k), len(items))
                    work.append((m, s2))

    def depths(self, s):
        out, d = [], {}
        for x in reversed(s):
            if x[0] == 'many':
                out.append((None, x)); d = ladd(d, {x[1]: 1})
            else:
                out.append((lt(d), x)); d = ladd(d, {'': 1})
        return out

    def pop(self, s, n):
        n = dict(n)
        s = list(s)
        while n:
            if not s: return None
            x = s[-1]
            if x[0] == 'many':
                if n.get(x[1], 0) <= 0: return None
                n = ladd(n, {x[1]: 1}, -1); s.pop()
            else:
                if n.get('', 0) <= 0: return None
                n = ladd(n, {'': 1}, -1); s.pop()
        return tuple(s)

    def step(self, n, it, s):
        if it[0] == 'child': return [('next', s if it[1] == 'stmt' else s + (('one', self.canon(it[2])),))]
        if it[0] == 'for':
            kids = [x for _, x in it[2] if x[0] == 'child' and x[1] != 'stmt']
            if kids: s = s + (('many', self.fl.sym(('alen', it[1])), self.canon(it[1])),)
            return [('next', s)]
        v = self.fl.holefill.get(it[1][0]) if it[0] == 'hole' and it[1] else it[1] if it[0] == 'ins' else None
        if v is None: return []
        v = self.fl.prep(v)
        name = v[2]
        op = {k: x for k, x in zip(v[4], v[3])}
        if name == 'DupeValue':
            i = num(list(op.values())[0])
            if i is not None and i < len(s): return [('next', s + (s[-1 - i],))]
        if name == 'SwapValues':
            a, b = [num(x) for x in list(op.values())[:2]]
            if a is not None and b is not None and max(a, b) < len(s):
                l = list(s)
                l[-1 - a], l[-1 - b] = l[-1 - b], l[-1 - a]
                return [('next', tuple(l))]
        effs, needs = self.eff.of(v)
        roles = self.eff.roles.get(v, {})
        roles = {lt(self.fl.norm(dict(k))): r for k, r in roles.items()}
        self.uses.append((n, v, self.depths(s), roles))
        out = []
        for e in effs:
            if e.kind in ('bad', 'end') or e.net is None: continue
            net = self.fl.norm(dict(e.net))
            best = None
            for nd in sorted(needs, key=lambda x: -sum(x.values())):
                nd = self.fl.norm(nd)
                pushes = ladd(net, nd)
                if set(pushes) <= {''} and pushes.get('', 0) >= 0:
                    best = (nd, pushes.get('', 0)); break
            if best is None: continue
            if name == 'DupeValue': best = ({}, 1)
            if name == 'SwapValues': best = ({}, 0)
            s2 = self.pop(s, best[0])
            if s2 is None: continue
            top = s[-1] if s else None
            new = tuple(('res', name, j, n) for j in range(best[1]))
            if name == 'VariadicOp' and best[0] == {'': 1} and len(new) == 1 and top and top[0] in ('one', 'copy') and op.get('op', ('', '', ''))[2] == 'MakeList': new = (('copy', top),)
            if name in ('ToNumber', 'ToBool') and top: new = (top,)
            out.append((e.kind, s2 + new))
        return out


def num(x):
    x = strip(x)
    return int(x[2]) if x[0] == 'c' and x[1] == 'i' else None


def field_of(label):
    while label[0] == 'copy': label = label[1]
    if label[0] == 'one': return label[1].split('.')[0].split('[')[0]
    if label[0] == 'many': return label[2].split('.')[0].split('[')[0]
    return None


def check_roles(c, b, eff, ty, K, v, f, t, fl):
    p = b.p
    order = [n for n, _ in p.fields(K, v)]
    who = f'{p02.short(K)}::{v}' + (f' ({t.shape})' if t.shape else '')
    L = Labels(fl, eff, b, ty, v)
    for n, ins, stack, roles in L.uses:
        at = {d: x for d, x in stack if d is not None}
        # operands this instruction takes (every depth it needs)
        effs, needs = eff.of(ins)
        maxneed = max((sum(fl.norm(nd).values()) for nd in needs), default=0)
        mine = stack[:maxneed] if not any(x[0] == 'many' for d, x in stack) else [(d, x) for d, x in stack if d in roles]
        byrole = {}
        for d, rs in roles.items():
            for r in rs: byrole.setdefault(r, set()).add(d)
        fields = [(d, field_of(x), x) for d, x in mine if field_of(x)]
        for d, fd, x in fields:
            want = EXPECT.get(fd)
            if want and (byrole.get(want) or roles.get(d)):
                c.count('operand roles')
                if d not in byrole.get(want, ()): c.violation(f'{p02.short(K)}::{v}:role:{fd}', f'{who}: {fd} is handed to {ins[2]} in the place of another operand', f.loc(), [f.path])
        if (p02.short(K), v) in REORDERED or v in p07.LOOPS.get(p02.short(K), ()): continue
        direct = [(d, fd) for d, fd, x in fields if x[0] == 'one' and fd in order]
        for i in range(len(direct)):
            for j in range(i + 1, len(direct)):
                (da, fa), (db, fb) = direct[i], direct[j]          # fa is nearer the top than fb: evaluated later
                if fa == fb or order.index(fa) > order.index(fb): c.count('operand orders'); continue
                ra, rb = roles.get(da, set()), roles.get(db, set())
                if ra != rb and (ra or rb): c.count('operand orders'); continue
                c.violation(f'{p02.short(K)}::{v}:order', f'{who}: {fa} and {fb} are handed to {ins[2]} in the opposite order of the block', f.loc(), [f.path])


def check(c):
    p = c.p
    b = Builder(p)
    eff = Effects(p, c)
    fills = p02.holefills(c, b, eff)
    c.rule('on every path of the compiler for every block kind that succeeds, every nested expression and script of the block is compiled exactly once (once per element for lists, never for absent options), with the sprite of the enclosing script, and every other input influences the result; a failing input fails the block; every other outcome is an error that names the block')
    defers = set()
    ft = dict(p.fields(b.adt))
    ents = {h: [i for i, y in enumerate(ty_args('X<' + ptype(ty_args(ft[h])[0])[1:-1] + '>')) if 'Entity' in y] for h in b.holes}
    for ty, K in ((EXPR, AST + 'ExprKind'), (STMT, AST + 'StmtKind'), (AVAL, AVAL)):
        f, i = b.entry[ty]
        nok = 0
        for v in p.variants(K):
            who0 = f'{p02.short(K)}::{v}'
            rule, sim, ts = templates(b, ty, v)
            c.count('compiler paths', len(ts))
            oks = 0
            trees = [slots(p, t, n) for n, t in p.fields(K, v)]
            used_any, scal = set(), set()
            scal_used = {}
            for t in unique(ts):
                who = who0 + (f' ({t.shape})' if t.shape else '')
                if not t.ok:
                    if not t.failed:
                        e = t.err
                        while e is not None and e[0] == 'conv': e = strip(e[1])
                        nm = e[2] if e is not None and e[0] == 'agg' else None
                        c.count('rejections')
                        if nm is None: c.violation(f'{who0}:reject', f'{who}: rejected with an error that does not say why', f.loc(), [f.path])
                        elif nm.startswith('Unsupported') and not any(names_block(x) for x in e[3]): c.violation(f'{who0}:reject', f'{who}: rejected as unsupported without naming the block', f.loc(), [f.path])
                    continue
                if t.failed:
                    c.violation(f'{who0}:swallow', f'{who}: an input that cannot be compiled is skipped and the block accepted', f.loc(), [f.path]); continue
                oks += 1
                items, probs = layout(t)
                for k, msg in probs: c.violation(f'{who0}:{k}', f'{who}: {msg}', f.loc(), [f.path])
                if not items: c.violation(f'{who0}:nothing', f'{who}: compiles to nothing', f.loc(), [f.path])
                cv = Cover(b, ty, v, t.events, t.facts).run(trees)
                c.count('inputs followed', cv.leaves)
                if not p07.LOOPS.get(p02.short(K), {}) or v not in p07.LOOPS[p02.short(K)]:
                    order = [n for n, _ in p.fields(K, v)]
                    last, between = None, False
                    for e in t.events:
                        if e[0] in ('expr', 'stmt', 'value'):
                            fd = cv.canon(e[1]).split('.')[0].split('[')[0]
                            if fd not in order: last = None; continue
                            if last and between and fd != last:
                                c.count('evaluation orders')
                                if order.index(fd) < order.index(last): c.violation(f'{who0}:sequence', f'{who}: {last} is evaluated before {fd} although it comes after it and depends on its outcome', f.loc(), [f.path])
                            last, between = fd, False
                        elif e[0] == 'ins' and e[1][0] == 'hole' or e[0] == 'ins' and 'Jump' in str(e[1][2] if len(e[1]) > 2 else ''): between = True
                for k, msg in cv.problems:
                    c.violation(f'{who0}:{k}', f'{who}: {msg}', f.loc(), [f.path])
                for path, fld, n in cv.defers: defers.add((fld, n, who0))
                for s in cv.scalars:
                    c.count('settings followed')
                    scal_used.setdefault(s, []).append(cv.uses(s))
                for e in t.events:
                    if e[0] in ('ins', 'patch') and e[-1][0] == 'agg':
                        for n, x in zip(e[-1][4], e[-1][3]):
                            c.count('instruction operands')
                            why = altered(p, x) or branched(t, n, x)
                            if why: c.violation(f'{who0}:altered:{e[-1][2]}.{n}', f'{who}: {e[-1][2]} is given {why}', f.loc(), [f.path])
                    if e[0] == 'later':
                        xs = e[3][3] if e[3][0] == 'agg' and e[3][1] == '()' else ()
                        for n in ents.get(e[1], ()):
                            c.count('instruction operands')
                            x = strip(xs[n]) if n < len(xs) else None
                            if x is None or x[0] != 'arg': c.violation(f'{who0}:sprite:{e[1]}', f'{who}: a part handed over in {e[1]} is not handed over with the sprite of the block', f.loc(), [f.path])
                    if e[0] in ('expr', 'stmt', 'value') and any(a != ('arg', a[1] if len(a) > 1 else '') or a[0] != 'arg' for a in e[2]):
                        c.violation(f'{who0}:sprite', f'{who}: {e[1]} is compiled for another sprite than the block', f.loc(), [f.path])
            for s, us in scal_used.items():
                if not all(us):
                    if s.split('.')[0] in UNUSED.get((p02.short(K), v), ()) or s.endswith('.kind.Value.0.List.1'): continue
                    if any(us) and v == 'UnknownBlock' and s == 'name': continue       # the name decides which block it is
                    c.violation(f'{who0}:unused:{s}', f'{who0}: {s} does not influence the generated code' + (' on some paths' if any(us) else ''), f.loc(), [f.path])
            if oks: nok += 1
            elif not ts and ty != AVAL: c.violation(f'{who0}:noway', f'{who0}: neither compiled nor rejected', f.loc(), [f.path])
        c.count('block kinds compiled', nok)
    c.rule('operands: each input named as a list, index, condition, ring, sprite or beat count reaches the operand its instruction uses that way; inputs of the same sort keep the order of the block')
    dead = 0
    for ty, K, v, f, t, fl in p02.flows(c, b, eff, fills):
        who = f'{p02.short(K)}::{v}' + (f' ({t.shape})' if t.shape else '')
        for items, graph, state in fl.graphs:
            for n in range(len(items)):
                c.count('generated items')
                if n not in state: c.violation(f'{p02.short(K)}::{v}:dead', f'{who}: {fl.name(items, n)} can never be reached in the generated code', f.loc(), [f.path])
            if items is fl.items and len(items) not in {m for ms in graph.values() for m in ms} and v not in ('InfLoop', 'Return', 'Throw', 'Stop') and not any(it[0] == 'ins' and it[1][2] in ('Abort', 'Return', 'Throw') for _, it in items):
                c.violation(f'{p02.short(K)}::{v}:endless', f'{who}: the end of the generated code can never be reached', f.loc(), [f.path])
        check_roles(c, b, eff, ty, K, v, f, t, fl)
    linked(c, b, defers)
    c.floor('block kinds compiled', 150); c.floor('inputs followed', 200); c.floor('settings followed', 40); c.floor('operand roles', 25); c.floor('operand orders', 20); c.floor('generated items', 600); c.floor('linked parts', 5); c.floor('instruction operands', 200)


def altered(p, x, d=0):
    """What is wrong with how an operand is made from the inputs of the block, or None."""
    x = strip(x)
    if d > 6: return None
    if x[0] == 'agg':
        tail = [y[1].rsplit('.', 1) for y in map(strip, x[3]) if y[0] == 'ast']
        if len(tail) > 1 and len({y[0] for y in tail}) == 1 and all(y[-1].isdigit() for y in tail):
            idx = [int(y[-1]) for y in tail]
            if idx != sorted(set(idx)): return f'the parts of {tail[0][0]} in another order'
            if len(idx) != len(x[3]): return f'only some of the parts of {tail[0][0]}'
        for y in x[3]:
            r = altered(p, y, d + 1)
            if r: return r
        return None
    if x[0] in ('un', 'bin', 'call', 'cast'):
        src = []
        def walk(v, d=0):
            if d > 8 or not isinstance(v, tuple): return
            if len(v) == 2 and v[0] in ('ast', 'alen') and isinstance(v[1], str): src.append(v[1])
            for y in v: walk(y, d + 1)
        walk(x)
        if src: return f'an altered form of {src[0]}'
    return None


def branched(t, name, x):
    """A constant chosen by looking at the input of the same name must be that input's value."""
    x = strip(x)
    if x[0] != 'c' or x[1] != 'b': return None
    for k, f in t.facts.items():
        path = astpath(None, None, k) if k[0] != 'sw' else None
        if path and path.rsplit('.', 1)[-1] == name and f[0] == 'is' and str(f[1]).lower() in ('true', 'false', '0', '1'):
            if (str(f[1]).lower() in ('true', '1')) != (x[2] in (True, 'true', '1', 1)): return f'the opposite of {path}'
    return None


def names_block(x):
    x = strip(x)
    return mentions(x, lambda y: y == obj('root') or y == ('f', 'kind') or (isinstance(y, tuple) and len(y) == 2 and y[0] == 'arg' and y[1] == 'root')) or x[0] in ('ref', 'agg')


def linked(c, b, defers):
    """Parts handed over for later, and the scripts of the project."""
    p = b.p
    c.rule('every script, function and ring body of a project is compiled exactly once, for the sprite it belongs to; every part handed over for later is used when the reserved positions are filled')
    evs_ = []
    for f, seqs in link.analyse(c, b):
        for ev in seqs:
            evs_.append((f, ev))
            for e in ev:
                if e[0] == 'strange': c.violation(f'link:{f.path}:{e[1]}', f'{f.path}: unrecognised use of the recorded positions or of a list of scripts ({e[1]})', f.loc(), [f.path])
    for fld, n, who in sorted(defers):
        c.count('linked parts')
        key = f'hole:{fld}[].{n}'
        if not any(key in repr(ev) for f, ev in evs_): c.violation(f'link:{fld}:{n}', f'part {n} of what {who} hands over in {fld} is never used', '')
    # bodies handed over must be compiled, in a loop over exactly them
    def bodies(t, path, d=0):
        t = ptype(t)
        s = strip_ty(t)
        if s in (EXPR, AVAL) or d > 6: return
        last = s.rsplit('::', 1)[-1]
        if last in ('Vec', 'VecDeque'):
            a = strip_ty(ty_args(t)[0])
            if a == STMT: yield path
            else: yield from bodies(ty_args(t)[0], path + '[]', d + 1)
        elif last in ('Option', 'Box'): yield from bodies(ty_args(t)[0], path, d + 1)
        elif t.startswith('('):
            for i, y in enumerate(ty_args('X<' + t[1:-1] + '>')): yield from bodies(y, f'{path}.{i}', d + 1)
        elif t.startswith('['):
            yield path if strip_ty(t[1:-1]) == STMT else None
        elif s.startswith(AST) and s in p.adts and p.adts[s]['kind'] == 'struct':
            for n, ft in p.fields(s): yield from bodies(ft, f'{path}.{n}', d + 1)
    want = [x for x in bodies(AST + 'Role', 'role')]
    ft = dict(p.fields(b.adt))
    for h in b.holes:
        e = ptype(ty_args(ft[h])[0])
        for i, y in enumerate(ty_args('X<' + e[1:-1] + '>') if e.startswith('(') else []):
            if ptype(y).startswith('[') and 'netsblox_ast::Stmt' in y: want.append(f'hole:{h}[].{i}')
    ent = [i for h in b.holes for i, y in enumerate(ty_args('X<' + ptype(ty_args(ft[h])[0])[1:-1] + '>')) if 'Entity' in y]
    for path in want:
        c.count('linked parts')
        hits, okent = 0, True
        for f, ev in evs_:
            stack, local = [], 0
            for e in ev:
                if e[0] == 'for': stack.append(e[1])
                elif e[0] == 'end': stack.pop() if stack else None
                elif e[0] == 'stmt' and e[1] == path + '[]':
                    local += 1
                    outer = path.count('[]')
                    if len(stack) != outer + 1 or stack[-1] != path: c.violation(f'body:{path}:often', f'the statements of {path} are compiled a wrong number of times', f.loc(), [f.path])
                    if path.startswith('role.entities[]'): good = e[2] == (('agg', 'core::option::Option', 'Some', (('ast', 'role.entities[]'),), ('0',)),)
                    elif path.startswith('role.'): good = all(x[0] == 'agg' and x[2] == 'None' for x in e[2])
                    else: good = all(x[0] == 'ast' and x[1].startswith(path.rsplit('.', 1)[0] + '.') for x in e[2])
                    if not good: c.violation(f'body:{path}:sprite', f'the statements of {path} are compiled for another sprite than their own', f.loc(), [f.path])
            hits = max(hits, local)
            if local > 1: c.violation(f'body:{path}:twice', f'the statements of {path} are compiled {local} times', f.loc(), [f.path])
        if not hits: c.violation(f'body:{path}:lost', f'the statements of {path} are never compiled', '')
        # captured variables of custom blocks
        up = path.rsplit('.', 1)[0] + '.upvars'
        K = path.rsplit('.', 2)[-2] if '.' in path else ''
        if K.startswith('funcs') and not any(up + '[]' in repr(ev) for f, ev in evs_): c.violation(f'body:{path}:upvars', f'{up} are not passed into the code of the block', '')

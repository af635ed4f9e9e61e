"""How reserved positions are filled in after all blocks are compiled, and how scripts are laid out."""
import json
from compile import *


class LinkRule(CompRule):
    def inline(self, sim, fn):
        if fn.kind == 'Closure': return True
        if fn.id in self.b.byid: return False
        if fn.trait in ('std::convert::From', 'core::convert::From'): return True
        ts = [fn.locals[i + 1] for i in range(fn.nargs)]
        if any(not t.startswith('&') and strip_ty(t) == self.b.adt for t in ts): return False
        if not any(strip_ty(ptype(t)) == self.b.adt for t in ts): return False
        return any(strip_ty(ptype(t)) in (STMT, EXPR) or 'netsblox_ast::Stmt' in t for t in ts) or touches_holes(self.b, fn)

    def field_of(self, sim, st, v):
        r = super().field_of(sim, st, v)
        if r is not None: return r
        v = strip(v)
        if v[0] == 'ref' and v[1][0][0] == 'L' and len(v[1][1]) == 1 and v[1][1][0][0] == 'f' and v[1][1][0][1] in [self.b.insf] + self.b.holes: return v[1][1][0][1]
        return None

    def on_write(self, sim, st, cx, lv, val):
        b = lv[0]
        if b[0] == 'V' and b[1][0] == 'insat' and not lv[1]:
            self.emit(st, ('patch', self.close(sim, st, b[1][1]), self.close(sim, st, self.insval(sim, st, val))))

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and args:
            m = callee.method
            f = self.field_of(sim, st, args[0])
            if f in self.b.holes:
                if m in ('iter', 'into_iter', 'drain', 'iter_mut'): return [(st, ('iter', ('ast', 'hole:' + f)))]
                if m in ('pop_front', 'pop', 'pop_back', 'remove'):
                    n = sum(1 for e in st.rs if e == ('for', 'hole:' + f))
                    if n == 0:
                        self.emit(st, ('for', 'hole:' + f))
                        return [(st, some(('ast', f'hole:{f}[]')))]
                    self.emit(st, ('end', 'hole:' + f))
                    return [(st, NONE)]
                if m in ('is_empty', 'len'): return None
                if m in ('deref', 'deref_mut', 'as_ref', 'as_slice'): return [(st, args[0])]
            if m in ('get', 'index') and 'Map' in callee.rpath:
                k = self.keypath(sim, st, args[1])
                e = ('ref', (('V', ('pure', ('ast', f'lookup({k})'))), ()))
                return [(st, some(e)), (st.copy(), NONE)] if m == 'get' else [(st, e)]
            if m == 'push' and f is None and len(args) == 2:
                v = strip(args[1])
                if v[0] == 'agg' and v[1] == '()' and len(v[3]) >= 2 and any(x[0] == 'pos' for x in v[3]):
                    ps = [self.close(sim, st, x) for x in v[3]]
                    self.emit(st, ('entry', tuple(x[1] for x in ps if x[0] == 'ast'), [x for x in ps if x[0] == 'pos'][0]))
                    return [(st, UNIT)]
        return super().on_call(sim, st, cx, callee, args, site)

    def keypath(self, sim, st, v):
        a = astpath(sim, st, v)
        return a if a is not None else '?'


def mentions_field(fn, name):
    s = fn.__dict__.setdefault('_json', None)
    if s is None: s = fn._json = json.dumps(fn.j['blocks'])
    return f'"{name}"' in s


def touches_holes(b, fn): return any(mentions_field(fn, h) for h in b.holes)


def sources(p, b):
    """Functions that take positions back out of the hole lists, and those that lay out scripts."""
    inner = set(b.byid)
    out = []
    for f in p.fns:
        if not f.file.endswith('bytecode.rs') or f.promoted or f.kind == 'Closure' or f.derived or f.id in inner: continue
        consumes = touches_holes(b, f)
        if consumes: out.append(f)
    return out


def run_link(b, f, max_states=200000):
    rule = LinkRule(b, None)
    sim = Sim(b.p, rule, max_states)
    st = St({}, {}, ())
    args = []
    for i in range(f.nargs):
        t = f.locals[i + 1]
        pt = strip_ty(ptype(t))
        if pt == b.adt: args.append(refto('builder') if t.startswith('&') else ('init', (obj('builder'), ())))
        elif t.startswith('&') and pt.startswith('netsblox_ast::'): args.append(('ref', (('V', ('pure', ('ast', pt.rsplit('::', 1)[-1].lower()))), ())))
        else: args.append(('arg', f'a{i}'))
    return sim.run(f, tuple(args), st)


def analyse(c, b):
    """[(fn, ok event sequences)]"""
    out = []
    for f in sources(b.p, b):
        seqs = set()
        for st, ret in run_link(b, f):
            r = strip(ret)
            if r[0] == 'agg' and r[2] == 'Err': continue
            if any(e[0] == 'failed' for e in st.rs): continue
            seqs.add(st.rs)
        out.append((f, seqs))
        c.count('link paths', len(seqs))
    return out


def fills(c, b):
    """{hole field: the instruction written there}"""
    res = {}
    for f, seqs in analyse(c, b):
        for ev in seqs:
            for i, e in enumerate(ev):
                if e[0] != 'patch': continue
                if e[1][0] != 'ast' or not e[1][1].startswith('hole:'):
                    c.violation(f'link:{f.path}:where', f'{f.path} overwrites an instruction at a position that is not a reserved one', f.loc(f.line), [f.path]); continue
                fld = e[1][1][5:].split('[')[0]
                ins = e[2]
                if ins[0] != 'agg' or ins[1] != INS:
                    c.violation(f'link:{fld}:fill', f'{f.path} does not fill the reserved position with an instruction', f.loc(f.line), [f.path]); continue
                if not any(x[0] == 'pos' or x[0] == 'ast' and x[1].startswith(f'lookup(hole:{fld}[]') for x in ins[3]):
                    c.violation(f'link:{fld}:target', f'{f.path} fills the position reserved in {fld} with an instruction that does not refer to the code recorded for that entry', f.loc(f.line), [f.path])
                ops = []
                for x in ins[3]:
                    if x[0] == 'joined':
                        n = {}
                        stack = []
                        for e2 in ev[:i + 1]:
                            if e2[0] == 'for': stack.append(e2[1])
                            elif e2[0] == 'end' and stack: stack.pop()
                            elif e2[0] == 'tok' and e2[1] == x[1]:
                                s = [y for y in stack if not y.startswith('hole:') or '[]' in y]
                                n = ladd(n, {('nparams',) if s and s[-1].startswith('lookup(') else ('alen', s[-1]): 1} if s else {'': 1})
                        ops.append(('tokens', lt(n)))
                    else: ops.append(x)
                v = ins[:3] + (tuple(ops), ins[4])
                if fld in res and res[fld] != v: c.violation(f'link:{fld}:differs', f'the position reserved in {fld} is filled differently on different paths', f.loc(f.line), [f.path])
                res[fld] = v
            # every reserved position taken out is filled
            for h in b.holes:
                inside, done = 0, False
                for e in ev:
                    if e == ('for', 'hole:' + h): inside, done = 1, False
                    elif e == ('end', 'hole:' + h):
                        if not done: c.violation(f'link:{h}:unfilled', f'{f.path} takes a position reserved in {h} without filling it in', f.loc(f.line), [f.path])
                        inside = 0
                    elif inside and e[0] == 'patch' and e[1] == ('ast', f'hole:{h}[].0'): done = True
    for h in b.holes:
        if h not in res: c.violation(f'link:{h}:never', f'positions reserved in {h} are never filled in')
    c.count('hole kinds', len(res))
    return res


def layouts(c, b, eff):
    """Each script, function and ring body: (fn, event list, start position, owner path)."""
    for f, seqs in analyse(c, b):
        for ev in seqs:
            for e in ev:
                if e[0] == 'entry': yield f, ev, e[2][1], e[1]
                if e[0] == 'patch' and e[2][0] == 'agg':
                    for n, x in zip(e[2][4], e[2][3]):
                        if x[0] == 'pos': yield f, ev, x[1], (e[1][1].rsplit('.', 1)[0],)

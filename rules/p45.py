"""P45: a project starts in the state its file describes."""
import terms
from h import *
from terms import *
from p32 import args_of, cstr
from base import Missing

AST, IV, RV = 'netsblox_ast::Value', 'bytecode::InitValue', 'bytecode::RefValue'
BOX = ('VecMap', 'Vec', 'BTreeMap', 'SymbolTable', 'VecDeque', 'HashMap')
FILES = ('bytecode.rs', 'runtime.rs', 'util.rs', 'vecmap.rs', 'project.rs')
PUT = ('insert', 'push', 'push_back', 'push_front', 'define_or_redefine', 'redefine_or_define', 'insert_unique')
SEEN = ('EntityInitInfo', 'InitInfo', 'bytecode::Event', 'runtime::Entity', 'GlobalContext', 'EntityKind', 'project::Script', 'runtime::Image', 'runtime::Audio')
KEYS = {'any key': None, 'up arrow': ('Up',), 'down arrow': ('Down',), 'left arrow': ('Left',), 'right arrow': ('Right',), 'enter': ('Enter',), 'space': ('Char', ('c', '32'))}
HATS = {'OnFlag': 'OnFlag', 'OnClone': 'OnClone', 'LocalMessage': 'LocalMessage', 'NetworkMessage': 'NetworkMessage', 'Unknown': 'Custom', 'OnKey': 'OnKey'}


def has(t, x):
    if t == x: return True
    return isinstance(t, tuple) and any(has(y, x) for y in t)


def sub(t, a, b):
    if t == a: return b
    if isinstance(t, tuple) and t[:1] == ('map',) and len(t) == 3: return ('map', sub(t[1], a, b), t[2]) # its own item
    return tuple(sub(x, a, b) for x in t) if isinstance(t, tuple) else t


def tidy(t):
    """Iterating over a map is iterating over its entries."""
    if not isinstance(t, tuple): return t
    t = tuple(tidy(x) for x in t)
    if len(t) == 3 and t[0] == '.' and isinstance(t[1], tuple) and t[1][:1] == ('Iter',) and t[2] == '0': return t[1][1]
    if len(t) == 3 and t[0] == '.' and t[2] == 'values' and isinstance(t[1], tuple): return t[1]
    if t[:1] in (('copy',), ('clone',)) and len(t) == 2: return t[1]
    return t


class Init(FnRule):
    """Follows the set-up of a project; what is put in each collection is recorded with the loop element it comes from."""
    keep = True
    def __init__(self, prog, gv, reg, root=None):
        FnRule.__init__(self, prog, files=FILES)
        self.gv, self.reg, self.root = gv, reg, root
        self.atoms = self.atoms + ('to_hsva',)
        self.aggs, self.puts, self.skips, self.regs, self.late, self.kinds = {}, {}, set(), set(), set(), []
        self.init_rs, self.cut, self.consts = (), set(), {}

    def T(self, name, *args):
        k = (name,) + args
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.table)
            self.table.append(k)
        return ('T', i)

    def inline(self, sim, fn): return not fn.derived and fn.file.endswith(FILES) and not (fn.method == 'clone')

    def add(self, st, *evs): st.rs = tuple(sorted(set(st.rs) | set(evs), key=repr))
    def drop(self, st, pred): st.rs = tuple(e for e in st.rs if not pred(e))

    def used(self, st, *ts):
        self.drop(st, lambda e: e[0] == 'pend' and any(has(t, ('elem', e[1])) for t in ts))

    def nxt(self, sim, st, it):
        """One item of an iterator: (state, value or None)."""
        src = tidy(self.norm(sim, st, it))
        it = strip(it)
        if it[0] == 'ref': it = strip(sim.read(st, it[1]))
        s1, s2 = st.copy(), st.copy()
        if src[:1] == ('chars',):
            for s, w in ((s1, 'some'), (s2, 'none')): s.rs = s.rs + (('char', w, sum(e[0] == 'char' for e in s.rs), src),)
            return [(s1, self.T('elem', src)), (s2, None)]
        parts = self.item(src)[1]
        for s in (s1, s2):
            for q in parts + [src]:
                if ('pend', q) in s.rs and not self.hatless(sim, st, q): self.skips.add((q, tuple(e[1] for e in st.rs if e[0] == 'hat') + self.kinds_of(sim, st, q)))
                self.drop(s, lambda e: e == ('pend', q) or e[0] not in ('pend', 'open') and (has(e, ('elem', q)) or has(e, ('position', q))))
                self.used(s, q)
                for e in s.rs:
                    if e[0] == 'open' and e[1] != q and has(e[1], ('elem', q)): self.cut.add(e[1])
                self.drop(s, lambda e: e[0] == 'open' and (e[1] == q or has(e[1], ('elem', q))))
            s.facts = {}
        for q in parts + [src]: self.add(s1, ('open', q))
        v, parts = self.item(src)
        for e in parts: self.add(s1, ('pend', e))
        return [(s1, v), (s2, None)]

    def kinds_of(self, sim, st, src):
        """What the element is known to be."""
        return tuple(v[1] for k, v in st.facts.items() if v[0] == 'is' and isinstance(k, tuple) and k[0] != 'sw' and tidy(self.norm(sim, st, k)) == ('elem', src))

    def hatless(self, sim, st, src):
        for k, v in st.facts.items():
            if v != ('is', 'None') or k[:1] not in (('init',), ('p',), ('T',), ('deref',), ('cast',)): continue
            t = tidy(self.norm(sim, st, k))
            if t[0] == '.' and t[2] == 'hat' and has(t, ('elem', src)): return True
        return False

    def on_write(self, sim, st, cx, lv, val):
        if self.root is None or not lv[1]: return
        t = tidy(self.norm(sim, st, val))
        if t[:1] in (('List',), ('Text',), ('Image',), ('Audio',)): self.add(st, ('slot', self.place(sim, st, lv, 0), t, self.known(sim, st)))

    def item(self, src):
        if src[0] == 'enum' and len(src) == 2:
            v, ps = self.item(src[1])
            return ('agg', '()', '', (self.T('position', src[1]), v), ('0', '1')), ps
        if src[0] == 'zip' and len(src) == 3:
            (a, x), (b, y) = self.item(src[1]), self.item(src[2])
            return ('agg', '()', '', (a, b), ('0', '1')), x + y
        return self.T('elem', src), [src]

    def version(self, st): return next((e[1] for e in st.rs if e[0] == 'version'), 0)
    def known(self, sim, st): return tuple(sorted({(tidy(self.norm(sim, st, k)), v[1]) for k, v in st.facts.items() if v[0] == 'is' and isinstance(k, tuple) and k[0] != 'sw'}, key=repr))
    def norm(self, sim, st, v, d=0):
        v0 = strip(v)
        if v0[:2] == ('c', 'def') and len(v0) > 2:
            if v0[2] not in self.consts:
                self.consts[v0[2]] = ('c', v0[2])
                fs = [f for f in self.prog.fns if f.kind == 'Const' and not f.promoted and (f.path == v0[2] or f.path.endswith('::' + v0[2]))]
                if len(fs) == 1:
                    outs = sim.run(fs[0], ())
                    if len(outs) == 1: self.consts[v0[2]] = self.norm(sim, outs[0][0], outs[0][1], d + 1)
            return self.consts[v0[2]]
        return FnRule.norm(self, sim, st, v, d)
    def bump(self, st):
        if self.root is None: return
        n = self.version(st)
        self.drop(st, lambda e: e[0] == 'version')
        self.add(st, ('version', n + 1))

    def put(self, sim, st, m, ts):
        box, rest = ts[0], ts[1:]
        self.used(st, *rest)
        if self.root is not None: self.add(st, ('put', m, box, rest, self.version(st), self.known(sim, st)))
        self.bump(st)
        self.puts.setdefault(box, set()).add((m, rest, tuple(e for e in st.rs if e[0] in ('hat', 'key', 'char', 'at'))))

    def term_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m = callee.method
        f = self.prog.by_id.get(callee.local) if callee.local else None
        N = lambda x: tidy(self.norm(sim, st, x))
        if f is not None and self.gv and f.id == self.gv.id:
            t = N(args[self.gv_at])
            self.add(st, ('gv',))
            self.bump(st)
            return [(st, ok(self.T('gv', t))), (st.copy(), err(('err', 'gv')))]
        if f is not None and self.reg and f.id == self.reg.id:
            t = N(args[self.reg_at])
            self.regs.add(t)
            if ('gv',) in st.rs: self.late.add(t)
            self.used(st, t)
            return [(st, UNIT)]
        last = callee.rpath.rsplit('::', 2)[-2] if callee.rpath.count('::') >= 1 else ''
        if m in ('new', 'with_capacity', 'default'):
            base = strip_ty(callee.args[0]).rsplit('::', 1)[-1] if callee.args else ''
            if last in BOX or m == 'default' and base in BOX: return [(st, self.T('new', site))]
        if m in PUT and len(args) >= 2 and (f is None or strip_ty(f.selfadt or '').rsplit('::', 1)[-1] in BOX):
            self.put(sim, st, m, tuple(N(a) for a in args))
            return [(st, UNIT)]
        if m == 'extend' and len(args) == 2:
            ts = tuple(N(a) for a in args)
            src, body = unmap(ts[1])
            for x in body[1:] if body[:1] == ('either',) else (body,): self.put(sim, st, 'push_back', (ts[0],) + (x[1:] if x[:1] == ('()',) and len(x) == 3 else (x,)))
            self.used(st, src)
            return [(st, UNIT)]
        if f is None and m == 'next' and (callee.trait or '').endswith('Iterator'):
            return [(s, some(v) if v is not None else NONE) for s, v in self.nxt(sim, st, args[0])]
        if m in ('or_insert_with', 'or_insert_with_key') and f is None:
            e = N(args[0])
            out = [(st.copy(), ('ref', (('V', ('pure', self.T('found', e))), ())))]
            s0 = st.copy()
            for s, v in sim.invoke(s0, cx, args[1], (), site):
                self.add(s, ('new', e, N2(self, sim, s, v)))
                out.append((s, ('ref', (('V', ('pure', v)), ()))))
            return out
        if m == 'transpose' and f is None:
            a = strip(args[0])
            if a[0] == 'agg' and a[2] == 'None': return [(st, ok(NONE))]
            if a[0] == 'agg' and a[2] == 'Some':
                b = strip(a[3][0])
                if b[0] == 'agg' and b[2] == 'Err': return [(st, b)]
                if b[0] == 'agg' and b[2] == 'Ok': return [(st, ok(some(b[3][0])))]
        if m == 'len' and f is None and args: return [(st, self.T('len', N(args[0]), self.version(st)))]
        if m in ('collect', 'for_each', 'try_for_each', 'fold', 'try_fold') and f is None and has(N(args[0]), 'gv'): self.bump(st)
        if m == 'entry' and f is None: return [(st, self.T('entry', *[N(a) for a in args]))]
        if m == 'binary_search_by': return [(st, self.T('search', *[N(a) for a in args]))]
        if f is not None and m == 'get' and strip_ty(f.selfadt or '').endswith('VecMap'): return self.maybe(st, self.T('lookup', *[N(a) for a in args]))
        return super().term_call(sim, st, cx, callee, args, site)

    def maybe(self, st, v, val=None):
        s = st.copy()
        return [(st, some(val or v)), (s, NONE)]

    def note(self, st, ev):
        if ev[0] == 'mut': super().note(st, ev)

    def on_agg(self, sim, st, cx, val):
        if not val[1].endswith(SEEN): return
        row = tuple((k, tidy(self.norm(sim, st, v))) for k, v in fields_of(val).items())
        self.aggs.setdefault((val[1].rsplit('::', 1)[-1], val[2]), set()).add(row)
        if val[1].endswith('EntityKind'):
            pr = deepread(sim, st, val[3][0])
            self.kinds.append((val[2], {k: tidy(self.norm(sim, st, v)) for k, v in fields_of(pr).items()}, tuple(e for e in st.rs if e[0] == 'at')))

    def on_branch(self, sim, st, cx, v, choice):
        t = tidy(self.norm(sim, st, v))
        if t[0] == '.' and t[2] == 'kind': self.add(st, ('hat', choice if isinstance(choice, str) else choice[1] if choice[0] == 'is' else '…', t))
        elif t[0] in ('eq', 'Eq', 'ne', 'Ne'):
            yes = (choice == '0' or choice == ('is', '0')) == (t[0] in ('ne', 'Ne'))
            if any(x == ('c', '0') for x in t[1:]) and any(x[0] == 'position' for x in t[1:]): self.add(st, ('at', 0 if yes else 1, t))
            elif any(isinstance(x, tuple) and x[0] == 'c' and str(x[1]).startswith('"') for x in t[1:]) and yes:
                self.add(st, ('key', [str(x[1])[1:-1] for x in t[1:] if x[0] == 'c'][0], t))
            elif any(has(x, 'chars') for x in t[1:]): st.rs = st.rs + (('char', 'len', yes, t),)
        elif t[0] == 'position': self.add(st, ('at', 0 if choice in ('0', ('is', '0')) else 1, t))


def N2(rule, sim, st, v): return tidy(rule.norm(sim, st, v))


def unmap(t):
    """(source, what each item becomes) of a mapped iterator."""
    while t[:1] in (('collect',), ('iter',)): t = t[1]
    if t[:1] == ('map',): return t[1], sub(t[2], ('item',), ('elem', t[1]))
    return t, ('elem', t)


# ------------------------------------------------------------ the compiler's half
def only(p, what, pred):
    fs = [f for f in p.fns if not f.promoted and f.kind != 'Closure' and not f.derived and pred(f)]
    if len(fs) != 1: raise Missing(f'{what} ({len(fs)} candidates)')
    return fs[0]


def arg_of(f, ty): return next((i for i in range(f.nargs) if strip_ty(f.locals[i + 1].lstrip('&').strip()) == ty or f.locals[i + 1].endswith(ty) and f.locals[i + 1].startswith('&') and 'Vec' not in f.locals[i + 1]), None)


def simulate(p, rule, f, args, st=None, n=400000):
    sim = Sim(p, rule, n)
    sim.argdepth = 60
    outs = sim.run(f, args, st or St({}, {}, rule.init_rs))
    for s, r in outs:
        if not (strip(r)[0] == 'agg' and strip(r)[2] == 'Err'): rule.cut |= {e[1] for e in s.rs if e[0] == 'open'}
    return sim, outs


def literals(c, p, gv, reg, gat, rat):
    """What one value of the file becomes."""
    name = gv.path.rsplit('::', 1)[-1]
    def bad(v, what, msg): c.violation(f'{name}:{v}:{what}', msg, gv.loc(), [gv.path])
    for v in p.variants(AST):
        rule = Init(p, gv, reg, gv)
        rule.gv_at, rule.reg_at = gat, rat
        val = mkvariant(p, AST, v)
        args = tuple(('ref', (('V', ('pure', val)), ())) if i == gat else ('ref', (obj(f'a{i}'), ())) for i in range(gv.nargs))
        sim, outs = simulate(p, rule, gv, args, n=60000)
        good = 0
        for st, r in outs:
            r0 = strip(r)
            c.count('ways a value is translated')
            if r0[0] == 'agg' and r0[2] == 'Err':
                e = N2(rule, sim, st, r)
                if v in ('Bool', 'String', 'Audio'): bad(v, 'refused', f'a {v} in the file can be refused')
                continue
            good += 1
            t = N2(rule, sim, st, r)
            if v in ('Bool', 'Number'):
                if t != (v, ('0',)): bad(v, 'value', f'the {v} of the file becomes {show(t)}')
                continue
            if v == 'Constant':
                if t[:1] != ('Number',) or t[1][:1] != ('c',): bad(v, 'value', f'the constant becomes {show(t)}'); continue
                c.count('constants')
                continue
            if t[:1] != ('Ref',): bad(v, 'kind', f'a {v} becomes {show(t)}, which does not refer to the stored value'); continue
            idx = t[1]
            puts = [e for e in st.rs if e[0] == 'put']
            slots = [e for e in st.rs if e[0] == 'slot']
            mine = [e for e in puts if e[1] == 'push' and len(e[3]) == 1 and e[3][0][:1] == ('()',)]
            stored = [(e[3][0][1], e) for e in mine] + [(e[2], e) for e in slots]
            if v == 'Ref':
                if stored: bad(v, 'stored', 'a reference stores a new value')
                if not (has(idx, ('.', ('0',), '0')) and looked(idx)): bad(v, 'target', f'a reference resolves to {show(idx)}')
                continue
            if len(stored) > 1: bad(v, 'twice', f'a {v} is stored {len(stored)} times'); continue
            if stored:
                x, e = stored[0]
                if not holds(v, x): bad(v, 'content', f'a {v} is stored as {show(x)}')
                if v == 'Image' and x[:1] == ('Image',) and x[2] == ('None',) and not any(w == 'None' for k, w in e[-1]): bad(v, 'centre', 'the centre of an image is dropped')
                if e[0] == 'put' and not last_index(idx, e, st): bad(v, 'index', f'a {v} just stored is referred to as {show(idx)}')
                if e[0] == 'slot':
                    at = [m[3] for m in st.rs if m[0] == 'mut' and m[1] in ('index_mut', 'get_mut') and len(m) > 3]
                    if at and idx not in at: bad(v, 'slot', f'a shared list is stored in slot {show(at[0])} and referred to as {show(idx)}')
                    if not (looked(idx) and has(idx, ('.', ('1',), '0'))): bad(v, 'slot', f'a shared list is kept in slot {show(idx)}')
                if v == 'List' and e[0] == 'put' and any(k[-1] in ('1',) and w == 'Some' for k, w in e[-1]): bad(v, 'sharing', 'a list other places refer to is stored as a new list')
                continue
            key = found(idx)
            if v == 'List' or key is None: bad(v, 'lost', f'a {v} is not stored, and refers to {show(idx)}')
            elif key not in (('0',), ('as_ptr', ('0',))): bad(v, 'merged', f'two different {v}s with the same {show(key)} are taken for the same one')
        if not good: bad(v, 'never', f'no {v} can be translated')
        for e in {N for st, r in outs for N in st.rs if N[0] == 'new'}:
            key = e[1][-1] if e[1][:1] == ('entry',) else None
            if key is not None and key not in (('0',), ('as_ptr', ('0',))): bad(v, 'merged', f'two different {v}s with the same {show(key)} are taken for the same one')
        if v == 'Constant':
            seen = {}
            for st, r in outs:
                for k, f in st.facts.items():
                    pass
            for k in ('E', 'Pi'): constant(c, p, gv, gat, rat, reg, k, bad)


def constant(c, p, gv, gat, rat, reg, k, bad):
    rule = Init(p, gv, reg, gv)
    rule.gv_at, rule.reg_at = gat, rat
    val = ('agg', AST, 'Constant', (('agg', 'netsblox_ast::Constant', k, (), ()),), ('0',))
    args = tuple(('ref', (('V', ('pure', val)), ())) if i == gat else ('ref', (obj(f'a{i}'), ())) for i in range(gv.nargs))
    sim, outs = simulate(p, rule, gv, args, n=20000)
    want = {'E': ('::E', 2.718281828459045), 'Pi': ('::PI', 3.141592653589793)}[k]
    ts = {N2(rule, sim, st, r) for st, r in outs if not (strip(r)[0] == 'agg' and strip(r)[2] == 'Err')}
    for t in ts:
        x = t[1][1] if t[:1] == ('Number',) and t[1][:1] == ('c',) else None
        if not (isinstance(x, str) and 'consts' in x and x.endswith(want[0])):
            try: okay = float(x) == want[1]
            except (TypeError, ValueError): okay = False
            if not okay: bad('Constant', k, f'the constant {k} becomes {show(t)}')


def looked(t): return has(t, 'get') or has(t, 'index') or has(t, 'lookup') or has(t, 'found')


def found(idx):
    """The key an index was looked up by."""
    t = idx
    if t[:1] == ('found',) and t[1][:1] == ('entry',): return t[1][-1]
    if t[:1] == ('call',) and t[1] in ('get', 'index'): return t[-1]
    if t[:1] in (('get',), ('index',), ('lookup',)): return t[-1]
    return None


def last_index(idx, put, st):
    """Does the index name the item just pushed?"""
    box, ver = put[2], put[4]
    end = next((e[1] for e in st.rs if e[0] == 'version'), 0)
    return idx == ('Sub', ('len', box, ver + 1), ('c', '1')) or idx == ('len', box, ver)


def holds(v, x):
    while x[:1] in (('Some',),): x = x[1]
    f = lambda n: ('.', ('0',), str(n))
    if v == 'String': return x == ('Text', ('0',))
    if v == 'Audio': return x == ('Audio', f(0), f(1))
    if v == 'Image':
        if x[:1] != ('Image',) or len(x) != 4 or x[1] != f(0) or x[3] != f(2): return False
        ctr = x[2]
        while has(ctr, ('.', f(1), '0')) and ctr[:1] == ('()',):
            return ctr == ('()', ('.', ('.', f(1), '0'), '0'), ('.', ('.', f(1), '0'), '1'))
        if ctr[:1] == ('()',): return ctr == ('()', ('.', f(1), '0'), ('.', f(1), '1'))
        return ctr == ('None',) or ctr == f(1) or (ctr[:1] == ('map',) and ctr[1] == f(1) and ctr[2] == ('()', ('.', ('item',), '0'), ('.', ('item',), '1')))
    if v == 'List':
        if x[:1] != ('List',): return False
        src, body = unmap(x[1])
        return src == ('0',) and body == ('gv', ('elem', ('0',)))
    return False


def registered(c, p, gv, reg, gat, rat):
    """Every list another place may refer to has a slot before anything is translated."""
    name = reg.path.rsplit('::', 1)[-1]
    rule = Init(p, gv, reg, reg)
    rule.gv_at, rule.reg_at = gat, rat
    val = mkvariant(p, AST, 'List')
    args = tuple(('ref', (('V', ('pure', val)), ())) if i == rat else ('ref', (obj(f'a{i}'), ())) for i in range(reg.nargs))
    sim, outs = simulate(p, rule, reg, args, n=60000)
    nested = []
    for opt in (NONE, some(('fld', '1'))):
        r2 = Init(p, gv, reg, reg)
        r2.gv_at, r2.reg_at = gat, rat
        v2 = ('agg', AST, 'List', (('fld', '0'), opt), ('0', '1'))
        simulate(p, r2, reg, tuple(('ref', (('V', ('pure', v2)), ())) if i == rat else ('ref', (obj(f'a{i}'), ())) for i in range(reg.nargs)), n=60000)
        nested.append(any(t == ('elem', ('0',)) for t in r2.regs))
    if not all(nested): c.violation(f'{name}:nested', 'lists inside lists get no slot, so that references to them are refused', reg.loc(), [reg.path])
    if rule.skips or rule.cut: c.violation(f'{name}:skip', 'some of the lists inside a list get no slot', reg.loc(), [reg.path])
    n = 0
    for st, r in outs:
        puts = [e for e in st.rs if e[0] == 'put' and e[1] == 'push']
        for e in (e for e in st.rs if e[0] == 'new'):
            n += 1
            if not has(e[1], ('.', ('1',), '0')): c.violation(f'{name}:key', f'the slot of a list is found by {show(e[1])}', reg.loc(), [reg.path])
            if not any(last_index(e[2], q, st) for q in puts): c.violation(f'{name}:index', f'the slot of a list is taken to be {show(e[2])}', reg.loc(), [reg.path])
        for q in (e for e in st.rs if e[0] == 'put' and e[1] == 'insert' and has(e[3], ('.', ('1',), '0'))):
            n += 1
            if not any(last_index(q[3][1], e, st) for e in puts): c.violation(f'{name}:index', f'the slot of a list is taken to be {show(q[3][1])}', reg.loc(), [reg.path])
    c.count('slots for shared lists', n)


def items(rule, t):
    """(key, value, conditions) of what a collection is filled with."""
    if t in rule.puts: return [(r[1], r[0], r[2]) for r in rule.puts[t]]
    if t[:1] in (('collect',), ('map',)):
        src, body = unmap(t)
        return [((x[1], x[2]), 'insert', ()) if x[:1] == ('()',) and len(x) == 3 else ((x,), 'push', ()) for x in (body[1:] if body[:1] == ('either',) else (body,))]
    return []


def compiled(c, p, f, gv, reg, gat, rat):
    name = f.path.rsplit('::', 1)[-1]
    def bad(what, msg): c.violation(f'{name}:{what}', msg, f.loc(), [f.path])
    rule = Init(p, gv, reg)
    rule.gv_at, rule.reg_at = gat, rat
    sim, outs = simulate(p, rule, f, args_of(f))
    infos = {r for (n, _), rs in rule.aggs.items() if n == 'InitInfo' for r in rs}
    ents = {r for (n, _), rs in rule.aggs.items() if n == 'EntityInitInfo' for r in rs}
    if not infos or not ents: raise Missing('the project summary')
    c.count('paths through the compiler', len(outs))
    role = {r['proj_name'][1] for r in map(dict, infos) if r['proj_name'][:1] == ('.',) and r['proj_name'][2] == 'name'}
    if len(role) != 1: bad('proj_name', 'the project is not named as in the file'); return
    role = role.pop()
    for t, hats in sorted(rule.skips | {(t, ()) for t in rule.cut}, key=repr):
        if t[-1] in ('globals', 'entities', 'fields', 'costumes', 'sounds', 'scripts'): bad(f'skip:{t[-1]}', f'some of the {t[-1]} of the file are left out' + (f' (hat {hats[0]})' if hats else ''))
    regs = rule.regs
    def elems(ts): return {('.', ('elem', t), 'init') for t in ts}
    for what in ('globals', 'fields'):
        if not any(t[:1] == ('.',) and t[2] == 'init' and t[1][:1] == ('elem',) and t[1][1][:1] == ('.',) and t[1][1][2] == what for t in regs): bad(f'slots:{what}', f'lists held by the {what} get no slot, so that references to them are refused')
    if rule.late: bad('slots:late', 'lists get their slots after values that may refer to them are translated')
    # globals
    for r in map(dict, infos):
        check_values(c, rule, r['globals'], ('.', role, 'globals'), 'globals', bad)
        es = [x for x in items(rule, r['entities'])]
        c.count('entities put in the summary', len(es))
        if not es: bad('entities', 'no entity reaches the summary')
        if not any(has(r['ref_values'], b) for b in rule.puts) and r['ref_values'][:1] == ('new',) or r['ref_values'][:1] == ('None',): bad('ref_values', 'the stored values do not reach the summary')
    turns = set()
    for r in map(dict, ents):
        e = r['visible']
        if e[:1] != ('.',) or e[2] != 'visible': bad('visible', f'an entity is visible if {show(e)}'); continue
        e = e[1]
        base = e[1] if e[:1] == ('.',) else e
        if base[:1] != ('elem',) or base[1][:1] != ('.',) or base[1][2] != 'entities' or ('iter' in repr(base) and False): bad('entities:source', f'the entities come from {show(base)}'); continue
        F = lambda n: ('.', e, n)
        want = {'name': {F('name')}, 'active_costume': {F('active_costume')}, 'color': {F('color')} | {('()',) + tuple(('.', F('color'), str(i)) for i in range(4))},
                'size': {('Mul', F('scale'), ('c', '100.0')), ('Mul', ('c', '100.0'), F('scale'))},
                'pos': {('()', ('.', F('pos'), '0'), ('.', F('pos'), '1'))},
                'heading': {('Rem', F('heading'), ('c', '360.0')), ('Add', ('Rem', F('heading'), ('c', '360.0')), ('c', '360.0')), ('Add', ('c', '360.0'), ('Rem', F('heading'), ('c', '360.0'))), ('rem_euclid', F('heading'), ('c', '360.0')), ('modulus', F('heading'), ('c', '360.0'))}}
        turns.add(r['heading'][0])
        for k, ok_ in want.items():
            c.count('entity facts compared')
            if r[k] not in ok_: bad(k, f'the {k} of an entity becomes {show(r[k])}')
        for k in ('fields', 'costumes', 'sounds'): check_values(c, rule, r[k], F(k), k, bad)
        scripts(c, p, rule, r['scripts'], e, bad)
    if turns == {'Rem'}: bad('heading', 'a heading below zero is not brought into one turn')
    kinds = p.variants('netsblox_ast::HatKind')
    refused = any('UnsupportedEvent' in repr(strip(r)) for st, r in outs)
    if kinds and set(kinds) - set(HATS) and not refused: bad('unsupported', 'a hat the interpreter has no event for is not refused')


def check_values(c, rule, box, src, what, bad):
    its = items(rule, box)
    c.count('collections filled', 1)
    if not its: bad(f'{what}:empty', f'nothing is put in the {what}'); return
    el = ('elem', src)
    for xs, m, why in its:
        if len(xs) != 2 or xs[0] != ('.', ('.', el, 'def'), 'name'): bad(f'{what}:name', f'one of the {what} is named {show(xs[0])}')
        elif xs[1] != ('gv', ('.', el, 'init')): bad(f'{what}:value', f'one of the {what} starts as {show(xs[1])}')


def scripts(c, p, rule, box, e, bad):
    its = items(rule, box)
    seen, keys = set(), set()
    for xs, m, why in its:
        if len(xs) != 1 or xs[0][:1] != ('()',) or len(xs[0]) != 3: bad('scripts:form', f'a script is kept as {show(xs)}'); continue
        ev, pos = xs[0][1:]
        el = pos[1] if pos[:1] == ('.',) and pos[2] == '1' else None
        if el is None or el[:1] != ('elem',) or el[1][:1] != ('.',) or el[1][2] != 'scripts': bad('scripts:start', f'a script starts at {show(pos)}'); continue
        if not (has(el, ('elem', e[1][1])) if e[:1] == ('.',) else has(el, e)) and not has(el, e): bad('scripts:owner', 'a script is given to another entity')
        sc = ('.', el, '0')
        kind = [w[1] for w in why if w[0] == 'hat']
        if not kind: bad('scripts:hat', f'{show(ev)} is installed whatever the hat'); continue
        k = kind[-1]
        c.count('hats compared')
        seen.add(k)
        if k not in HATS: bad(f'hat:{k}', f'the hat {k} becomes {show(ev)}'); continue
        if ev[0] != HATS[k]: bad(f'hat:{k}', f'the hat {k} becomes {show(ev)}'); continue
        own = lambda t, n: t[:1] == ('.',) and t[2] == n and has(t, sc)
        if k == 'LocalMessage' and not own(ev[1], 'msg_type'): bad(f'hat:{k}', f'its message is {show(ev[1])}')
        if k in ('NetworkMessage', 'Unknown'):
            if not own(ev[1], 'msg_type' if k == 'NetworkMessage' else 'name'): bad(f'hat:{k}', f'its name is {show(ev[1])}')
            src, body = unmap(ev[2])
            if not own(src, 'fields') or body != ('.', ('elem', src), 'trans_name'):
                got = items(rule, ev[2])
                if not (got and all(len(x) == 1 and x[0][:1] == ('.',) and x[0][2] == 'trans_name' and x[0][1][:1] == ('elem',) and own(x[0][1][1], 'fields') for x, _, _ in got)): bad(f'hat:{k}:fields', f'its fields are {show(ev[2])}')
        if k == 'OnKey':
            ks = [w[1] for w in why if w[0] == 'key']
            if not any(has(w, sc) for w in why if w[0] in ('key', 'char')): bad('key:source', 'the key is not the one the hat names')
            if ks:
                keys.add(ks[-1])
                want = KEYS.get(ks[-1], 0)
                if want == 0:
                    x = ev[1]
                    if not (len(ks[-1]) == 1 and x == ('Char', ('c', str(ord(ks[-1]))))): bad(f'key:{ks[-1]}', f'the key {ks[-1]!r} becomes {show(ev[1])}')
                elif (ev[1] if ev[1] != ('None',) else None) != want: bad(f'key:{ks[-1]}', f'the key {ks[-1]!r} becomes {show(ev[1])}')
            else:
                keys.add('')
                ch = ev[1]
                if ch[:1] != ('Char',) or not has(ch, 'chars') or not has(ch, sc): bad('key:letter', f'a key named by its letter becomes {show(ch)}'); continue
                if not has(ch, 'to_ascii_lowercase') and not has(ch, 'to_lowercase'): bad('key:case', 'an upper-case letter is not taken for its key')
                if has(ch, 'to_ascii_uppercase') or has(ch, 'rev') or has(ch, 'skip') or has(ch, 'last'): bad('key:letter', f'a key named by its letter becomes {show(ch)}')
                cs = [w[1:3] for w in why if w[0] == 'char']
                if not (('some', 0) in cs and ('none', 1) in cs or any(x[0] == 'len' and x[1] for x in cs)): bad('key:longer', 'a key name of several letters is taken for its first letter')
    for k in HATS:
        if k not in seen: bad(f'hat:{k}:missing', f'no script with the hat {k} is installed')
    for k in list(KEYS) + ['']:
        if k not in keys: bad(f'key:{k}:missing', f'no script is installed for {"the key " + repr(k) if k else "keys named by their letter"}')


# ------------------------------------------------------------ the runtime's half
def started(c, p):
    f = only(p, 'GlobalContext::from_init', lambda f: f.method == 'from_init' and strip_ty(f.selfadt or '').endswith('GlobalContext'))
    name = 'GlobalContext::from_init'
    def bad(what, msg): c.violation(f'{name}:{what}', msg, f.loc(), [f.path])
    rule = Init(p, None, None)
    sim, outs = simulate(p, rule, f, args_of(f))
    c.count('paths through the start', len(outs))
    ctxs = [dict(r) for r in rule.aggs.get(('GlobalContext', ''), ())]
    ents = [dict(r) for r in rule.aggs.get(('Entity', ''), ())]
    if not ctxs or not ents: raise Missing('the running project')
    info = {r['proj_name'][1] for r in ctxs if r['proj_name'][:1] == ('.',) and r['proj_name'][2] == 'proj_name'}
    if len(info) != 1: bad('proj_name', 'the project is not named as compiled'); return
    info = info.pop()
    E = ('elem', ('.', info, 'entities'))
    RVS = ('.', info, 'ref_values')
    for t, _ in sorted(rule.skips | {(t, ()) for t in rule.cut}, key=repr):
        if t[:1] == ('.',) and t[2] in ('globals', 'entities', 'fields', 'costumes', 'sounds') or t == ('.', ('elem', RVS), '0'): bad(f'skip:{t[2]}', f'some of the {t[2] if t[2] != "0" else "items of a list"} are left out')
        if t == RVS and ('List' in _ or t in rule.cut): bad('skip:list', 'some of the stored lists are left empty')
    # stored values
    for k, fs in (('Image', ('content', 'center', 'name')), ('Audio', ('content', 'name'))):
        rows = rule.aggs.get((k, ''), ())
        if not rows: bad(f'{k}', f'no stored {k} becomes a value')
        for r in map(dict, rows):
            for i, n in enumerate(fs):
                c.count('entity facts compared')
                if not (r[n][:1] == ('.',) and r[n][2] == str(i) and r[n][1] in (('item',), ('elem', RVS))): bad(f'{k}:{n}', f'the {n} of a stored {k} becomes {show(r[n])}')
    def table(t): return isinstance(t, tuple) and (t[:1] == ('collect',) and unmap(t)[0] == RVS or t in rule.puts and all(has(x[1], ('elem', RVS)) for x in rule.puts[t]))
    def value(t, src):
        """Is t the value stored for src?  Returns the kind of case."""
        if t in (('Bool', ('.', src, '0')), ('Number', ('.', src, '0'))): return t[0]
        if t[:1] == ('index',) and table(t[1]) and t[2] == ('.', src, '0'): return 'Ref'
        return None
    tables = {t for t in subterms(tuple((k, tuple(v)) for k, v in rule.puts.items())) if table(t)}
    if not tables: bad('values', 'the stored values are not all allocated, in their order')
    for t in tables:
        body = unmap(t)[1] if t[:1] == ('collect',) else None
        if body is None: continue
        alts = body[1:] if body[:1] == ('either',) else (body,)
        names = {a[0] for a in alts}
        for k in ('Text', 'Image', 'Audio', 'List'):
            if k not in names: bad(f'values:{k}', f'no stored value becomes a {k}')
        for a in alts:
            if a[0] == 'Text' and a[1] != ('.', ('elem', RVS), '0'): bad('values:Text', f'a stored text becomes {show(a)}')
    # lists
    def fill(box, src, what, wrap, kinds):
        its = rule.puts.get(box) or items(rule, box)
        got = set()
        if not its: bad(f'{what}:empty', f'nothing is put in the {what}'); return
        for x in its:
            m, xs = (x[0], x[1]) if isinstance(x[0], str) else (x[1], x[0])
            if len(xs) == 2 and xs[0] != ('.', ('elem', src), 'key') and xs[0] != ('.', ('elem', src), '0'): bad(f'{what}:name', f'one of the {what} is named {show(xs[0])}'); continue
            v = xs[-1]
            el = ('.', ('elem', src), 'value') if len(xs) == 2 else ('elem', src)
            if wrap:
                if v[:1] != (wrap,) or len(v) != 2: bad(f'{what}:shared', f'one of the {what} is kept as {show(v)}'); continue
                v = v[1]
            if kinds == ('Ref',):
                if v[:1] == ('.',) and v[2] == '0': v = v[1]
            k = value(v, el) or value(v, ('.', ('elem', src), '1'))
            if k is None: bad(f'{what}:value', f'one of the {what} starts as {show(v)}')
            else: got.add(k)
            if m in ('push_front',): bad(f'{what}:order', f'the {what} are put in the wrong order')
        for k in kinds:
            if k not in got: bad(f'{what}:{k}', f'no {k} is put in the {what}')
        c.count('collections filled')
    lists = [b for b in rule.puts if any(x[0].startswith('push') for x in rule.puts[b]) and b[:1] != ('new',)]
    lists = [b for b in lists if b[:1] == ('.',) and b[1][:1] in (('elem',), ('index',)) and table(b[1][1])]
    if len(lists) != 1: bad('lists', 'the items of the stored lists are not put in the lists allocated for them')
    for b in lists: fill(b, ('.', ('elem', RVS), '0'), 'items of a list', None, ('Bool', 'Number', 'Ref'))
    for r in ctxs:
        fill(r['globals'], ('.', info, 'globals'), 'globals', 'Unique', ('Bool', 'Number', 'Ref'))
        put = rule.puts.get(r['entities'], ())
        if not put: bad('entities', 'no entity is put in the project')
        for m, xs, _ in put:
            if len(xs) != 2 or xs[0] != ('.', E, 'name'): bad('entities:name', f'an entity is found by the name {show(xs[0])}')
    shown = set()
    for r in ents:
        if r['name'] != ('.', E, 'name'): bad('entity:name', f'an entity is named {show(r["name"])}')
        if r['original'] != ('None',): bad('entity:original', 'an entity of the file starts as a clone')
        fill(r['fields'], ('.', E, 'fields'), 'fields', 'Unique', ('Bool', 'Number', 'Ref'))
        fill(r['sound_list'], ('.', E, 'sounds'), 'sounds', None, ('Ref',))
        fill(r['costume_list'], ('.', E, 'costumes'), 'costumes', None, ('Ref',))
        cs = r['costume']
        if cs != ('None',):
            t = cs
            while t[:1] == ('.',) and t[2] in ('value', '1', '0') or t[:1] in (('Some',),): t = t[1]
            at = t[-1]
            while at[:1] == ('.',) and at[2] == '0': at = at[1]
            if not (t[:1] in (('call',), ('get',), ('index',)) and has(t, r['costume_list']) and at == ('.', E, 'active_costume')): bad('entity:costume', f'the costume an entity wears is {show(cs)}')
            else: shown.add('costume')
    if 'costume' not in shown: bad('entity:costume', 'no entity starts with the costume chosen in the file')
    H = None
    for kind, pr, at in rule.kinds:
        c.count('entity facts compared', len(pr))
        for k in ('pos', 'heading', 'visible', 'size'):
            alt = ('()',) + tuple(('.', ('.', E, k), i) for i in '01')
            if pr.get(k) not in (('.', E, k), alt): bad(f'props:{k}', f'the {k} of an entity starts as {show(pr.get(k))}')
        comp = {}
        for k, n in (('pen_color_h', 0), ('pen_color_s', 1), ('pen_color_v', 2), ('pen_color_t', 3)):
            t, src = pr.get(k), None
            if t is None: bad(f'props:{k}', 'not set'); continue
            if t[:1] == ('Mul',) and n:
                rest = [x for x in t[1:] if x != ('c', '100.0')]
                t = rest[0] if len(rest) == 1 else t
                if n == 3 and t[:1] == ('Sub',) and t[1] == ('c', '1.0'): t = t[2]
                elif n == 3: t = ('?',)
            elif n: t = ('?',)
            if not (t[:1] == ('.',) and t[2] == str(n) and t[1][:1] == ('to_hsva',)): bad(f'props:{k}', f'the pen colour part {k[-1]} starts as {show(pr[k])}'); continue
            src = t[1][1]
            if src[:1] != ('Color',) or src[1:] != tuple(('.', ('.', E, 'color'), str(i)) for i in range(4)): bad(f'props:{k}', f'the pen colour is that of {show(src)}')
        for k, w in (('pen_down', False), ('pen_size', 1.0), ('tempo', 60.0), ('volume', 100.0), ('balance', 0.0)):
            if not const(pr.get(k), w): bad(f'props:{k}', f'the {k} of an entity starts as {show(pr.get(k))}')
        fx = pr.get('effects')
        if fx and fx[0] == 'Effects' and not all(const(x, 0.0) for x in fx[1:]): bad('props:effects', 'an entity starts with an effect')
        first = [w[1] for w in at]
        if not first: bad('stage', f'an entity becomes a {kind} whatever its place')
        elif (first[-1] == 0) != (kind == 'Stage'): bad('stage', f'entity {"0" if first[-1] == 0 else "after the first"} becomes a {kind}')
    c.count('kinds of entity', len({k for k, _, _ in rule.kinds}))
    if {k for k, _, _ in rule.kinds} != {'Stage', 'Sprite'}: bad('kinds', f'entities become {sorted({k for k, _, _ in rule.kinds})}')


def const(t, w):
    if not t or t[:1] != ('c',): return False
    if isinstance(w, bool): return t[1] is w or str(t[1]).lower() == str(w).lower()
    try: return float(str(t[1]).replace('_f64', '')) == w
    except ValueError: return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t: yield from subterms(x)


def installed(c, p):
    f = only(p, 'Project::from_init', lambda f: f.method == 'from_init' and strip_ty(f.selfadt or '').endswith('project::Project'))
    def bad(what, msg): c.violation(f'Project::from_init:{what}', msg, f.loc(), [f.path])
    rule = Init(p, None, None)
    rule.atoms = rule.atoms + ('from_init',)
    sim, outs = simulate(p, rule, f, args_of(f))
    rows = [dict(r) for r in rule.aggs.get(('Script', ''), ())]
    if not rows: raise Missing('the scripts of a project')
    boxes = [b for b, xs in rule.puts.items() if any(x[1][-1][:1] == ('Script',) for x in xs)]
    if len(boxes) != 1: bad('scripts', f'the scripts are put in {len(boxes)} places')
    for b in boxes:
        if not all(m in ('push', 'push_back') for m, _, _ in rule.puts[b]): bad('order', 'the scripts are not kept in their order')
    for t, _ in sorted(rule.skips | {(t, ()) for t in rule.cut}, key=repr): bad(f'skip:{t[-1]}', f'some of the {t[-1]} are left out')
    for r in rows:
        c.count('scripts installed')
        ev = r['event']
        el = ev[1][1] if len(ev) == 3 and ev[0] == '()' and ev[1][:1] == ('.',) else None
        if el is None or el[:1] != ('elem',) or el[1][:1] != ('.',) or el[1][2] != 'scripts' or ev != ('()', ('.', el, '0'), ('.', el, '1')): bad('event', f'a script is installed as {show(ev)}'); continue
        own = el[1][1]
        if own[:1] != ('elem',) or own[1][:1] != ('.',) or own[1][2] != 'entities': bad('event', f'the scripts come from {show(own)}')
        t = r['entity']
        if not (looked(t) and has(t, ('.', own, 'name')) or t[:1] == ('.',) and has(t, own[1])): bad('entity', f'a script is given to {show(t)}')
        if r.get('process') != ('None',): bad('running', 'a script starts as if it ran already')


def show(t):
    if t is None: return 'nothing'
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    if t[0] == '.': return f'{show(t[1])}.{t[2]}'
    if t[0] == 'c': return str(t[1])
    s = f'{t[0]}({", ".join(show(x) for x in t[1:])})' if len(t) > 1 else str(t[0])
    return s if len(s) < 200 else s[:197] + '…'


def check(c):
    p = c.p
    c.rule('following the compiler over the file: each value becomes the same value; each named global, field, costume and sound is kept under its name with its own value; each entity keeps its facts; each script with a hat is kept once with the event of its hat and its own start')
    c.rule('following the start of a project: each stored value, collection, entity fact and script of the summary ends up, unchanged, in its place in the running project')
    f = only(p, 'the function that sums up a project', lambda f: f.method == 'extract_init_info')
    cone = p.reach({f.id})
    gv = only(p, 'the translation of one value', lambda g: g.id in cone and 'InitValue' in g.locals[0] and arg_of(g, AST) is not None)
    reg = only(p, 'the registration of shared lists', lambda g: g.id in cone and g.id != gv.id and g.locals[0] in ('()',) and arg_of(g, AST) is not None and g.file.endswith('bytecode.rs'))
    gat, rat = arg_of(gv, AST), arg_of(reg, AST)
    literals(c, p, gv, reg, gat, rat)
    registered(c, p, gv, reg, gat, rat)
    compiled(c, p, f, gv, reg, gat, rat)
    started(c, p)
    installed(c, p)
    c.floor('ways a value is translated', 18)
    c.floor('hats compared', 10)
    c.floor('collections filled', 8)
    c.floor('entity facts compared', 20)
    c.floor('slots for shared lists', 1)
    c.assume('the parser reports the file faithfully')
    c.assume('the conversions between colours and between angles are decided elsewhere')

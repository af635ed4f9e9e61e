"""P15: which variable each script-visible operation refers to -- fresh, copied, or the very one captured."""
from stepm import *
from h import deepread, runfn, fieldval, callsites
from base import Missing
from mir import strip_generics
import p03, collections

SH, TAB, GRP = 'runtime::Shared', 'runtime::SymbolTable', 'runtime::LookupGroup'
# what each instruction may do with the cell of a variable; everything else only reads values
DEFINES = {'DeclareLocal': 'fresh', 'Call': 'fresh', 'InitUpvar': 'alias', 'MakeClosure': 'alias', 'CallClosure': 'both', 'ForkClosure': 'both'}
SETS = {'Assign', 'BinaryOpAssign'}
ALIASES = {'InitUpvar', 'MakeClosure', 'CallClosure', 'ForkClosure', 'Watcher'}


def table_ty(t): return strip_ty(t).endswith('SymbolTable')


def is_of(callee, adt, *methods):
    return callee is not None and strip_generics(callee.rpath).startswith(adt + '::') and (not methods or callee.method in methods)


def shared_args(callee): return any(strip_ty(a.lstrip('&').replace('mut ', '')) == SH for a in callee.args)


class Cells(Rule):
    """Variable cells as objects: tables yield ('var', table, key, n), reading one yields its contents."""
    own = ()                       # methods whose bodies are being looked at
    def events_init(self): self.ev = collections.defaultdict(set); self.nexts = 0
    def note(self, kind, *x): self.ev[kind].add(x)

    def table(self, sim, st, v):
        """The table a value refers to."""
        v = strip(v)
        for _ in range(6):
            if v[0] == 'ref':
                x = strip(sim.read(st, v[1]))
                if x[0] in ('table', 'tabclone', 'group'): return x
                if x[0] == 'ref': v = x; continue
                return ('at', self.where(sim, st, v[1]))
            break
        return v

    def where(self, sim, st, lv):
        """A stable name for a place: frames counted from the top, cells seen through."""
        base, projs = lv
        for _ in range(8):
            if base[0] == 'V' and base[1][0] in ('deref', 'as') and len(base[1]) > 1:
                x = strip(base[1][1])
                if x[0] == 'init': base, projs = x[1][0], x[1][1] + projs; continue
                if x[0] == 'ref': base, projs = x[1][0], x[1][1] + projs; continue
                if x[0] == 'call' and len(x) > 3 and x[3] and str(x[1]).rsplit('::', 1)[-1] in ('borrow', 'borrow_mut', 'deref', 'deref_mut', 'write', 'as_ref', 'unlock'):
                    y = strip(x[3][0])
                    if y[0] == 'ref': base, projs = y[1][0], y[1][1] + projs; continue
                    if y[0] == 'init': base, projs = y[1][0], y[1][1] + projs; continue
            break
        return (self.frame(base, projs), tuple(x[1] for x in projs if x[0] == 'f'))

    def frame(self, base, projs):
        if base[0] == 'V':
            b = base[1]
            if b[0] == 'topof' and b[1] == 'call': return ('frame', 1 + dict(b[2]).get('', 0) if b[2] else 1)
            if b[0] == 'at' and b[1] == 'call': return ('frame', dict(b[4]).get('', 0) - b[3])
        for a in projs:
            if a[0] == 'i' and a[1][0] == 'c' and str(a[1][2]).startswith('-') and base == SELF: return ('frame', -int(a[1][2]))
        return base

    def var_of(self, sim, st, v):
        """The variable whose cell a value refers to."""
        v = strip(v)
        for _ in range(6):
            if v[0] == 'ref':
                b = v[1][0]
                if b[0] == 'V' and b[1][0] == 'var' and not v[1][1]: return b[1]
                x = strip(sim.read(st, v[1]))
                if x == v: break
                v = x; continue
            if v[0] == 'init' and v[1][0][0] == 'V' and v[1][0][1][0] == 'var' and not v[1][1]: return v[1][0][1]
            break
        return None

    def key(self, sim, st, v):
        v = deepread(sim, st, v)
        return v

    def found(self, sim, st, x):
        """A lookup that may fail, succeeding with the cell x."""
        s1, s2 = st.copy(), st.copy()
        sim.fresh(s1, x)
        return [(s1, some(('ref', (('V', x), ())))), (s2, NONE)]

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m = callee.method
        tr = callee.trait or ''
        if m not in self.own:
            if is_of(callee, SH, 'alias_inner', 'alias') or is_of(callee, SH, 'set', 'get'):
                x = self.var_of(sim, st, args[0])
                if x is None: x = ('other', TOP)
                if m == 'set': self.note('set', x, args[-1], site); self.did(st, 'set'); return [(st, UNIT)]
                if m == 'get': return [(st, ('shref', x))]
                self.note('alias', x, site); self.did(st, 'alias')
                cell = ('cellof', x)
                return [(st, cell if m == 'alias_inner' else ('agg', SH, 'Aliased', (cell,), ('0',)))]
            if is_of(callee, GRP, 'new') or is_of(callee, GRP) and m not in ('lookup', 'lookup_mut'):
                a = strip(args[0])
                arr = sim.read(st, a[1]) if a[0] == 'ref' else a
                if arr[0] == 'agg' and arr[1] == '[]': return [(st, ('group', tuple(self.table(sim, st, x) for x in arr[3])))]
                return [(st, ('group', (TOP,)))]
            if is_of(callee, GRP, 'lookup', 'lookup_mut') or is_of(callee, TAB, 'lookup', 'lookup_mut'):
                x = ('var', self.table(sim, st, args[0]), self.key(sim, st, args[1]), site)
                self.note('lookup', m, x)
                return self.found(sim, st, x)
            if is_of(callee, TAB, 'define_or_redefine'):
                self.define(sim, st, cx, self.table(sim, st, args[0]), self.key(sim, st, args[1]), args[2], site)
                return [(st, UNIT)]
            if is_of(callee, TAB, 'iter', 'iter_mut'): return [(st, ('tabiter', self.table(sim, st, args[0])))]
            if m == 'into_iter' and args and strip(args[0])[0] == 'tabiter': return [(st, args[0])]
            if m in ('default', 'new') and not args and (TAB in callee.rpath or any(table_ty(a) for a in callee.args[:1])): return [(st, sim.fresh(st, ('table', site)))]
            if m == 'clone' and tr.endswith('clone::Clone') and args and any(table_ty(a) for a in callee.args[:1]):
                return [(st, ('tabclone', self.table(sim, st, args[0])))]
        if m == 'next' and args:
            a = strip(args[0])
            it = strip(sim.read(st, a[1])) if a[0] == 'ref' else a
            self.again(st, cx, site)
            if it[0] == 'tabiter':
                x = ('var', it[1], ('key', site), site)
                s1, s2 = st.copy(), st.copy()
                sim.fresh(s1, x)
                pair = ('agg', '()', '', (('ref', (('V', ('key', site)), ())), ('ref', (('V', x), ()))), ('0', '1'))
                self.nexts += 1
                return [(s1, some(pair)), (s2, NONE)]
        if m in ('deref', 'deref_mut', 'as_ref', 'borrow') and args:
            a = strip(args[0])
            v = strip(sim.read(st, a[1])) if a[0] == 'ref' else a
            if v[0] == 'shref': return [(st, ('ref', (('V', ('contents', v[1])), ())))]
        if m in ('into', 'from') and callee.args and strip_ty(callee.args[-1 if m == 'into' else 0]) == SH:
            return [(st, ('agg', SH, 'Unique', (args[0],), ('0',)))]
        if m in ('replace', 'swap', 'take', 'replace_with', 'write') and shared_args(callee) and self.own == (): self.note('bypass', m, cx.loc)
        return None

    # progress of loops over variables: every round does something before the next one starts
    def did(self, st, what): pass
    def again(self, st, cx, site): pass

    def define(self, sim, st, cx, tab, key, val, site):
        self.note('define', tab, key, self.norm(val), site)
        if ('fresh',) not in st.rs: st.rs = tuple(x for x in st.rs if x[0] != 'ran') + (('fresh',),)

    def norm(self, v):
        v = strip(v)
        if v[0] == 'agg' and v[1] == SH:
            if v[2] == 'Aliased': return ('alias', strip(v[3][0])[1]) if strip(v[3][0])[0] == 'cellof' else ('alias', None)
            return ('fresh', v[3][0])
        return ('foreign', v)

    def on_write(self, sim, st, cx, lv, val):
        if lv[0][0] == 'V' and lv[0][1][0] == 'var': self.note('write', lv[0][1], cx.loc)
        if lv[0][0] == 'V' and lv[0][1][0] == 'contents': self.note('write', lv[0][1][1], cx.loc)


class Step15(Cells, StepRule):
    def __init__(self, prog, variant):
        StepRule.__init__(self, prog, variant)
        self.events_init()
        self.frames, self.closures, self.entities, self.skipped = set(), set(), set(), set()
        self.prims = {f.id for f in prog.fns if f.selfadt and strip_ty(f.selfadt) in (SH, TAB, GRP) and f.kind != 'Closure'}

    def inline(self, sim, fn):
        if fn.id in self.prims: return False
        if fn.file.endswith('runtime.rs') and not fn.derived and any(SH in t or TAB in t for t in fn.locals[:fn.nargs + 1]): return True
        return StepRule.inline(self, sim, fn)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method.startswith('as_') and callee.rpath.startswith('runtime::Value::') and args:
            return [(st.copy(), ok(('asval', callee.method, deepread(sim, st, args[0])))), (st, err(('call', callee.rpath, site)))]
        r = Cells.on_call(self, sim, st, cx, callee, args, site)
        return r if r is not None else StepRule.on_call(self, sim, st, cx, callee, args, site)

    def again(self, st, cx, site):
        """A loop is coming round: the previous round must have defined something (in loops that define at all)."""
        if ('at', site) in st.rs and ('fresh',) not in st.rs: self.skipped.add((site, cx.fn.path, cx.loc))
        st.rs = tuple(x for x in st.rs if x not in (('fresh',), ('at', site))) + (('at', site),)

    def stack_event(self, sim, st, cx, ev):
        if ev[0] == 'push' and ev[1] == 'call': self.frames.add(deepread(sim, st, self.local_table(ev[2])))

    def local_table(self, v):
        v = strip(v)
        if v[0] == 'agg':
            for n, x in zip(v[4], v[3]):
                if strip(x)[0] in ('table', 'tabclone'): return x
            return fieldval(v, 'locals') or v
        return v

    def on_agg(self, sim, st, cx, val):
        super().on_agg(sim, st, cx, val)
        n = val[1].rsplit('::', 1)[-1]
        if n == 'Closure': self.closures.add(tuple(strip(x) for x, k in zip(val[3], val[4]) if k in self.capf()))
        if n == 'Entity': self.entities.add(tuple(strip(x) for x, k in zip(val[3], val[4]) if k in self.entf()))

    def capf(self): return {n for n, t in self.prog.fields('runtime::Closure') if table_ty(t)}
    def entf(self): return {n for n, t in self.prog.fields('runtime::Entity') if table_ty(t)}


class Contract15(Cells):
    """Bodies of the primitives themselves."""
    def __init__(self, prog, own, opaque=()):
        self.prog, self.own = prog, own
        self.events_init()
        self.skipped = set()
    def inline(self, sim, fn):
        return fn.file.endswith('runtime.rs') and not fn.derived
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and args:
            m = callee.method
            if 'VecMap' in callee.rpath:
                if m == 'insert': self.note('insert', self.norm(args[2]) if strip(args[2])[0] == 'agg' else args[2], self.key(sim, st, args[1])); return [(st, ('call', 'insert', site))]
                if m in ('get', 'get_mut'):
                    x = ('var', ('self',), self.key(sim, st, args[1]), site)
                    return self.found(sim, st, x)
                if m in ('iter', 'iter_mut'): return [(st, ('tabiter', ('self',)))]
            if m == 'replace_with' or callee.rpath.startswith('replace_with::'):
                # `replace_with(place, default, f)`: the place afterwards holds f(what it held)
                r = strip(args[0])
                old = sim.read(st, r[1])
                out = []
                for s, v in sim.invoke(st, cx, args[-1], (old,), site):
                    sim.write(s, r[1], v)
                    out.append((s, UNIT))
                return out
            if m in ('borrow', 'borrow_mut') and 'lock' in callee.rpath.lower() or m in ('borrow', 'borrow_mut') and 'Ref' in callee.rpath:
                a = strip(args[0])
                g = strip(sim.read(st, a[1])) if a[0] == 'ref' else a
                return [(st, ('ref', (('V', ('cell', g)), ())))]
            if callee.rpath.endswith('Gc::new') or strip_generics(callee.rpath) == 'gc_arena::Gc::new':
                return [(st, sim.fresh(st, ('gcnew', site, args[-1])))]
            if m == 'new' and 'Lock' in callee.rpath: return [(st, args[0])]
            if m in ('deref', 'deref_mut'):
                a = strip(args[0])
                v = strip(sim.read(st, a[1])) if a[0] == 'ref' else a
                if v[0] == 'ref' and v[1][0][0] == 'V' and v[1][0][1][0] == 'cell': return [(st, v)]
        return Cells.on_call(self, sim, st, cx, callee, args, site)
    def again(self, st, cx, site):
        if ('at', site) in st.rs and ('fresh',) not in st.rs: self.skipped.add((site, cx.fn.path, cx.loc))
        st.rs = tuple(x for x in st.rs if x not in (('fresh',), ('at', site))) + (('at', site),)


def method(p, adt, m, trait=None):
    r = [f for f in p.fns if f.method == m and f.selfadt and strip_ty(f.selfadt) == adt and f.kind != 'Closure' and not f.promoted and (f.trait or '').endswith(trait or '') and (trait or not f.trait)]
    if len(r) != 1: raise Missing(f'{adt}::{m}')
    return r[0]


ME = ('V', ('arg', 'self'))
def uniq(v): return ('agg', SH, 'Unique', (v,), ('0',))
def alia(v): return ('agg', SH, 'Aliased', (v,), ('0',))


def contracts(c):
    p = c.p
    c.rule('a shared variable keeps one cell: storing writes through to it, aliasing hands out that same cell, reading looks at it')
    def bad(f, what, msg): c.violation(f'{f.path.split("::")[-2] if "::" in f.path else ""}::{f.method}:{what}', msg, f.loc(), [f.path])
    G, X, NEW = ('thegc',), ('thevalue',), ('newvalue',)
    # set
    f = method(p, SH, 'set')
    for kind, v in (('Unique', uniq(X)), ('Aliased', alia(G))):
        rule = Contract15(p, ('set',))
        sim, ex = runfn(p, f, [('ref', (ME, ())), ('mc',), NEW], rule, store={(ME, ()): v}.items())
        if not ex: bad(f, kind, f'{f.path}: does not return for a variable that is {kind}')
        for s, _ in ex:
            c.count('primitive outcomes')
            now = strip(sim.read(s, (ME, ())))
            through = strip(sim.read(s, (('V', ('cell', G)), ())))
            if kind == 'Unique' and now != uniq(NEW): bad(f, kind, f'{f.path}: storing into an unshared variable does not leave the new value in it')
            if kind == 'Aliased' and (now != alia(G) or through != NEW): bad(f, kind, f'{f.path}: storing into a shared variable does not write to the cell it shares')
    # alias_inner / alias
    for m in ('alias_inner', 'alias'):
        f = method(p, SH, m)
        for kind, v in (('Unique', uniq(X)), ('Aliased', alia(G))):
            rule = Contract15(p, ('alias', 'alias_inner'))
            sim, ex = runfn(p, f, [('ref', (ME, ())), ('mc',)], rule, store={(ME, ()): v}.items())
            if not ex: bad(f, kind, f'{f.path}: does not return for a variable that is {kind}')
            for s, r in ex:
                c.count('primitive outcomes')
                now, r = strip(sim.read(s, (ME, ()))), strip(r)
                if now[0] != 'agg' or now[2] != 'Aliased': bad(f, kind, f'{f.path}: the variable does not become shared'); continue
                cell = strip(now[3][0])
                got = r if m == 'alias_inner' else strip(r[3][0]) if r[0] == 'agg' and r[2] == 'Aliased' else None
                if got != cell: bad(f, kind, f'{f.path}: the alias handed out is not the variable\'s own cell')
                if kind == 'Aliased' and cell != G: bad(f, kind, f'{f.path}: a variable that is already shared is moved to a new cell')
                if kind == 'Unique' and not (cell[0] == 'gcnew' and strip(cell[2]) == X): bad(f, kind, f'{f.path}: the new cell does not hold the variable\'s value')
    # get: looks at the variable's own storage
    f = method(p, SH, 'get')
    for kind, v in (('Unique', uniq(X)), ('Aliased', alia(G))):
        rule = Contract15(p, ('get',))
        sim, ex = runfn(p, f, [('ref', (ME, ()))], rule, store={(ME, ()): v}.items())
        for s, r in ex:
            c.count('primitive outcomes')
            r = strip(r)
            x = strip(r[3][0]) if r[0] == 'agg' and r[3] else r
            want = X if kind == 'Unique' else None
            here = strip(sim.read(s, x[1])) if x[0] == 'ref' else x
            if kind == 'Unique' and here != X or kind == 'Aliased' and not (x == ('ref', (('V', ('cell', G)), ()))): bad(f, kind, f'{f.path}: reading does not look at the variable\'s own storage')
        if not ex: bad(f, kind, f'{f.path}: does not return for a variable that is {kind}')
    # a plain value becomes a fresh variable
    fs = [f for f in p.fns if f.method == 'from' and f.selfadt and strip_ty(f.selfadt) == SH and (f.trait or '').endswith('From') and not f.promoted]
    for f in fs:
        sim, ex = runfn(p, f, [X], Contract15(p, ()))
        for s, r in ex:
            c.count('primitive outcomes')
            if strip(r) != uniq(X): bad(f, 'from', f'{f.path}: a value does not become a fresh unshared variable')
    # symbol tables
    c.rule('defining a variable replaces the cell under that name, never the contents of the old cell; copying a table copies the contents of every variable into fresh ones; lookups search the innermost scope first')
    f = method(p, TAB, 'define_or_redefine')
    KEY, VAL = ('thekey',), ('newcell',)
    rule = Contract15(p, ('define_or_redefine',))
    lvs = [('ref', (ME, ())), KEY, VAL]
    sim, ex = runfn(p, f, lvs, rule)
    c.count('primitive outcomes', len(ex))
    ins = rule.ev['insert']
    if not any(x[0] == VAL for x in ins) and not rule.ev['write'] or any(x[0] != VAL for x in ins) or rule.ev['set'] or not ex:
        bad(f, 'replace', f'{f.path}: does not put the given cell under the given name')
    for x, k in ins:
        if not mentions(k, lambda y: y == KEY): bad(f, 'key', f'{f.path}: the cell is stored under another name')
    for s, _ in ex:
        for lv, v in s.store.items():
            if lv[0][0] == 'V' and lv[0][1][0] in ('contents', 'cell'): bad(f, 'through', f'{f.path}: redefining a variable changes the contents of the old cell')
    for m in ('lookup', 'lookup_mut'):
        f = method(p, TAB, m)
        rule = Contract15(p, ('lookup', 'lookup_mut'))
        sim, ex = runfn(p, f, [('ref', (ME, ())), KEY], rule)
        kinds = set()
        for s, r in ex:
            c.count('primitive outcomes')
            r = strip(r)
            if r[0] != 'agg' or r[2] not in ('Some', 'None'): bad(f, 'result', f'{f.path}: the result is not a plain lookup'); continue
            kinds.add(r[2])
            if r[2] == 'Some':
                x = rule.var_of(sim, s, r[3][0])
                if x is None or not mentions(x[2], lambda y: y == KEY): bad(f, 'result', f'{f.path}: reports another variable than the one named')
        if kinds != {'Some', 'None'}: bad(f, 'result', f'{f.path}: never finds or never misses')
    f = method(p, TAB, 'clone', 'clone::Clone')
    rule = Contract15(p, ('clone',))
    sim, ex = runfn(p, f, [('ref', (ME, ()))], rule)
    defs = rule.ev['define'] | {(('insert',), k, v, 0) for v, k in rule.ev['insert']}
    if not ex or not defs: bad(f, 'copy', f'{f.path}: no variable is copied')
    for tab, key, v, _ in defs:
        c.count('copied variables')
        if v[0] != 'fresh': bad(f, 'copy', f'{f.path}: a copied table shares variables with the original')
        else:
            x = strip(v[1])
            x = x[1][0][1] if x[0] == 'init' and x[1][0][0] == 'V' else x
            if x[0] != 'contents': bad(f, 'copy', f'{f.path}: a copied variable does not start with the original\'s value')
            elif not mentions(key, lambda y: y == x[1][2]): bad(f, 'names', f'{f.path}: a copied variable is stored under another name')
    for site, fn, loc in rule.skipped: bad(f, 'skips', f'{f.path}: some variables are not copied')
    for s, r in ex:
        r = strip(r)
        if not (r[0] == 'table' or r[0] == 'agg' and r[1] == TAB): bad(f, 'result', f'{f.path}: the table reported is not the one filled')
    for w in rule.ev['write'] | rule.ev['alias']: bad(f, 'effect', f'{f.path}: copying a table changes the original')
    # lookups through scopes
    out = {}
    for m in ('lookup', 'lookup_mut'):
        f = method(p, GRP, m)
        fs = [f] + [g for g in p.closures_of(f) if g.id != f.id]
        names = [cl.method for g in fs for bi, cl in g.callees.items() if bi in g.reachable and not g.blocks[bi].cleanup]
        back = sum(n in ('rev', 'next_back', 'rfind', 'rfold') for n in names) % 2
        class Hit(Contract15):
            def on_call(self, sim, st, cx, callee, args, site):
                if is_of(callee, TAB, 'lookup', 'lookup_mut'):
                    if ('hit',) in st.rs: self.note('late', site)
                    x = ('var', TOP, self.key(sim, st, args[1]), site)
                    r = self.found(sim, st, x)
                    r[0][0].rs = tuple(set(r[0][0].rs) | {('hit',)})
                    return r
                return Contract15.on_call(self, sim, st, cx, callee, args, site)
        rule = Hit(p, ('lookup', 'lookup_mut'))
        rule.paired = True
        sim, ex = runfn(p, f, [('ref', (ME, ())), KEY], rule)
        if rule.ev['late']: bad(f, 'late', f'{f.path}: goes on searching after a variable was found')
        n = 0
        for s, r in ex:
            c.count('primitive outcomes')
            r = strip(r)
            hit = ('hit',) in s.rs
            if r[0] == 'agg' and r[2] == 'Some':
                x = rule.var_of(sim, s, r[3][0]); n += 1
                if x is None or not mentions(x[2], lambda y: y == KEY): bad(f, 'result', f'{f.path}: reports another variable than the one named')
            elif hit: bad(f, 'lost', f'{f.path}: a variable that was found is not reported')
        if not n: bad(f, 'never', f'{f.path}: never finds a variable')
        out[m] = back
    return out


def check(c):
    p = c.p
    loc = p03.rule_src(p)
    back = contracts(c)
    frames = 'process::CallFrame'
    locf = {n for n, t in p.fields(frames) if table_ty(t)}
    entf = {n for n, t in p.fields('runtime::Entity') if table_ty(t)}
    glob = {n for n, t in p.fields('runtime::GlobalContext') if table_ty(t)}
    capf = {n for n, t in p.fields('runtime::Closure') if table_ty(t)}
    if not (len(locf) == len(entf) == len(glob) == len(capf) == 1): raise Missing('the symbol tables of frames, entities, closures and the project')
    locf, entf, glob, capf = (next(iter(x)) for x in (locf, entf, glob, capf))

    def kind(t):
        """Which scope a table belongs to."""
        if t[0] == 'at':
            fr, path = t[1]
            if path and path[-1] == locf and fr == ('frame', 1): return 'locals'
            if path and path[-1] == locf and fr == ('frame', 2): return 'parent'
            if path and path[-1] == entf: return 'fields'
            if path and path[-1] == glob: return 'globals'
            if path and path[-1] == capf: return 'captures'
        if t[0] == 'table': return 'new'
        return None
    ORDER = ['globals', 'fields', 'locals']

    c.rule('instructions name variables through the scopes (locals, then the sprite\'s, then the project\'s); declaring makes a fresh variable, rings and upvars get the captured one itself, assigning stores into the variable found')
    for v in p.variants(INS):
        rule = Step15(p, v)
        c.count('instruction variants')
        impl = entry_of(p, c)[1]
        sim = Sim(p, rule, 400000); sim.argdepth = 12
        st, args = rule.start(sim, impl)
        ex = sim.run(impl, args, st)
        def bad(what, msg): c.violation(f'{v}:{what}', f'instruction {v}: {msg}', loc)
        E = rule.ev
        if E['bypass']: bad('bypass', 'replaces the cell of a variable directly')
        if E['write']: bad('write', 'changes a variable other than by storing into it')
        for m, x in E['lookup']:
            c.count('lookups')
            t = x[1]
            if t[0] == 'group':
                ks = [kind(y) for y in t[1]]
                if ks != (ORDER if back[m] else ORDER[::-1]): bad('scopes', f'searches the scopes {ks} in the wrong order')
            elif not (v == 'InitUpvar' and kind(t) == 'parent'): bad('scopes', f'looks a variable up in one scope only ({kind(t)})')
        for x in E['set']:
            c.count('stores')
            if v not in SETS: bad('set', 'stores into an existing variable')
            elif x[0][0] != 'var' or x[0][1][0] != 'group' or not mentions(x[0][2], lambda y: y == ('op', 'var')): bad('set', 'stores into another variable than the one named')
        if v in SETS and not E['set']: bad('set', 'never stores into the variable')
        if E['alias'] and v not in ALIASES: bad('alias', 'shares a variable')
        if v in ALIASES and not E['alias']: bad('alias', 'no longer shares the variable')
        tabs = {d[0] for d in E['define']}
        if E['define'] and v not in DEFINES: bad('define', 'defines a variable')
        if v in DEFINES and not E['define']: bad('define', 'no longer defines a variable')
        want = DEFINES.get(v)
        seen = set()
        for tab, key, val, site in E['define']:
            c.count('definitions')
            k = kind(tab) or ('new' if tab[0] == 'hav' else None)
            seen.add(val[0])
            if val[0] == 'foreign': bad('foreign', 'defines a variable with a cell that is neither fresh nor an alias')
            elif val[0] == 'fresh' and want == 'alias': bad('unshared', 'gives the ring or upvar a copy of the variable instead of the variable')
            elif val[0] == 'fresh' and want == 'both' and (mentions(key, lambda y: len(y) == 2 and y[0] == 'key') or mentions(val, lambda y: y[0] in ('var', 'shref', 'contents', 'cellof'))): bad('copied', 'the ring runs with a copy of a variable it captured')
            elif val[0] == 'alias':
                x = val[1]
                if want == 'fresh' or x is None: bad('shared', 'a fresh variable shares an existing one')
                elif v == 'MakeClosure':
                    if x[1][0] != 'group' or x[2] != key: bad('captured', 'the ring captures another variable than the one named')
                elif v == 'InitUpvar':
                    if kind(x[1]) != 'parent' or not mentions(x[2], lambda y: y[:1] == ('contents',) or y[:2] == ('asval', 'as_text')): bad('upvar', 'the upvar is not the caller\'s variable of that name')
                elif x[1][0] not in ('at',) or kind(x[1]) != 'captures' or not mentions(key, lambda y: y == x[2]): bad('captured', 'the ring runs with another variable than the one it captured')
            if v in ('DeclareLocal', 'InitUpvar'):
                if k != 'locals': bad('where', 'the variable is not declared in the running block\'s scope')
                if not mentions(key, lambda y: y == ('op', 'var')): bad('name', 'declares another name')
            elif k != 'new': bad('where', 'the variable is defined in an existing scope')
        if want == 'both' and seen != {'fresh', 'alias'}: bad('both', 'parameters must be fresh and captured variables shared')
        for site, fn, l in rule.skipped:
            if v in DEFINES and v not in ('DeclareLocal', 'InitUpvar'): bad('skips', 'some variables of the loop are not defined')
        used = set()
        if v in ('Call', 'CallClosure'): used = rule.frames
        if v == 'ForkClosure': used = {y for s, r in ex for y in subvalues(r) if y and y[0] in ('table', 'tabclone')}
        if v == 'MakeClosure': used = {y for t in rule.closures for y in t}
        if v in ('Call', 'CallClosure', 'ForkClosure', 'MakeClosure'):
            c.count('scopes handed on', len(used))
            if not used: bad('dropped', 'the scope it filled is not the one that is used')
            for u in used:
                if u not in tabs: bad('dropped', 'the scope it filled is not the one that is used')
        if v == 'Clone':
            if not rule.entities: raise Missing('the entity made by the clone instruction')
            for e in rule.entities:
                c.count('cloned sprites')
                if not (len(e) == 1 and e[0][0] == 'tabclone' and e[0][1][0] == 'at' and e[0][1][1][1] == (entf,) and target(e[0][1][1][0])): bad('copy', 'the clone\'s variables are not a copy of the cloned sprite\'s')
    outside(c)
    c.floor('primitive outcomes', 16); c.floor('copied variables', 1); c.floor('lookups', 6); c.floor('stores', 2); c.floor('definitions', 8)
    c.floor('scopes handed on', 4); c.floor('cloned sprites', 1); c.floor('instruction variants', 90)
    c.assume('the hash-free ordered map keeps one entry per name (P30)')


def target(base):
    """The place is the entity operand of the instruction itself."""
    x = base[1] if base[0] == 'V' else base
    for _ in range(6):
        if x[0] in ('deref', 'as'): x = strip(x[1]); continue
        if x[0] == 'call' and len(x) > 3 and len(x[3]) == 1: x = strip(x[3][0]); continue
        break
    return x[0] == 'asval' and x[1] == 'as_entity' and strip(x[2])[0] == 'in'


def kept_local(f, dest):
    """The copy is only looked at: it never leaves the function, by return, by store or by handing it on."""
    if len(dest) != 1 or dest[0] == 0: return False
    mine, grew = {dest[0]}, True
    def uses(o): return o[0] in ('m', 'y') and o[1] and o[1][0] in mine
    blocks = [f.blocks[bi] for bi in f.reachable if not f.blocks[bi].cleanup]
    while grew:
        grew = False
        for b in blocks:
            for s in b.stmts:
                if s[0] != '=': continue
                d, rv = s[1], s[2]
                if rv[0] == 'ref' and rv[2] and rv[2][0] in mine and rv[1] != 'shr': return False
                ops = [rv[1]] if rv[0] in ('use', 'repeat') else [rv[2]] if rv[0] == 'cast' else rv[2] if rv[0] == 'agg' else []
                if not any(uses(o) for o in ops) or TAB + '<' not in f.locals[d[0]]: continue
                if d[0] == 0 or '*' in d[1:]: return False
                if d[0] not in mine: mine.add(d[0]); grew = True
    return not any(b.term[0] == 'call' and any(o[0] == 'm' and o[1] and o[1][0] in mine for o in b.term[2]) and (f.callees.get(bi) is None or f.callees[bi].rpath != 'core::mem::drop')
                   for bi, b in ((bi, f.blocks[bi]) for bi in f.reachable) if not b.cleanup)


def outside(c):
    """The rest of the crate: no other way to share or unshare a variable."""
    p = c.p
    stepid = entry_of(p, c)[1].id
    steps = {f.id for f in p.fns if f.file.endswith('process.rs') and (f.id == stepid or f.id.startswith(stepid))} | {i for i in p.reach([stepid])}
    c.rule('outside the primitives no code makes an alias of a variable; outside the clone instruction no code copies a table of variables (but to look at it); every other definition makes a fresh variable')
    for f in p.fns:
        if f.derived or f.promoted: continue
        own = f.selfadt and strip_ty(f.selfadt) == SH or f.path.startswith(SH + '::')
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('k') == 'adt' and strip_ty(s[2][1]['adt']) == SH and s[2][1].get('v') == 'Aliased':
                    c.count('aliases built')
                    if not own and not (f.id in steps): c.violation(f'{f.path}:alias', f'{f.path} builds an alias of a variable', f.loc(s[3]), [f.path])
            cl = f.callees.get(bi)
            if cl is None or b.term[0] != 'call': continue
            t = b.term
            if is_of(cl, SH, 'alias', 'alias_inner') and not own and f.id not in steps:
                c.violation(f'{f.path}:shares', f'{f.path} shares a variable', f.loc(t[-1]), [f.path])
            if cl.method in ('replace', 'swap', 'take', 'replace_with') and shared_args(cl) and not own:
                c.violation(f'{f.path}:bypass', f'{f.path} replaces the cell of a variable directly', f.loc(t[-1]), [f.path])
            if cl.method in ('clone', 'to_owned', 'clone_from') and any(table_ty(a) for a in cl.args[:1]):
                c.count('table copies')
                if f.id != stepid and f.id not in steps and not kept_local(f, t[3]): c.violation(f'{f.path}:copies', f'{f.path} copies a table of variables', f.loc(t[-1]), [f.path])
            if is_of(cl, TAB, 'define_or_redefine') and f.id not in steps and not (f.trait or '').endswith('Clone'):
                c.count('definitions outside the instructions')
                if not fresh(p, f, t[2][2]): c.violation(f'{f.path}:defines', f'{f.path} defines a variable that is not fresh', f.loc(t[-1]), [f.path])
    c.floor('definitions outside the instructions', 4)
    scopes(c, steps)


def sources(f, l, seen=None):
    """Definitions a local's value comes from, moves followed."""
    seen = set() if seen is None else seen
    if l in seen: return []
    seen.add(l)
    if 0 < l <= f.nargs: return [('param', l, 0)]
    out = []
    for bi in f.reachable:
        b = f.blocks[bi]
        if b.cleanup: continue
        for s in b.stmts:
            if s[0] == '=' and s[1] == [l]:
                r = s[2]
                if r[0] == 'use' and r[1][0] in 'my' and len(r[1][1]) == 1: out += sources(f, r[1][1][0], seen)
                elif r[0] == 'use' and r[1][0] in 'my': out.append(('place', r[1][1], bi))
                else: out.append(('stmt', r, bi))
        if b.term[0] == 'call' and b.term[3] == [l]: out.append(('call', b.term, bi))
    return out


def fresh(p, f, op):
    if op[0] not in 'my' or len(op[1]) != 1: return False
    ss = sources(f, op[1][0])
    for k, x, bi in ss:
        if k == 'stmt' and x[0] == 'agg' and x[1].get('v') == 'Unique': continue
        if k == 'call' and f.callees.get(bi) is not None and f.callees[bi].method in ('into', 'from') and any('runtime::Value' in a and not strip_ty(a) == SH for a in f.callees[bi].args): continue
        return False
    return bool(ss)


def scopes(c, steps):
    """Scopes travel whole: every structure holding one gets a fresh table or the table it was handed."""
    p = c.p
    c.rule('a process starts with the scope it is handed: structures carrying a scope get a fresh table or the one they were given, and the scope of a forked ring reaches the process that runs it')
    holders = {a for a in p.adts for v in p.adts[a]['vs'] for n, t, _ in v[2] if table_ty(t)}
    fork = 0
    for f in p.fns:
        if f.derived or f.promoted or f.id in steps and f.file.endswith('process.rs') and 'step_impl' in f.path: continue
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            for s in b.stmts:
                if not (s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('k') == 'adt' and strip_ty(s[2][1]['adt']) in holders): continue
                adt, var = strip_ty(s[2][1]['adt']), s[2][1].get('v')
                tys = dict(p.fields(adt, var) if p.adts[adt]['kind'] == 'enum' else p.fields(adt))
                for n, o in zip(s[2][1]['fs'], s[2][2]):
                    if not table_ty(tys.get(n, '')): continue
                    c.count('scopes passed on')
                    if o[0] not in 'my': continue
                    src = sources(f, o[1][0]) if len(o[1]) == 1 else [('place', o[1], bi)]
                    for k, x, b2 in src:
                        if k == 'place':
                            if any(isinstance(e, list) and e[0] == 'v' and e[1] == 'Fork' for e in x): fork += 1
                            continue
                        if k == 'param': continue
                        if k == 'call':
                            cl = f.callees.get(b2)
                            if cl is not None and cl.method in ('default', 'new') and not x[2]: continue
                            if cl is not None and cl.local: continue
                        c.violation(f'{f.path}:{adt.rsplit("::", 1)[-1]}', f'{f.path} does not pass on the scope it is given', f.loc(s[3]), [f.path])
    if not fork: c.violation('fork:scope', 'the scope of a forked ring does not reach the process that runs it', p03.rule_src(p))
    c.floor('scopes passed on', 6)

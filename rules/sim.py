"""Path-sensitive abstract interpretation over the dumped MIR (property simulation, ESP style).

Abstract states are (access-path store restricted to live locals, variant facts, rule state).  Values
are access paths, constants, aggregates and site-named opaque results, so the state space is finite
and every function is explored to a fixpoint: loops are followed until no new abstract state appears,
every CFG path is covered, and there is no constraint solver -- branches are only pruned when the
tested discriminant / constant was already fixed on the path.  Callees in the crate (helpers,
closures, combinator arguments) are inlined, so splitting code into helpers does not change verdicts.
"""
from mir import strip_ty, ty_args, Callee

MAXDEPTH = 9


class Budget(Exception):
    pass


UNIT = ('c', '()')
TRUE, FALSE = ('c', 'b', True), ('c', 'b', False)
TOP = ('top',)

OPT, RES, CF = 'core::option::Option', 'core::result::Result', 'core::ops::ControlFlow'


def some(v): return ('agg', OPT, 'Some', (v,), ('0',))
NONE = ('agg', OPT, 'None', (), ())
def ok(v): return ('agg', RES, 'Ok', (v,), ('0',))
def err(v): return ('agg', RES, 'Err', (v,), ('0',))
def is_const(v): return v[0] == 'c'


_depth = {}
def depth(v):
    if not isinstance(v, tuple): return 0
    r = _depth.get(v)
    if r is None:
        r = 1 + max((depth(x) for x in v if isinstance(x, tuple)), default=0)
        if len(_depth) > 500000: _depth.clear()
        _depth[v] = r
    return r


_subs = {}
def subvalues(v):
    """All tuples nested in v, v included."""
    r = _subs.get(v)
    if r is None:
        s = {v}
        for x in v:
            if isinstance(x, tuple): s |= subvalues(x)
        r = frozenset(s)
        if len(_subs) > 300000: _subs.clear()
        _subs[v] = r
    return r


def mentions(v, pred):
    if not v: return False
    if pred(v): return True
    return any(isinstance(x, tuple) and mentions(x, pred) for x in v)


def strip(v):
    """Looks through clones and copies."""
    while v[0] in ('clone', 'conv') and len(v) > 1: v = v[1]
    return v


class St:
    __slots__ = ('store', 'facts', 'rs')

    def __init__(self, store, facts, rs):
        self.store, self.facts, self.rs = store, facts, rs

    def copy(self): return St(dict(self.store), dict(self.facts), self.rs)

    def key(self): return (frozenset(self.store.items()), frozenset(self.facts.items()), self.rs)


class Ctx:
    __slots__ = ('fn', 'frame', 'block', 'sp', 'stack')

    def __init__(self, fn, frame, block, sp, stack): self.fn, self.frame, self.block, self.sp, self.stack = fn, frame, block, sp, stack

    @property
    def loc(self): return self.fn.loc(self.sp)


class Rule:
    """Override what the property needs."""
    init_rs = ()
    mark = None        # predicate: values whose flow through opaque calls is remembered
    keep = False       # facts about values recorded in the rule state are never forgotten
    narrow = None      # at joins: reduces a state to what the rule follows
    def on_call(self, sim, st, cx, callee, args, site): return None
    def on_write(self, sim, st, cx, lv, val): pass
    def on_drop(self, sim, st, cx, lv, ty): pass
    def on_read(self, sim, st, cx, lv): pass
    def on_assert(self, sim, st, cx, kind): pass
    def on_agg(self, sim, st, cx, val): pass
    def on_branch(self, sim, st, cx, v, choice): pass
    def inline(self, sim, fn): return False
    def on_enter(self, sim, st, cx, fn, args): pass
    def on_exit(self, sim, st, cx, fn, ret): pass


class Sim:
    argdepth = 6
    def __init__(self, prog, rule, max_states=60000, max_depth=14):
        self.prog, self.rule = prog, rule
        self.frames = {}
        self.max_states, self.max_depth = max_states, max_depth
        self.nstates = 0
        self.visited_fns = set()
        self.visited_blocks = set()

    # ------------------------------------------------------------ places & values
    def frame_id(self, key):
        return self.frames.setdefault(key, len(self.frames))

    def lv(self, st, frame, place):
        base, projs = ('L', frame, place[0]), []
        for e in place[1:]:
            if e == '*':
                v = self.read(st, (base, tuple(projs)))
                base, projs = self.deref(v)
                projs = list(projs)
            elif e == '?': continue
            elif e[0] == 'f': projs.append(('f', e[2]))
            elif e[0] == 'v': projs.append(('v', e[1]))
            elif e[0] == 'i': projs.append(('i', self.read(st, (('L', frame, e[1]), ()))))
            elif e[0] == 'ci': projs.append(('i', ('c', 'i', str(e[1]) if not e[3] else f'-{e[1]}')))
            else: projs.append(tuple(e))
        return (base, tuple(projs))

    def deref(self, v):
        v = strip(v)
        if v[0] == 'ref': return v[1]
        return (('V', v), ())

    def project(self, v, pr):
        if v[0] == 'agg':
            if pr[0] == 'v': return v
            if pr[0] == 'f':
                if pr[1] in v[4]: return v[3][v[4].index(pr[1])]
            if pr[0] == 'i' and pr[1][0] == 'c' and len(pr[1]) > 2 and pr[1][1] == 'i':
                i = int(pr[1][2])
                if -len(v[3]) <= i < len(v[3]): return v[3][i]
            return ('p', v, pr)
        if v[0] == 'clo':
            if pr[0] == 'f' and pr[1] in v[3]: return v[2][v[3].index(pr[1])]
        if v[0] == 'clone': return ('clone', self.project(v[1], pr))
        if v[0] == 'init': return ('init', (v[1][0], v[1][1] + (pr,)))
        if v[0] == 'top': return TOP
        return self.cap(('p', v, pr))

    def cap(self, v):
        return TOP if depth(v) > MAXDEPTH * 2 else v

    def read(self, st, lv):
        s = st.store
        if lv in s: return s[lv]
        base, projs = lv
        for n in range(len(projs) - 1, -1, -1):
            p = (base, projs[:n])
            if p in s:
                v = s[p]
                for pr in projs[n:]: v = self.project(v, pr)
                return v
        if base[0] == 'V':
            b = base[1]
            if b[0] == 'pure':   # contents behind a by-value wrapper
                v = b[1]
                for pr in projs: v = self.project(v, pr)
                return v
            if b[0] == 'top': return TOP
        return self.cap(('init', lv))

    def write(self, st, lv, v):
        s = st.store
        base, projs = lv
        n = len(projs)
        for k in [k for k in s if k[0] == base and len(k[1]) > n and k[1][:n] == projs]: del s[k]
        # structural update of an aggregate prefix
        for m in range(n - 1, -1, -1):
            p = (base, projs[:m])
            if p in s:
                nv = self.update(s[p], projs[m:], v)
                if nv is not None:
                    s[p] = nv
                    return
                break
        s[lv] = v

    def update(self, agg, projs, v):
        if not projs: return v
        pr = projs[0]
        if agg[0] in ('agg',) and pr[0] == 'v': return self.update(agg, projs[1:], v)
        if agg[0] == 'agg' and pr[0] == 'f' and pr[1] in agg[4]:
            i = agg[4].index(pr[1])
            nv = self.update(agg[3][i], projs[1:], v)
            if nv is None: return None
            return ('agg', agg[1], agg[2], agg[3][:i] + (nv,) + agg[3][i + 1:], agg[4])
        return None

    def havoc(self, st, lv, site):
        base, projs = lv
        n = len(projs)
        for k in [k for k in st.store if k[0] == base and k[1][:n] == projs]: del st.store[k]
        for m in range(n - 1, -1, -1):
            p = (base, projs[:m])
            if p in st.store:
                nv = self.update(st.store[p], projs[m:], ('hav', site))
                if nv is not None: st.store[p] = nv; return
        st.store[lv] = ('hav', site)

    def fresh(self, st, v):
        """v names a new object: forget everything known about earlier objects of that name."""
        for k in [k for k in st.facts if v in subvalues(k)]: del st.facts[k]
        for k in [k for k in st.store if k[0][0] == 'V' and v in subvalues(k[0][1])]: del st.store[k]
        return v

    def operand(self, st, cx, o):
        if o[0] in 'ym':
            lv = self.lv(st, cx.frame, o[1])
            if len(o[1]) > 1: self.rule.on_read(self, st, cx, lv)
            return self.read(st, lv)
        return self.constant(o[1])

    def constant(self, c):
        if 'fn' in c:
            cl = Callee(c['fn'])
            return ('fn', cl.rpath, cl.local or '')
        if 'clo' in c: return ('clo', c['clo'], (), ())
        if 'pr' in c and 'prf' in c:
            f = self.prog.by_id.get(f"{c['prf']}::promoted[{c['pr']}]")
            if f is not None:
                v = self.promoted(f)
                if v is not None: return v
        if 'def' in c and 'b' not in c: return ('c', 'def', c['def'])
        if 'b' in c: return ('c', 'b', c['b'])
        if 'i' in c: return ('c', 'i', c['i'], c.get('ty', ''))
        if 's' in c: return ('c', 's', c['s'])
        if 'f' in c: return ('c', 'f', c['f'])
        t = c.get('txt', '')
        if t in ('()', 'const ()'): return UNIT
        return ('c', 'txt', t)

    def promoted(self, f):
        """Value of a promoted constant: a straight-line body."""
        cache = self.__dict__.setdefault('_prom', {})
        if f.id in cache: return cache[f.id]
        cache[f.id] = None
        st = St({}, {}, ())
        fr = self.frame_id(('promoted', f.id))
        cx = Ctx(f, fr, 0, f.line, ())
        b = 0
        saved = self.rule
        self.rule = Rule()
        try:
            for _ in range(20):
                blk = f.blocks[b]
                for s in blk.stmts:
                    if s[0] == '=': self.write(st, self.lv(st, fr, s[1]), self.rvalue(st, cx, s[2]))
                if blk.term[0] == 'return': break
                if blk.term[0] in ('goto',): b = blk.term[1]
                elif blk.term[0] == 'call' and blk.term[4] is not None:
                    args = tuple(self.operand(st, cx, a) for a in blk.term[2])
                    self.write(st, self.lv(st, fr, blk.term[3]), ('call', f.callees[b].rpath if b in f.callees else '?', (f.id, b), args))
                    b = blk.term[4]
                elif blk.term[0] == 'assert': b = blk.term[4]
                else: return None
        finally:
            self.rule = saved
        v = self.read(st, (('L', fr, 0), ()))
        # make the value self-contained: &agg
        def close(v, d=0):
            if d > 8: return TOP
            if v[0] == 'ref':
                return ('ref', (('V', ('pure', close(self.read(st, v[1]), d + 1))), ()))
            if v[0] == 'agg': return v[:3] + (tuple(close(x, d + 1) for x in v[3]), v[4])
            return v
        v = close(v)
        cache[f.id] = v
        return v

    def rvalue(self, st, cx, r):
        k = r[0]
        if k == 'use': return self.operand(st, cx, r[1])
        if k == 'ref':
            lv = self.lv(st, cx.frame, r[2])
            # a reborrow of a pure deref keeps the pointer value
            return ('ref', lv)
        if k == 'discr':
            lv = self.lv(st, cx.frame, r[1])
            v = self.read(st, lv)
            self.rule.on_read(self, st, cx, lv)
            return ('discr', v, strip_ty(r[2]))
        if k == 'agg':
            ops = tuple(self.operand(st, cx, o) for o in r[2])
            a = r[1]
            if a['k'] == 'adt':
                v = ('agg', norm_adt(strip_ty(a['adt'])), a['v'], ops, tuple(a['fs']))
                self.rule.on_agg(self, st, cx, v)
                return v if depth(v) <= MAXDEPTH * 2 else ('agg', v[1], v[2], tuple(TOP for _ in ops), v[4])
            if a['k'] in ('closure', 'coroutine'):
                f = self.prog.by_id.get(a['id'])
                return ('clo', a['id'], ops, self.capture_names(f, len(ops)))
            return ('agg', '()' if a['k'] == 'tuple' else '[]', '', ops, tuple(str(i) for i in range(len(ops))))
        if k == 'cast':
            v = self.operand(st, cx, r[2])
            if r[1] in ('PointerCoercion', 'PtrToPtr', 'Transmute'): return v
            return self.cap(('cast', v, r[3], r[4]))
        if k == 'bin':
            a, b = self.operand(st, cx, r[2]), self.operand(st, cx, r[3])
            op = r[1]
            fold = fold_bin(op, a, b)
            if fold is not None: return fold
            v = self.cap(('bin', op, a, b))
            if op.endswith('WithOverflow'): return ('agg', '()', '', (self.cap(('bin', op[:-12], a, b)), ('ovf', site_of(cx))), ('0', '1'))
            return v
        if k == 'un':
            a = self.operand(st, cx, r[2])
            if r[1] == 'Not' and a[0] == 'c' and a[1] == 'b': return ('c', 'b', not a[2])
            if r[1] == 'PtrMetadata': return ('len', a)
            return self.cap(('un', r[1], a))
        if k == 'repeat': return ('repeat', self.operand(st, cx, r[1]))
        return TOP

    def capture_names(self, f, n):
        """Field names as closure bodies see them (by projection names inside the body)."""
        if f is None: return tuple(str(i) for i in range(n))
        names = self.prog.__dict__.setdefault('_capnames', {})
        if f.id not in names:
            d = {}
            def scan(x):
                if isinstance(x, list):
                    if len(x) == 4 and x[0] == 'f' and x[3] == '{closure}': d[x[1]] = x[2]
                    for y in x: scan(y)
            scan(f.j['blocks']); scan(f.j['names'])
            names[f.id] = d
        d = names[f.id]
        return tuple(d.get(i, str(i)) for i in range(n))

    # ------------------------------------------------------------ branching
    def variants(self, st, v, adt):
        """Yields (state, variant) for every variant v may have; facts are recorded."""
        v = strip(v)
        if v[0] == 'agg' and v[2]:
            yield st, v[2]
            return
        f = st.facts.get(v)
        if f and f[0] == 'is':
            yield st, f[1]
            return
        vs = self.prog.variants(adt) or {OPT: ['None', 'Some'], RES: ['Ok', 'Err'], CF: ['Continue', 'Break']}.get(adt, [])
        no = f[1] if f else ()
        for x in vs:
            if x in no: continue
            s = st.copy()
            s.facts[v] = ('is', x)
            yield s, x

    def assume(self, st, v, val):
        """Constrain boolean v; returns False if contradictory."""
        while v[0] == 'un' and v[1] == 'Not': v, val = v[2], not val
        if v[0] == 'c' and v[1] == 'b': return v[2] == val
        if v[0] == 'eqv':   # discriminant test
            cur = st.facts.get(v[1])
            return True
        k = ('sw', v)
        f = st.facts.get(k)
        want = '1' if val else '0'
        if f:
            if f[0] == 'is': return f[1] == want
            if want in f[1]: return False
        st.facts[k] = ('is', want)
        return True

    def switch(self, st, cx, v, ty, targets, other):
        """Yields (state, target)."""
        if v[0] == 'c' and v[1] in ('b', 'i'):
            val = ('1' if v[2] else '0') if v[1] == 'b' else v[2]
            for t, b in targets:
                if t == val: yield st, b; return
            yield st, other
            return
        neg = False
        while v[0] == 'un' and v[1] == 'Not' and ty == 'bool':
            v, neg = v[2], not neg
        if v[0] == 'c' and v[1] == 'b':
            val = '1' if (v[2] != neg) else '0'
            for t, b in targets:
                if t == val: yield st, b; return
            yield st, other
            return
        if v[0] == 'discr':
            adt, x = v[2], strip(v[1])
            if x[0] == 'agg' and x[2]:
                for t, b in targets:
                    if self.prog.variant_of(adt, t) == x[2]: yield st, b; return
                yield st, other
                return
            f = st.facts.get(x)
            names = [(self.prog.variant_of(adt, t) or t, b) for t, b in targets]
            if f and f[0] == 'is':
                for n, b in names:
                    if n == f[1]: yield st, b; return
                yield st, other
                return
            no = set(f[1]) if f else set()
            for n, b in names:
                if n in no: continue
                s = st.copy()
                s.facts[x] = ('is', n)
                self.rule.on_branch(self, s, cx, x, n)
                yield s, b
            allv = self.prog.variants(adt)
            if other is not None and not (allv and set(allv) <= no | {n for n, _ in names}):
                if cx.fn.blocks[other].term[0] == 'unreachable' and not cx.fn.blocks[other].stmts: return
                s = st.copy()
                ns = no | {n for n, _ in names}
                rest = [a for a in allv if a not in ns] if allv else None
                s.facts[x] = ('is', rest[0]) if rest and len(rest) == 1 else ('not', frozenset(ns))
                self.rule.on_branch(self, s, cx, x, s.facts[x])
                yield s, other
            return
        k = ('sw', v)
        f = st.facts.get(k)
        flip = lambda t: ('0' if t == '1' else '1') if neg else t
        seen = []
        for t, b in targets:
            t = flip(t)
            seen.append(t)
            if f and f[0] == 'is' and f[1] != t: continue
            if f and f[0] == 'not' and t in f[1]: continue
            s = st.copy()
            s.facts[k] = ('is', t)
            self.rule.on_branch(self, s, cx, v, t)
            yield s, b
        if f and f[0] == 'is' and f[1] in seen: return
        s = st.copy()
        if ty == 'bool' and len(seen) == 1: s.facts[k] = ('is', '0' if seen[0] == '1' else '1')
        elif not (f and f[0] == 'is'): s.facts[k] = ('not', frozenset(seen) | (f[1] if f else frozenset()))
        self.rule.on_branch(self, s, cx, v, s.facts[k])
        yield s, other

    # ------------------------------------------------------------ running
    def run(self, fn, args, st=None, stack=(), frame=None):
        """Explores fn to a fixpoint; returns the list of (state, return value) at its returns."""
        top = st is None
        if st is None: st = St({}, {}, self.rule.init_rs)
        else: st = st.copy()
        if frame is None: frame = self.frame_id((tuple(c for c in stack), fn.id))
        stack = stack + (fn.id,)
        # clear any earlier activation of this frame
        for k in [k for k in st.store if k[0][0] == 'L' and k[0][1] == frame]: del st.store[k]
        for i, a in enumerate(args): st.store[(('L', frame, i + 1), ())] = a
        self.visited_fns.add(fn.id)
        self.rule.on_enter(self, st, Ctx(fn, frame, 0, fn.line, stack), fn, args)
        seen = set()
        exits, exit_keys = [], set()
        work = [(0, st)]
        livein, preds = fn.live_in, fn.preds
        nlocal = 0
        while work:
            bi, st = work.pop()
            if len(preds[bi]) != 1:
                if self.rule.narrow: self.rule.narrow(self, st)
                self.prune(st, frame, livein[bi])
                k = (bi, st.key())
                if k in seen: continue
                seen.add(k)
                st = st.copy()
            self.nstates += 1
            nlocal += 1
            if self.nstates > self.max_states: raise Budget(f"{fn.path} ({len(seen)} states)")
            self.visited_blocks.add((fn.id, bi))
            blk = fn.blocks[bi]
            cx = Ctx(fn, frame, bi, None, stack)
            for s in blk.stmts:
                if s[0] == '=':
                    cx.sp = s[3]
                    v = self.rvalue(st, cx, s[2])
                    lv = self.lv(st, frame, s[1])
                    if len(s[1]) > 1: self.rule.on_write(self, st, cx, lv, v)
                    self.write(st, lv, v)
                elif s[0] == 'sd':
                    lv = self.lv(st, frame, s[1])
                    self.write(st, lv, ('agg', '?', s[2], (), ()))
                elif s[0] == 'dead':
                    st.store.pop((('L', frame, s[1]), ()), None)
            t = blk.term
            k = t[0]
            if k == 'goto': work.append((t[1], st))
            elif k == 'switch':
                cx.sp = t[5]
                v = self.operand(st, cx, t[1])
                for s, b in list(self.switch(st, cx, v, t[2], t[3], t[4])): work.append((b, s.copy() if s is st else s))
            elif k == 'return':
                ret = self.read(st, (('L', frame, 0), ()))
                cx.sp = t[1]
                for kk in [kk for kk in st.store if kk[0][0] == 'L' and kk[0][1] == frame]:
                    # values returned by reference to own frame cannot escape in safe rust
                    del st.store[kk]
                self.rule.on_exit(self, st, cx, fn, ret)
                key = (st.key(), ret)
                if key not in exit_keys:
                    exit_keys.add(key)
                    exits.append((st, ret))
            elif k == 'drop':
                cx.sp = t[5]
                lv = self.lv(st, frame, t[1])
                self.rule.on_drop(self, st, cx, lv, t[2])
                if len(t[1]) == 1: st.store.pop(lv, None)
                work.append((t[3], st))
            elif k == 'assert':
                cx.sp = t[5]
                self.rule.on_assert(self, st, cx, t[3])
                work.append((t[4], st))
            elif k == 'yield': work.append((t[2], st))
            elif k == 'call':
                cx.sp = t[6]
                args = tuple(self.operand(st, cx, a) for a in t[2])
                if bi in fn.callees: callee = fn.callees[bi]
                else: callee = None
                fv = None if callee else self.operand(st, cx, t[1])
                for s, v in self.call(st, cx, callee, fv, args, t):
                    if t[4] is None: continue
                    lv = self.lv(s, frame, t[3])
                    if len(t[3]) > 1: self.rule.on_write(self, s, cx, lv, v)
                    self.write(s, lv, v)
                    work.append((t[4], s))
        return exits

    def prune(self, st, frame, live):
        """Forget dead locals of this frame and facts about values nothing refers to any more."""
        s = st.store
        keep = set()
        roots = []
        for k, v in s.items():
            b = k[0]
            if b[0] == 'L' and b[1] == frame:
                if b[2] in live: roots.append((k, v))
            else: roots.append((k, v))
        # locals referenced by live values stay
        changed = True
        kept = dict(roots)
        pending = {k: v for k, v in s.items() if k not in kept}
        if pending:
            reach = set()
            for k, v in kept.items():
                reach |= subvalues(v) | subvalues(k)
            todo = True
            while todo:
                todo = False
                for k in list(pending):
                    if k[0] in reach:
                        v = pending.pop(k)
                        kept[k] = v
                        reach |= subvalues(v)
                        todo = True
        else:
            reach = None
        st.store = kept
        if st.facts:
            if reach is None:
                reach = set()
                for k, v in kept.items(): reach |= subvalues(v) | subvalues(k)
            rs = self.rule_values(st)
            def alive(k):
                base = k[1] if k[0] == 'sw' else k
                if base[0] == 'init' and base[1][0][0] == 'V': return True
                if k in reach or base in reach or k in rs or base in rs: return True
                # facts about parts of something still referenced
                b = base
                while b[0] in ('p', 'clone', 'discr', 'init'):
                    if b[0] == 'init':
                        return b[1][0] in reach
                    b = b[1]
                    if b in reach or b in rs: return True
                if base[0] == 'bin': return all(alive(x) or x[0] == 'c' for x in base[2:])
                return False
            st.facts = {k: f for k, f in st.facts.items() if alive(k)}

    def rule_values(self, st):
        return subvalues(st.rs) if self.rule.keep and st.rs else ()

    # ------------------------------------------------------------ calls
    def call(self, st, cx, callee, fv, args, t):
        site = (cx.frame, cx.block)
        if callee is None:
            fv = strip(fv)
            if fv[0] == 'clo': return self.call_closure(st, cx, fv, args, site)
            if fv[0] == 'fn':
                r = ctor(self.prog, fv[1], args)
                if r is not None: return [(st, r)]
                f = self.prog.by_id.get(fv[2])
                if f is not None: return self.enter(st, cx, f, args, site)
            r = self.rule.on_call(self, st, cx, None, (fv,) + args, site)
            if r is not None: return r
            return [(st, self.fresh(st, ('call', '?', site)))]
        r = self.rule.on_call(self, st, cx, callee, args, site)
        if r is not None: return r
        import models
        r = models.model(self, st, cx, callee, args, site, t)
        if r is not None: return r
        if callee.local:
            f = self.prog.by_id.get(callee.local)
            if f is not None and f.id not in cx.stack and len(cx.stack) < self.max_depth and self.rule.inline(self, f):
                return self.enter(st, cx, f, args, site)
        return self.opaque(st, cx, callee, args, site, t)

    def enter(self, st, cx, f, args, site):
        fr = self.frame_id((cx.frame, cx.block, f.id))
        return self.run(f, args, st, cx.stack, fr)

    def opaque(self, st, cx, callee, args, site, t):
        outs = [st]
        # closures handed to code we do not follow may run any number of times
        for a in args:
            a = strip(a)
            if a[0] == 'ref': a = strip(self.read(st, a[1]))
            if a[0] == 'clo' and self.prog.by_id.get(a[1]) is not None and self.rule.inline(self, self.prog.by_id[a[1]]):
                acc, seen = list(outs), {s.key() for s in outs}
                front = list(outs)
                for _ in range(3):
                    nf = []
                    for s in front:
                        f = self.prog.by_id[a[1]]
                        if f.id in cx.stack: continue
                        for s2, _v in self.call_closure(s, cx, a, tuple(('carg', site, i) for i in range(f.nargs - 1)), site, spread=True):
                            if s2.key() not in seen:
                                seen.add(s2.key()); nf.append(s2); acc.append(s2)
                    front = nf
                    if not front: break
                outs = acc
        res = []
        for s in outs:
            s = s.copy() if len(outs) > 1 else s
            self.clobber(s, cx, t, args, site)
            v = ('call', callee.rpath if callee else '?', site, tuple(a if depth(a) < self.argdepth else TOP for a in args))
            if self.rule.mark is not None:
                ms = set()
                for a in args: self.marks(s, a, ms)
                if ms: v += (('mk',) + tuple(sorted(ms, key=repr)),)
            self.fresh(s, v)
            res.append((s, v))
        return res

    def marks(self, st, v, out, d=0):
        """Marked values v is made of, looking through references into the store."""
        for x in subvalues(v):
            if x and self.rule.mark(x): out.add(x)
            if d < 6 and len(x) == 2 and x[0] == 'ref': self.marks(st, self.read(st, x[1]), out, d + 1)

    def clobber(self, st, cx, t, args, site):
        for o, a in zip(t[2], args):
            if a[0] != 'ref': continue
            if o[0] in 'ym' and len(o[1]) == 1:
                if not cx.fn.locals[o[1][0]].startswith(('&mut', "&'")) : continue
                ty = cx.fn.locals[o[1][0]]
                if not (ty.startswith('&mut') or (ty.startswith("&'") and ' mut ' in ty.split('<')[0][:20])): continue
                self.havoc(st, a[1], site)

    def call_closure(self, st, cx, clo, args, site, spread=False):
        """args: the call's argument values, (already spread) positional."""
        f = self.prog.by_id.get(clo[1])
        if f is None or f.id in cx.stack or len(cx.stack) >= self.max_depth:
            return [(st, self.fresh(st, ('call', 'closure', site)))]
        selfty = f.locals[1] if f.nargs >= 1 else ''
        if selfty.startswith('&'):
            slot = ('clo-self', site, clo[1])
            lv = (('V', slot), ())
            st = st.copy()
            st.store[lv] = clo
            a0 = ('ref', lv)
        else: a0 = clo
        fr = self.frame_id((cx.frame, cx.block, f.id, 'clo'))
        return self.run(f, (a0,) + tuple(args), st, cx.stack, fr)

    def invoke(self, st, cx, fv, args, site):
        """Calls a function value (closure, fn item, reference to one)."""
        fv = strip(fv)
        n = 0
        while fv[0] == 'ref' and n < 4:
            fv = strip(self.read(st, fv[1])); n += 1
        if fv[0] == 'clo': return self.call_closure(st, cx, fv, args, site)
        if fv[0] == 'fn':
            r = ctor(self.prog, fv[1], args)
            if r is not None: return [(st, r)]
            f = self.prog.by_id.get(fv[2])
            if f is not None and f.id not in cx.stack and self.rule.inline(self, f): return self.enter(st, cx, f, args, site)
            return [(st, self.fresh(st, ('call', fv[1], site, tuple(args))))]
        return [(st, self.fresh(st, ('call', '?', site)))]


def site_of(cx): return (cx.frame, cx.block)


def norm_adt(n):
    return {'std::option::Option': OPT, 'std::result::Result': RES, 'std::ops::ControlFlow': CF}.get(n, n)


def ctor(prog, path, args):
    """Tuple-variant / tuple-struct constructor used as a function."""
    if '::' not in path: return None
    adt, var = path.rsplit('::', 1)
    adt = strip_ty(adt)
    if path in ('std::option::Option::Some', 'core::option::Option::Some', 'core::prelude::v1::Some'): return some(args[0])
    if path in ('std::result::Result::Ok', 'core::result::Result::Ok', 'core::prelude::v1::Ok'): return ok(args[0])
    if path in ('std::result::Result::Err', 'core::result::Result::Err', 'core::prelude::v1::Err'): return err(args[0])
    a = prog.adts.get(adt)
    if a and a['kind'] == 'enum' and any(v[0] == var for v in a['vs']):
        return ('agg', norm_adt(adt), var, tuple(args), tuple(str(i) for i in range(len(args))))
    a = prog.adts.get(path)
    if a and a['kind'] == 'struct': return ('agg', path, '', tuple(args), tuple(str(i) for i in range(len(args))))
    return None


def fold_bin(op, a, b):
    if a[0] == 'c' and b[0] == 'c' and len(a) > 2 and len(b) > 2 and a[1] == b[1] == 'i':
        x, y = int(a[2]), int(b[2])
        r = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(op)
        if r is not None: return ('c', 'b', r)
        r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}.get(op)
        if r is not None: return ('c', 'i', str(r), a[3])
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = {'A': x + y, 'S': x - y, 'M': x * y}[op[0]]
            return ('agg', '()', '', (('c', 'i', str(r), a[3]), FALSE), ('0', '1'))
    if a[0] == 'c' and b[0] == 'c' and len(a) > 2 and len(b) > 2 and a[1] == b[1] == 'b':
        r = {'Eq': a[2] == b[2], 'Ne': a[2] != b[2], 'BitAnd': a[2] and b[2], 'BitOr': a[2] or b[2], 'BitXor': a[2] != b[2]}.get(op)
        if r is not None: return ('c', 'b', r)
    return None

"""P17: every accepted external request is answered exactly once."""
from h import *

KEYTY = ('RequestKey', 'CommandKey', 'AsyncKey<')
TAKES = {'recv', 'try_recv', 'recv_timeout', 'pop_front', 'pop_back', 'pop', 'remove', 'swap_remove'}
PUTS = {'send', 'push', 'push_back', 'push_front', 'insert'}
LOSES = {'clear', 'truncate', 'retain', 'retain_mut', 'drain', 'split_off'}
SPAWNS = {'spawn', 'spawn_local', 'spawn_blocking', 'block_on'}
KEY, REQ = ('thekey',), ('therequest',)


def iskey(t): return any(k in t.split('<')[0] + '<' or t.rstrip('>').endswith(k) or strip_ty(t).endswith(k.rstrip('<')) for k in KEYTY)


def status(t): return next((k for k in ('RequestStatus', 'CommandStatus') if strip_ty(t).endswith(k)), None)


class KeyRule(Plain):
    keep = True

    def __init__(self, prog):
        super().__init__(prog)
        self.sentto = {}

    def inline(self, sim, fn): return fn.kind == 'Closure' or any(iskey(fn.locals[i + 1]) for i in range(fn.nargs)) and not fn.derived

    def token(self, st):
        """The key that has to be answered now."""
        for e in reversed(st.rs):
            if e[0] == 'hand': return ('p', ('p', e[1], ('v', 'UseDefault')), ('f', 'key'))
        return KEY

    def request(self, st):
        for e in reversed(st.rs):
            if e[0] == 'hand': return [('p', ('p', e[1], ('v', 'UseDefault')), ('f', f)) for f in ('request', 'command')]
        return [REQ]

    def has(self, sim, st, v):
        t = self.token(st)
        for _ in range(3):
            if mentions(v, lambda x: strip(x) == t if isinstance(x, tuple) and x else False): return True
            if strip(v)[0] == 'ref': v = sim.read(st, strip(v)[1])
            else: return False
        return False

    def event(self, st, *e): st.rs = st.rs + (e,)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None:
            r = self.function(sim, st, cx, args[0], args[1:], site)
            return r
        m, t = callee.method, callee.trait or ''
        if t.endswith('runtime::Key') and m == 'complete':
            mine = self.has(sim, st, args[0])
            self.event(st, 'complete' if mine else 'otherkey')
            return [(st, UNIT)]
        if t.startswith('core::ops::Fn') and m.startswith('call') and args[1][0] == 'agg':
            f = strip(args[0])
            if f[0] == 'ref': f = strip(sim.read(st, f[1]))
            if f[0] not in ('clo', 'fn'): return self.function(sim, st, cx, f, args[1][3], site)
            return None
        if not any(self.has(sim, st, a) for a in args): return None
        if m in ('clone', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'into', 'from', 'fmt', 'front', 'iter', 'branch', 'from_residual'): return None
        if m in PUTS and not callee.local:
            self.event(st, 'sent')
            if callee.args: self.sentto.setdefault(callee.args[0], cx.loc)
            return None
        if m in SPAWNS and not callee.local:
            for a in args:
                a = strip(a)
                if a[0] == 'clo':
                    g = self.prog.by_id.get(a[1])
                    if g is not None:
                        return [(s, ('call', 'spawn', site)) for s, _ in sim.run(g, (a,) + (TOP,) * (g.nargs - 1), st, cx.stack, sim.frame_id((cx.frame, cx.block, g.id)))]
            self.event(st, 'sent')
            return None
        if callee.local and self.prog.by_id.get(callee.local) is not None: return None
        if callee.rpath.startswith(('core::option', 'core::result', 'core::mem')): return None
        self.event(st, 'lost', callee.rpath)
        return None

    def function(self, sim, st, cx, f, args, site):
        """A handler we do not know: the key is its business unless it gives it back."""
        f = strip(f)
        if f[0] == 'ref': f = strip(sim.read(st, f[1]))
        if f[0] in ('clo', 'fn'): return None
        hit = [i for i, a in enumerate(args) if self.has(sim, st, a)]
        if not hit: return None
        whole = any(strip(a) == self.token(st) for a in args)
        req = [a for a in args if any(same(a, r) for r in self.request(st))]
        n = sum(1 for e in st.rs if e[0] == 'hand')
        v = ('answer', n)
        self.event(st, 'hand', v, f, whole, bool(req))
        return [(st, sim.fresh(st, v))]



class ItemRule(KeyRule):
    """Follows one thing taken out of a queue; everything else is left out of the state."""
    def __init__(self, prog, norm, ty, keypath, takers):
        super().__init__(prog)
        self.norm, self.ty, self.keypath, self.takers = norm, norm(ty), keypath, takers
        self.bad, self.returned, self.items = [], False, 0

    def token(self, st):
        v = next((e[1] for e in st.rs if e[0] == 'item'), ('noitem',))
        for f in self.keypath: v = ('p', v, ('f', f))
        return v

    def held(self, st): return next((e[1] for e in st.rs if e[0] == 'item'), None)

    def has(self, sim, st, v, d=0):
        e = self.held(st)
        if e is None: return False
        if e in subvalues(v): return True
        if d > 3: return False
        return any(x[0] == 'ref' and self.near(st, x[1], e) for x in subvalues(v) if len(x) == 2 and x[0] == 'ref')

    def near(self, st, lv, e):
        return any(k[0] == lv[0] and e in subvalues(x) for k, x in st.store.items())

    def narrow(self, sim, st):
        e = self.held(st)
        if e is None: st.store, st.facts = {k: v for k, v in st.store.items() if v[0] == 'clo' or v[0] == 'ref'}, {}; return
        keep = {k: v for k, v in st.store.items() if e in subvalues(v) or v[0] == 'clo' or v[0] == 'ref'}
        st.store, st.facts = keep, {k: f for k, f in st.facts.items() if e in subvalues(k)}

    def inline(self, sim, fn): return True

    def on_call(self, sim, st, cx, callee, args, site):
        took = False
        if callee is not None:
            took = callee.method in TAKES and not callee.local and callee.args and self.norm(callee.args[0]) == self.ty
            if callee.method in LOSES and not callee.local and callee.args and self.norm(callee.args[0]) == self.ty:
                self.bad.append((f'drops pending requests through `{callee.method}`', cx.loc))
            g = callee.local
        else:
            f = strip(args[0])
            g = f[1] if f[0] == 'clo' else f[2] if f[0] == 'fn' else None
        if callee is not None and (callee.trait or '').startswith('core::ops::Fn') and args:
            f = strip(args[0])
            if f[0] == 'ref': f = strip(sim.read(st, f[1]))
            if f[0] == 'clo': g = f[1]
        took = took or g in self.takers
        if took:
            self.finish(sim, st, cx)
            self.items += 1
            e = ('item', cx.block)
            s = st.copy()
            s.rs = ()
            st.rs = (('item', e),)
            out = self.prog.by_id[g].locals[0] if g in self.takers else None
            if out is None: good, bad = (ok(e), err(('none',))) if 'recv' in callee.method else (some(e), NONE)
            elif strip_ty(out) == OPT: good, bad = some(e), NONE
            elif strip_ty(out) == RES: good, bad = ok(e), err(('none',))
            else: return [(st, e)]
            return [(st, good), (s, bad)]
        if not any(self.has(sim, st, a) for a in args): return [(st, sim.fresh(st, ('call', '?', site)))]
        return super().on_call(sim, st, cx, callee, args, site)

    def finish(self, sim, st, cx):
        if self.held(st) is None: return
        n = sum(1 for e in st.rs if e[0] in ('complete', 'sent'))
        if n != 1: self.bad.append((f'answers a request it took over {n} times', cx.loc))

    def on_exit(self, sim, st, cx, fn, ret):
        if len(cx.stack) > 1: return
        e = self.held(st)
        if e is not None and e in subvalues(ret) and not any(x[0] in ('complete', 'sent') for x in st.rs): self.returned = True
        else: self.finish(sim, st, cx)


def same(v, want):
    """v is want, possibly taken apart and rebuilt."""
    v = strip(v)
    if v == want: return True
    if v[0] == 'agg' and v[2]:
        return all(same(x, ('p', ('p', want, ('v', v[2])), ('f', n))) for x, n in zip(v[3], v[4]))
    return False


def check(c):
    c.rule('every function that answers with a request or command status is followed on all paths with its key as a token: `Handled` needs exactly one completion or one hand-over to a queue or another handler, `UseDefault` needs the untouched key and the unchanged request')
    c.rule('everything taken out of a queue that keys are put into is completed exactly once before the next one is taken')
    queues = {}
    for p in (c.p, c.nb):
        for f in sorted(p.fns, key=lambda f: (f.file, f.line)):
            s = status(f.locals[0])
            if not s or f.promoted or f.derived or f.nargs == 0: continue
            ks = [i for i in range(f.nargs) if iskey(f.locals[i + 1])]
            if len(ks) != 1: continue
            handler(c, p, f, s, ks[0], queues)
    for q, (p, loc) in sorted(queues.items(), key=lambda x: x[0]): consumer(c, p, q, loc)
    keycell(c)
    hosts(c)
    compose(c)
    for p in (c.p, c.nb): precedence(c, p)
    c.floor('handlers', 12)
    c.floor('handler paths', 60)
    c.floor('queues of accepted requests', 2)
    c.floor('queue consumers', 2)
    c.floor('completed outcomes', 40)
    c.floor('returned outcomes', 6)
    c.assume('a handler that panics answers nothing; futures given to spawn are run to completion')


def handler(c, p, f, s, ki, queues):
    args = []
    for i in range(f.nargs):
        t = f.locals[i + 1]
        if i == ki: args.append(KEY)
        elif strip_ty(t).endswith(('runtime::Request', 'runtime::Command')): args.append(REQ)
        elif t.startswith('&'): args.append(('ref', (('V', ('arg', i)), ())))
        else: args.append(('arg', i))
    rule = KeyRule(p)
    sim = Sim(p, rule, 400000)
    out = sim.run(f, tuple(args))
    name = f.path.rsplit('::', 2)[-2] + '::' + f.path.rsplit('::', 1)[-1] if 'closure' in f.path else f.path.rsplit('::', 1)[-1]
    name = f.path.replace('{', '').replace('}', '')
    loc = f.loc()
    c.count('handlers')
    for t, l in rule.sentto.items(): queues.setdefault(t, (p, l))
    if not out: raise Missing(f'a path through {f.path}')
    for st, r in out:
        c.count('handler paths')
        r = strip(r)
        rs = st.rs
        done = [e for e in rs if e[0] in ('complete', 'sent')]
        hands = [e for e in rs if e[0] == 'hand']
        for e in hands:
            if not e[3]: c.violation(f'{name}:hand-key', 'a request is handed on with another key than its own', loc)
            if not e[4]: c.violation(f'{name}:hand-request', 'a request is handed on changed', loc)
        for e in rs:
            if e[0] == 'lost': c.violation(f'{name}:lost', f'the key of a request is given to `{e[1]}`, which does not answer it', loc)
        # who had to answer: earlier hands that handled it need nothing more
        for e in hands[:-1]:
            if st.facts.get(e[1]) != ('is', 'UseDefault'): c.violation(f'{name}:twice', 'a request is handed on although it may already be handled', loc)
        last = st.facts.get(hands[-1][1]) if hands else None
        answered = bool(hands) and last == ('is', 'Handled')
        if r[0] == 'agg' and r[2] == 'Handled':
            n = len(done) + answered
            if n != 1: c.violation(f'{name}:{"unanswered" if n == 0 else "answered-twice"}', f'a request reported as handled is answered {n} times', loc)
            else: c.count('completed outcomes')
        elif r[0] == 'agg' and r[2] == 'UseDefault':
            v = fields_of(r)
            if done or answered: c.violation(f'{name}:both', 'a request that was answered is also returned as not accepted', loc)
            if strip(v.get('key', TOP)) != rule.token(st): c.violation(f'{name}:key', 'a request that is not accepted is returned with another key', loc)
            q = v.get('request', v.get('command', TOP))
            if not any(same(q, x) for x in rule.request(st)): c.violation(f'{name}:request', 'a request that is not accepted is returned changed', loc)
            c.count('returned outcomes')
        elif hands and r == hands[-1][1]:
            if done: c.violation(f'{name}:twice', 'a request that was answered is handed on', loc)
            c.count('handed-on outcomes')
        else: c.violation(f'{name}:outcome', 'the outcome of a request cannot be read off', loc)


def keyfield(p, ty):
    """Path of the key within a queued item."""
    if iskey(ty): return ()
    a = ty_args(ty) if not ty.startswith('(') else None
    if ty.startswith('('):
        import mir
        parts = mir.split_args(ty[1:-1]) if hasattr(mir, 'split_args') else [x.strip() for x in split(ty[1:-1])]
        for i, t in enumerate(parts):
            if iskey(t): return (str(i),)
    d = p.adts.get(strip_ty(ty))
    if d and len(d['vs']) == 1:
        for f, t, _ in d['vs'][0][2]:
            if iskey(t): return (f,)
    return None


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + [cur.strip()] if cur.strip() else out


def consumer(c, p, ty, loc):
    c.count('queues of accepted requests')
    path = keyfield(p, ty)
    if path is None: c.violation(f'queue:{strip_ty(ty)}', 'a request is put somewhere without its key', loc); return
    norm = lambda t: strip_ty(t) if not t.startswith('(') else tuple(strip_ty(x) for x in split(t[1:-1]))
    takers, done, todo = set(), set(), []
    for f in p.fns:
        if f.promoted: continue
        for bi, cl in f.callees.items():
            if f.blocks[bi].cleanup or not cl.args: continue
            if norm(cl.args[0]) == norm(ty) and cl.method in TAKES | LOSES and not cl.local: todo.append(f.id)
    if not todo: c.violation(f'queue:{norm(ty)}', 'requests are queued but nothing takes them out', loc); return
    while todo:
        fid = todo.pop()
        if fid in done: continue
        done.add(fid)
        f = p.by_id[fid]
        rule = ItemRule(p, norm, ty, path, takers)
        sim = Sim(p, rule, 200000)
        sim.run(f, tuple(('arg', i) if not f.locals[i + 1].startswith('&') else ('ref', (('V', ('arg', i)), ())) for i in range(f.nargs)))
        if rule.returned:
            takers.add(fid)
            done -= set(p.callers.get(fid, ()))
            todo += p.callers.get(fid, ())
            c.count('functions passing accepted requests on')
        else: c.count('queue consumers')
        c.count('accepted requests taken out', rule.items)
        for msg, l in dict(rule.bad).items(): c.violation(f'{f.path.replace("{", "").replace("}", "")}:consumer', f'`{f.path}` {msg}', l)


def keycell(c):
    """The shared cell behind the keys: first completion is kept, polling takes it out once."""
    p = c.p
    A = next((a for a in p.adts if a.endswith('runtime::AsyncResult') or a == 'runtime::AsyncResult'), None)
    if not A: raise Missing('AsyncResult')
    comp, poll = selfarg_fn(p, A, 'complete'), selfarg_fn(p, A, 'poll')
    cell = obj('cell')
    for v in p.variants(A):
        init = mkvariant(p, A, v)
        for fn, args in ((comp, (('ref', (cell, ())), ('value',))), (poll, (('ref', (cell, ())),))):
            sim, out = runfn(p, fn, args, store={(cell, ()): init})
            for st, r in out:
                c.count('cell transitions')
                after = sim.read(st, (cell, ()))
                if fn is comp:
                    if v == 'Pending':
                        if not (after[0] == 'agg' and after[2] == 'Completed' and after[3][0] == ('value',) and r[2] == 'Ok'): c.violation('cell:complete', 'completing a pending result does not store the value', fn.loc())
                    elif after != init or r[2] != 'Err': c.violation('cell:again', 'completing a result a second time changes it or goes unnoticed', fn.loc())
                else:
                    want = 'Pending' if v == 'Pending' else 'Consumed'
                    if after[0] != 'agg' or after[2] != want: c.violation('cell:poll', f'polling a result that is {v} leaves it {after[2] if after[0] == "agg" else "?"}', fn.loc())
                    if strip(r) != init: c.violation('cell:polled', f'polling a result that is {v} reports something else', fn.loc())
    c.floor('cell transitions', 6)


class HostRule(Plain):
    """The standard system: what it hands to handlers and what it returns."""
    keep = True

    def inline(self, sim, fn): return fn.kind == 'Closure'

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method == 'new' and not args and callee.implty and 'AsyncKey' in callee.implty: return [(st, ('newkey', site))]
        f = None
        if callee is None: f, a = args[0], args[1:]
        elif (callee.trait or '').startswith('core::ops::Fn') and args[1][0] == 'agg': f, a = args[0], args[1][3]
        if f is not None and strip(f)[0] not in ('clo', 'fn'):
            st.rs = st.rs + (('hand', tuple(a), ('handled',)),)
            return [(st, ('handled',))]
        if callee is not None and callee.method == 'new' and len(args) == 1 and strip(args[0])[0] == 'clo': return [(st, args[0])]
        if callee is not None and callee.method == 'feature': return [(st, ('feature', args[0]))]
        return None


def hosts(c):
    """Hosts built on keys: an accepted request is polled through the very key the handler got; others are reported as not supported."""
    p = c.p
    n = 0
    for f in p.fns:
        if not (f.trait and f.trait.endswith('runtime::System') and f.method in ('perform_request', 'perform_command')) or f.promoted: continue
        n += 1
        sim, out = runfn(p, f, tuple(('ref', (('V', ('arg', i)), ())) if f.locals[i + 1].startswith('&') else ('req',) if strip_ty(f.locals[i + 1]).endswith(('Request', 'Command')) else ('arg', i) for i in range(f.nargs)), rule=HostRule(p))
        some_ok = False
        for st, r in out:
            c.count('host paths')
            hands = [e for e in st.rs if e[0] == 'hand']
            if r[0] != 'agg': c.violation(f'{f.method}:outcome', f'what `{f.method}` returns cannot be read off', f.loc()); continue
            if len(hands) > 1: c.violation(f'{f.method}:hands', f'`{f.method}` gives a request to a handler twice', f.loc()); continue
            fact = st.facts.get(('handled',))
            if r[2] == 'Ok':
                some_ok = True
                k = strip(r[3][0])
                if not hands or fact != ('is', 'Handled'): c.violation(f'{f.method}:unaccepted', f'`{f.method}` reports a request as accepted that no handler accepted', f.loc()); continue
                if not any(strip(a) == k for a in hands[0][1]): c.violation(f'{f.method}:key', f'`{f.method}` polls another key than the handler completes', f.loc())
                if ('req',) not in [strip(a) for a in hands[0][1]]: c.violation(f'{f.method}:request', f'`{f.method}` hands a changed request to the handler', f.loc())
            elif hands and fact == ('is', 'Handled'): c.violation(f'{f.method}:refused', f'`{f.method}` reports an error for a request the handler accepted', f.loc())
        if not some_ok: c.violation(f'{f.method}:never', f'`{f.method}` never accepts a request', f.loc())
    if n < 2: raise Missing('perform_request and perform_command of the standard system')
    polls(c)
    c.floor('host paths', 6)


def polls(c):
    p = c.p
    A = 'runtime::AsyncResult'
    n = 0
    for f in p.fns:
        if not (f.trait and f.trait.endswith('runtime::System') and f.method in ('poll_request', 'poll_command')) or f.promoted: continue
        n += 1
        for v in p.variants(A):
            for inner in (('Ok', 'Err') if v == 'Completed' else (None,)):
                pay = ('agg', RES, inner, (('payload',),), ('0',)) if inner else None
                polled = ('agg', A, v, (pay,) if pay else (), ('0',) if pay else ())

                class R(HostRule):
                    def on_call(self, sim, st, cx, callee, args, site):
                        if callee is not None and callee.method == 'poll' and callee.implty and 'AsyncKey' in callee.implty:
                            st.rs = st.rs + (('polled', sim.deref(args[0])),)
                            return [(st, polled)]
                        if callee is not None and callee.method == 'from_intermediate': return [(st, ('converted', args[-1]))]
                        return super().on_call(sim, st, cx, callee, args, site)
                K = obj('key')
                sim, out = runfn(p, f, tuple(('ref', (K, ())) if 'Key' in f.locals[i + 1] else ('arg', i) for i in range(f.nargs)), rule=R(p))
                for st, r in out:
                    c.count('poll outcomes')
                    if len(st.rs) != 1 or st.rs[0][1][0] != K: c.violation(f'{f.method}:polls', f'`{f.method}` does not poll the request it is asked about exactly once', f.loc())
                    x = r[3][0] if r[0] == 'agg' and r[2] == 'Ok' and r[3] else TOP
                    good = x == polled or x[0] == 'agg' and x[2] == v and (not pay or x[3][0] in (('agg', RES, inner, (('payload',),), ('0',)), ('agg', RES, 'Ok' if inner == 'Ok' else '-', (('converted', ('payload',)),), ('0',))))
                    if not good: c.violation(f'{f.method}:{v}', f'`{f.method}` does not report a result that is {v}{" " + inner if inner else ""} as such', f.loc())
    if n < 2: raise Missing('poll_request and poll_command of the standard system')
    c.floor('poll outcomes', 8)


def compose(c):
    """Two configurations in one: the first handler is asked first, the second only for what the first returns."""
    p = c.p
    f = selfarg_fn(p, next(a for a in p.adts if a.endswith('runtime::Config')), 'fallback')
    A, B = obj('self'), obj('other')
    sim, out = runfn(p, f, (('ref', (A, ())), ('ref', (B, ()))), rule=HostRule(p))
    for st, r in out:
        c.count('composition paths')
        v = fields_of(strip(r))
        if not v: c.violation('fallback:outcome', 'the composition of two configurations cannot be read off', f.loc()); continue
        for k, x in v.items():
            have = {}
            for nm, o in (('self', A), ('other', B)):
                fact = st.facts.get(('init', (o, (('f', k),)))) or st.facts.get(('clone', ('init', (o, (('f', k),)))))
                have[nm] = fact == ('is', 'Some') if fact else None
            ment = {nm for nm, o in (('self', A), ('other', B)) if mentions(x, lambda y: y[:1] == ('init',) and isinstance(y[1], tuple) and y[1][0] == o)}
            if x == NONE or x[0] != 'agg':
                if any(have.values()) and x == NONE: c.violation(f'fallback:{k}:none', 'a handler is left out when configurations are composed', f.loc())
                continue
            for nm in ('self', 'other'):
                if have[nm] and nm not in ment: c.violation(f'fallback:{k}:{nm}', 'a handler is left out when configurations are composed', f.loc())
            if len(ment) == 2:
                clo = [y for y in subvalues(x) if y and y[0] == 'clo']
                if len(clo) != 1: c.violation(f'fallback:{k}:order', 'how two handlers are combined cannot be read off', f.loc()); continue
                g = p.by_id[clo[0][1]]
                rule = KeyRule(p)
                sim2 = Sim(p, rule)
                slot = (('V', ('clo',)), ())
                a0 = ('ref', slot) if g.locals[1].startswith('&') else clo[0]
                ki = [i for i in range(g.nargs) if iskey(g.locals[i + 1])][0]
                args = [a0] + [KEY if i == ki else REQ if strip_ty(g.locals[i + 1]).endswith(('Request', 'Command')) else ('arg', i) for i in range(1, g.nargs)]
                for st2, r2 in sim2.run(g, tuple(args), St({slot: clo[0]}, {}, ())):
                    who = [nm for e in st2.rs if e[0] == 'hand' for nm, o in (('self', A), ('other', B)) if mentions(e[2], lambda y: y[:1] == ('init',) and isinstance(y[1], tuple) and y[1][0] == o)]
                    if who not in (['self'], ['self', 'other']): c.violation(f'fallback:{k}:order', f'composed handlers are asked in the order {who}', g.loc())
                    if who == ['self'] and st2.facts.get(('answer', 0)) != ('is', 'Handled'): c.violation(f'fallback:{k}:stops', 'the second handler is not asked for what the first one returns', g.loc())
    c.floor('composition paths', 4)


def roots(f, op, seen=None):
    """Where an operand comes from, through copies and references: parameters by number, or something else."""
    seen = set() if seen is None else seen
    if op[0] not in ('m', 'y') or not isinstance(op[1], list): return {'other'}
    l = op[1][0]
    if 1 <= l <= f.nargs: return {l}
    if l in seen: return set()
    seen.add(l)
    out = set()
    for b in f.blocks:
        if b.cleanup: continue
        for s in b.stmts:
            if s[0] == '=' and s[1] == [l]:
                r = s[2]
                if r[0] == 'ref': out |= roots(f, ['y', r[2]], seen)
                elif r[0] == 'use': out |= roots(f, r[1], seen)
                else: out.add('other')
        t = b.term
        if t[0] == 'call' and t[3] == [l]:
            cl = f.callees.get(f.blocks.index(b))
            out |= roots(f, t[2][0], seen) if cl is not None and cl.method in ('clone', 'deref', 'as_ref', 'borrow') and t[2] else {'other'}
    return out or {'other'}


def precedence(c, p):
    """Where the built-in handlers are combined with the embedder's, the embedder's are asked first."""
    for f in p.fns:
        if f.promoted: continue
        for bi, cl in f.callees.items():
            if f.blocks[bi].cleanup or cl.method != 'fallback' or not (cl.local and cl.implty and strip_ty(cl.implty).endswith('Config')): continue
            c.count('compositions of configurations')
            a = roots(f, f.blocks[bi].term[2][0])
            name = f.path.replace('{', '').replace('}', '')
            if 'other' in a: c.violation(f'{name}:precedence', f'`{f.path}` asks its own handlers before those of the embedding program', f.loc(f.blocks[bi].term[6]))
    if p is c.p: c.floor('compositions of configurations', 4)

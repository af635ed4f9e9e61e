"""P32: a message awaiting a reply gets the first reply or times out, once."""
from h import *

ENTRY = obj('entry')
E0 = ('ref', (ENTRY, ()))
FIND = {'get', 'get_mut', 'entry', 'contains_key', 'values_mut', 'iter_mut', 'first_entry', 'last_entry', 'range_mut'}
DROP = {'remove', 'remove_entry', 'pop_first', 'pop_last', 'clear', 'retain', 'split_off', 'extract_if'}
PUT = {'insert', 'append', 'extend', 'entry', 'try_insert', 'from_iter', 'from'}


def cstr(v):
    v = strip(v)
    if v[0] in ('ref', 'init') and v[1][0][0] == 'V' and not v[1][1]: v = v[1][0][1]
    if v[:2] == ('c', 'txt') and v[2][:1] == v[2][-1:] == '"': return v[2][1:-1]
    return v[2] if v[:2] == ('c', 's') else None


class ReplyRule(Plain):
    keep = True

    def __init__(self, prog, n):
        super().__init__(prog)
        self.n = n
        self.mark = lambda v: v[:1] in (('uuid',), ('json',))

    def inline(self, sim, fn): return fn.kind == 'Closure' or fn.selfadt is not None and fn.selfadt.endswith('StdSystem') and not fn.trait

    def event(self, st, *e): st.rs = st.rs + (e,)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, a = callee.method, callee.args
        base = strip_ty(a[0]) if a else ''
        if callee.local:
            f = self.prog.by_id.get(callee.local)
            if f is not None and f.selfadt and f.selfadt.endswith('Clock'):
                return [(st, ('now', site))]
            return None
        if 'Uuid' in callee.rpath and m.startswith(('new', 'now')): return [(st, ('uuid', site))]
        if m == 'send' and base == self.n.out:
            self.event(st, 'send', deepread(sim, st, args[1]))
            s = st.copy()
            return [(st, ok(UNIT))]
        if m == 'send' and base == self.n.inc:
            self.event(st, 'deliver', deepread(sim, st, args[1]))
            return [(st, ok(UNIT))]
        if base == self.n.key and len(a) > 1 and strip_ty(a[1]) == self.n.entry and 'Map' in callee.rpath:
            if m in ('get', 'get_mut'):
                self.event(st, 'find', deepread(sim, st, args[1]))
                s = st.copy()
                return [(st, some(E0)), (s, NONE)]
            if m == 'contains_key':
                s = st.copy()
                self.event(st, 'find', deepread(sim, st, args[1]))
                return [(st, TRUE), (s, FALSE)]
            if m in ('remove', 'remove_entry'):
                self.event(st, 'remove', deepread(sim, st, args[1]))
                e = mkentry(sim, st, self.n)
                return [(st, some(e if m == 'remove' else ('agg', '()', '', (args[1], e), ('0', '1'))))]
            if m == 'insert':
                self.event(st, 'insert', deepread(sim, st, args[1]), deepread(sim, st, args[2]))
                return [(st, NONE)]
            if m in FIND | DROP | PUT: self.event(st, 'other', m)
            return None
        if callee.trait and callee.trait.endswith('cmp::PartialOrd') and m in ('lt', 'le', 'gt', 'ge') or callee.trait and callee.trait.endswith('cmp::Ord') and m == 'cmp':
            x, y = (deepread(sim, st, v) for v in args[:2])
            if 'now' in (x[0], y[0]):
                v = ('cmp', m, x, y)
                self.event(st, 'compared', v)
                return [(st, v)]
        if callee.trait and callee.trait.endswith('ops::Add') and args[0][0] == 'now': return [(st, ('later', args[0], args[1]))]
        if callee.trait and callee.trait.endswith('cmp::PartialEq') and m in ('eq', 'ne'):
            k = next((cstr(deepread(sim, st, v)) for v in args[:2] if cstr(deepread(sim, st, v)) is not None), None)
            if k is not None:
                r = ('streq', k)
                return [(st, r if m == 'eq' else ('un', 'Not', r))]
        if m in ('remove', 'get', 'get_mut', 'contains_key') and 'Map' in callee.rpath and len(args) == 2:
            k = cstr(deepread(sim, st, args[1]))
            if k is not None:
                v = ('json', k)
                if m == 'contains_key': return [(st, ('has', k))]
                s = st.copy()
                self.event(st, 'got', k)
                self.event(s, 'missing', k)
                return [(st, some(v if m == 'remove' else ('ref', (obj(k), ())))), (s, NONE)]
        return None

    def on_branch(self, sim, st, cx, v, choice):
        if v[:1] == ('has',) and choice in ('0', '1', ('is', '0'), ('is', '1')): self.event(st, 'got' if '1' in choice else 'missing', v[1])

    def on_write(self, sim, st, cx, lv, val):
        if lv[0] == ENTRY:
            self.event(st, 'write', lv[1], deepread(sim, st, val), st.facts.get(('init', (ENTRY, (('f', self.n.value),)))))


def mkentry(sim, st, n):
    return ('agg', n.entry, '', tuple(sim.read(st, (ENTRY, (('f', f),))) for f in n.fields), tuple(n.fields))


class N:
    """The reply table, found by shape: a map from reply keys to an expiry and an optional value."""
    def __init__(self, p):
        self.key = one([a for a in p.adts if a.endswith('ExternReplyKey')], 'the reply key type')
        self.out = one([a for a in p.adts if a.endswith('OutgoingMessage')], 'the outgoing message type')
        self.inc = one([a for a in p.adts if a.endswith('IncomingMessage')], 'the incoming message type')
        self.entry = one([a for a in p.adts if a.endswith('ReplyEntry')], 'the reply table entry')
        fs = p.adts[self.entry]['vs'][0][2]
        self.fields = [f[0] for f in fs]
        self.value = one([f[0] for f in fs if f[1].startswith('core::option::Option<') or strip_ty(f[1]) == OPT], 'the stored reply')
        self.expiry = one([f[0] for f in fs if f[0] != self.value], 'the time a reply is waited for')


def one(xs, what):
    if len(xs) != 1: raise Missing(what)
    return xs[0]


def args_of(f): return tuple(('ref', (obj(f'a{i}'), ())) if f.locals[i + 1].startswith('&') else ('arg', i) for i in range(f.nargs))


def same_key(v, k): return strip(v) == strip(k) or flat(v) == flat(k)


def flat(v):
    """Without clones, anywhere inside."""
    if not isinstance(v, tuple): return v
    v = strip(v) if v and isinstance(v[0], str) else v
    return tuple(flat(x) for x in v)


def has_uuid(v): return mentions(v, lambda x: x[:1] == ('uuid',))


def sender(c, p, n):
    f = one([f for f in p.fns if f.trait and f.trait.endswith('runtime::System') and f.method == 'send_message' and not f.promoted], 'send_message of the standard system')
    rule = ReplyRule(p, n)
    sim = Sim(p, rule, 50000)
    ins = [f.locals[i + 1] for i in range(f.nargs)]
    bi = one([i for i, t in enumerate(ins) if t == 'bool'], 'whether a reply is expected')
    for expect in (False, True):
        args = list(args_of(f))
        args[bi] = TRUE if expect else FALSE
        for st, r in sim.run(f, tuple(args)):
            c.count('sent message paths')
            ev = [e for e in st.rs if e[0] != 'find']
            sends = [e for e in ev if e[0] == 'send']
            if len(sends) != 1: c.violation('send:count', f'a message is sent {len(sends)} times', f.loc()); continue
            m = flat(sends[0][1])
            if m[0] != 'agg': c.violation('send:message', 'what is sent cannot be read off', f.loc()); continue
            pay = dict(zip(m[4], m[3]))
            for i, t in enumerate(ins):
                if t.startswith('&') or i == bi: continue
                if ('arg', i) not in pay.values(): c.violation(f'send:content:{i}', 'a message is sent without something it was given', f.loc())
            ret = flat(r)
            inner = ret[3][0] if ret[0] == 'agg' and ret[2] == 'Ok' else None
            keyed = [(k, v) for k, v in pay.items() if has_uuid(v)]
            inserts = [e for e in ev if e[0] == 'insert']
            if any(e[0] in ('remove', 'write', 'other') for e in ev): c.violation('send:table', 'sending a message changes other entries of the reply table', f.loc())
            if not expect:
                if keyed or inserts or inner != NONE: c.violation('send:unasked', 'a message that expects no reply is registered for one', f.loc())
                continue
            if len(inserts) != 1: c.violation('send:unregistered', 'a message that expects a reply is not registered for it exactly once', f.loc()); continue
            if ev.index(inserts[0]) > ev.index(sends[0]): c.violation('send:order', 'a message is sent before it is registered for its reply', f.loc())
            key = flat(inserts[0][1])
            if not has_uuid(key): c.violation('send:fresh', 'the key a reply is registered under is not fresh', f.loc())
            if [v for k, v in keyed] != [key]: c.violation('send:key', 'a message does not carry the key its reply is registered under', f.loc())
            if inner != some(key): c.violation('send:returned', 'the sender does not get the key its reply is registered under', f.loc())
            e = fields_of(flat(inserts[0][2]))
            if e.get(n.value) != NONE: c.violation('send:empty', 'a reply is registered as already received', f.loc())
            x = e.get(n.expiry, TOP)
            if x[0] != 'later': c.violation('send:expiry', 'the wait for a reply does not end a fixed time after now', f.loc())
            elif positive(p, x[2]) is False: c.violation('send:timeout', 'the wait for a reply ends immediately', f.loc())
            c.count('registered messages')
    c.floor('registered messages', 1)
    return sim.visited_fns


def positive(p, v):
    nums = [x for x in subvalues(v) if x[:2] == ('c', 'i')]
    for x in subvalues(v):
        if x[:2] != ('c', 'def'): continue
        for f in p.fns:
            if f.path == x[2]: nums += [('c', 'i', o[1]['i']) for b in f.blocks if b.term[0] == 'call' for o in b.term[2] if o[0] == 'c' and 'i' in o[1]]
    if nums: return any(x[2] not in ('0', '-0') for x in nums)
    return None


def expired(st, n):
    """What the path knows about the deadline: passed, not passed, or nothing."""
    out = None
    for k, f in st.facts.items():
        if k[0] != 'sw' or k[1][0] != 'cmp' or f[0] != 'is': continue
        _, m, x, y = k[1]
        if m == 'cmp': continue
        now_first = x[0] == 'now'
        other = flat(y if now_first else x)
        if other != ('init', (ENTRY, (('f', n.expiry),))): continue
        truth = f[1] == '1'
        after = (m in ('gt', 'ge')) == now_first
        out = truth if after else not truth
    return out


def poller(c, p, n):
    f = one([f for f in p.fns if f.trait and f.trait.endswith('runtime::System') and f.method == 'poll_reply' and not f.promoted], 'poll_reply of the standard system')
    rule = ReplyRule(p, n)
    sim = Sim(p, rule, 50000)
    V = ('init', (ENTRY, (('f', n.value),)))
    got = set()
    ki = one([i for i in range(f.nargs) if f.locals[i + 1].endswith(n.key)], 'the polled key')
    for st, r in sim.run(f, args_of(f)):
        c.count('poll paths')
        r = flat(deepread(sim, st, r))
        rem = [e for e in st.rs if e[0] == 'remove']
        for e in st.rs:
            if e[0] in ('find', 'remove') and not mentions(e[1], lambda x: x == obj(f'a{ki}')): c.violation('poll:key', 'another entry than the one polled for is looked at', f.loc())
            if e[0] in ('insert', 'other', 'write', 'send') and not (e[0] == 'write' and len(rem) == 1): c.violation('poll:changes', 'polling for a reply changes the reply table', f.loc())
        fact = st.facts.get(V)
        if fact is None: fact = st.facts.get(('discr', V))
        state = fact[1] if fact and fact[0] == 'is' else 'None' if fact and fact[0] == 'not' and 'Some' in fact[1] else 'Some' if fact and fact[0] == 'not' and 'None' in fact[1] else None
        ex = expired(st, n)
        if r[0] != 'agg': c.violation('poll:outcome', 'what polling reports cannot be read off', f.loc()); continue
        if r[2] == 'Pending':
            got.add('Pending')
            if rem: c.violation('poll:lost', 'a reply that is still awaited is no longer registered', f.loc())
            if state != 'None': c.violation('poll:withheld', 'a reply that has arrived is not delivered', f.loc())
            if ex is not False: c.violation('poll:forever', 'the wait for a reply does not end when its time is over', f.loc())
        elif r[2] == 'Completed':
            x = r[3][0]
            if len(rem) != 1: c.violation('poll:kept', f'a delivered reply is removed from the table {len(rem)} times', f.loc())
            whole = x == V or x[0] == 'agg' and x[2] == 'Some' and x[3][0] == ('init', (ENTRY, (('f', n.value), ('v', 'Some'), ('f', '0'))))
            if x == NONE:
                got.add('None')
                if state != 'None': c.violation('poll:dropped', 'a reply that has arrived may be reported as a timeout', f.loc())
                if ex is not True: c.violation('poll:early', 'a timeout is reported before its time', f.loc())
            elif whole:
                got.add('Some')
                if state != 'Some' and ex is not True: c.violation('poll:early', 'a timeout is reported before its time', f.loc())
                if x == V and state != 'Some': got.add('None')
            else: c.violation('poll:value', 'the reply that is delivered is not the one that arrived', f.loc())
        else: c.violation('poll:outcome', f'polling reports {r[2]}', f.loc())
    for k in {'Pending', 'None', 'Some'} - got: c.violation(f'poll:never:{k}', 'a reply is never awaited, delivered or timed out', f.loc())
    c.floor('poll paths', 3)
    return sim.visited_fns


def receiver(c, p, n, known):
    """Everything else that touches the table may only fill in the first reply."""
    users = [f for f in p.fns if not f.promoted and f.id not in known and any(not f.blocks[bi].cleanup and cl.args and strip_ty(cl.args[0]) == n.key and len(cl.args) > 1 and strip_ty(cl.args[1]) == n.entry and cl.method in FIND | DROP | PUT for bi, cl in f.callees.items())]
    if not users: c.violation('receive:never', 'replies are never stored', ''); return
    stored = 0
    for f in users:
        rule = ReplyRule(p, n)
        sim = Sim(p, rule, 400000)
        for st, r in sim.run(f, args_of(f)):
            c.count('reception paths')
            for e in st.rs:
                if e[0] in ('insert', 'remove', 'other'): c.violation('receive:table', 'entries of the reply table are added or removed where replies are received', f.loc())
            writes = [e for e in st.rs if e[0] == 'write']
            finds = [e for e in st.rs if e[0] == 'find']
            for e in finds:
                if not mentions(e[1], lambda x: x[:1] == ('json',)): c.violation('receive:key', 'a reply is not matched by the key it carries', f.loc())
            for e in writes:
                if e[1] != (('f', n.value),): c.violation('receive:field', 'receiving a reply changes more than the reply', f.loc()); continue
                if e[3] != ('is', 'None'): c.violation('receive:again', 'a later reply may replace an earlier one', f.loc())
                v = flat(e[2])
                js = {x for x in subvalues(v) if x[:1] == ('json',)}
                ks = {x for w in finds for x in subvalues(w[1]) if x[:1] == ('json',)}
                if v[0] != 'agg' or v[2] != 'Some' or len(js) != 1 or js & ks: c.violation('receive:value', 'what is stored is not the reply', f.loc())
                stored += 1
            if len(writes) > 1: c.violation('receive:twice', 'a reply is stored twice', f.loc())
            fact = st.facts.get(('init', (ENTRY, (('f', n.value),))))
            if finds and not writes and fact == ('is', 'None'): c.violation('receive:lost', 'the first reply to a waiting message is not stored', f.loc())
            if finds and any(e[0] == 'deliver' for e in st.rs): c.violation('receive:both', 'a reply is also delivered as a message', f.loc())
            for e in st.rs:
                if e[0] == 'deliver': incoming(c, p, n, f, st, e[1])
    c.count('stored replies', stored)
    c.floor('stored replies', 1)


def incoming(c, p, n, f, st, m):
    """A message from the network is delivered with its own content and with the key to answer it when it asks for an answer."""
    c.count('delivered messages')
    m = flat(m)
    if m[0] != 'agg': c.violation('deliver:message', 'the message that is delivered cannot be read off', f.loc()); return
    js = lambda v: {x[1] for x in subvalues(v) if x[:1] == ('json',)}
    v = fields_of(m)
    kf = one([fl for fl, t, _ in p.adts[n.inc]['vs'][0][2] if 'ReplyKey' in t], 'the reply key of a message')
    for fl, x in v.items():
        if fl == kf: continue
        want = 'msgType' if strip_ty(dict(p.fields(n.inc))[fl]).endswith('CompactString') else 'content'
        if js(x) != {want}: c.violation(f'deliver:{fl}', f'the {fl} of a delivered message is not the one that came from the network', f.loc())
    key, asks = v[kf], [e[0] for e in st.rs if e[0] in ('got', 'missing') and e[1] == 'requestId']
    if key == NONE:
        if 'got' in asks or not asks: c.violation('deliver:unanswerable', 'a message that asks for a reply is delivered without the key to answer it', f.loc())
    elif key[0] == 'agg' and key[2] == 'Some' and key[3][0][0] == 'agg':
        k = fields_of(key[3][0])
        for fl, j in (('request_id', 'requestId'), ('src_id', 'srcId')):
            if fl in k and js(k[fl]) != {j}: c.violation(f'deliver:{fl}', 'a reply would go to somebody else than the sender of the message', f.loc())
    else: c.violation('deliver:key', 'the key of a delivered message cannot be read off', f.loc())


class WireRule(ReplyRule):
    """The loop that writes outgoing messages to the network."""
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, a = callee.method, callee.args
        base = strip_ty(a[0]) if a else ''
        if m in ('recv', 'try_recv', 'recv_timeout', 'next') and base == self.n.out and not callee.local:
            self.done(sim, st, cx)
            st.rs = ()
            out = []
            for v in self.prog.variants(self.n.out):
                s = st.copy()
                s.rs = (('msg', v),)
                x = mkvariant(self.prog, self.n.out, v)
                out.append((s, ok(x)))
            st.rs = ()
            return out + [(st, err(('none',)))]
        if m == 'insert' and 'serde_json' in callee.rpath and len(args) == 3:
            k = next((y[2] for y in subvalues(deepread(sim, st, args[1], -6)) if y[:2] == ('c', 's')), None)
            self.event(st, 'put', k, deepread(sim, st, args[2]))
            return [(st, NONE)]
        if m == 'to_value' and args: return [(st, ok(('json-of', deepread(sim, st, args[0]))))]
        if m == 'send' and 'async_channel' in callee.rpath:
            self.event(st, 'wire')
            return None
        if callee.local and self.prog.by_id.get(callee.local) is not None:
            return [(st, ('via', tuple(deepread(sim, st, x) for x in args)))]
        if m == 'new' and not args and 'serde_json' in callee.rpath: return [(st, ('map',))]
        return None

    def on_exit(self, sim, st, cx, fn, ret):
        if len(cx.stack) == 1: self.done(sim, st, cx)

    def narrow(self, sim, st):
        keep = {k: v for k, v in st.store.items() if v[0] in ('clo', 'ref', 'c') or mentions(v, lambda x: x[:1] == ('fld',))}
        st.store = keep
        st.facts = {}

    def done(self, sim, st, cx):
        v = next((e[1] for e in st.rs if e[0] == 'msg'), None)
        if v is None: return
        self.seen.setdefault(v, set()).add((tuple(e for e in st.rs if e[0] == 'put'), sum(1 for e in st.rs if e[0] == 'wire'), cx.loc))


def replier(c, p, n):
    """The answer a script gives goes out once, with its value, to the key of the message it answers."""
    f = one([f for f in p.fns if f.trait and f.trait.endswith('runtime::System') and f.method == 'send_reply' and not f.promoted], 'send_reply of the standard system')
    sim = Sim(p, ReplyRule(p, n), 20000)
    for st, r in sim.run(f, args_of(f)):
        c.count('reply paths')
        sends = [e for e in st.rs if e[0] == 'send']
        if len(sends) != 1: c.violation('reply:count', f'an answer is sent {len(sends)} times', f.loc()); continue
        m = flat(sends[0][1])
        for i in range(f.nargs):
            if not f.locals[i + 1].startswith('&') and (m[0] != 'agg' or ('arg', i) not in m[3]): c.violation(f'reply:{i}', 'an answer goes out without its value or its key', f.loc())
    c.floor('reply paths', 1)


def wire(c, p, n):
    loops = [f for f in p.fns if not f.promoted and any(not f.blocks[bi].cleanup and cl.args and strip_ty(cl.args[0]) == n.out and cl.method in ('recv', 'try_recv', 'recv_timeout') and not cl.local for bi, cl in f.callees.items())]
    if not loops: c.violation('wire:never', 'outgoing messages are never taken out of their queue', ''); return
    for f in loops:
        rule = WireRule(p, n)
        rule.seen = {}
        sim = Sim(p, rule, 400000)
        sim.run(f, args_of(f))
        for v in p.variants(n.out):
            for puts, k, loc in sorted(rule.seen.get(v, ()), key=str):
                c.count('wire paths')
                if k != 1: c.violation(f'wire:{v}:count', f'a message taken out of the queue goes to the network {k} times', f.loc()); continue
                fields = {fl for fl, t, _ in next(x for x in p.adts[n.out]['vs'] if x[0] == v)[2]}
                used = {y[1]: k for _, k, val in puts for y in subvalues(val) if y[:1] == ('fld',)}
                for fl in fields - set(used): c.violation(f'wire:{v}:{fl}', f'the {fl} of a message does not reach the network', f.loc())
                keyf = [fl for fl, t, _ in next(x for x in p.adts[n.out]['vs'] if x[0] == v)[2] if 'ReplyKey' in t]
                req = [val for _, k, val in puts if k == 'requestId']
                if bool(req) != bool(keyf): c.violation(f'wire:{v}:request', 'the network is not told correctly whether a message awaits or answers a reply', f.loc())
                for val in req:
                    if not mentions(val, lambda x: x == ('f', 'request_id') or x[:1] == ('fld',)): c.violation(f'wire:{v}:request', 'a message goes out under another key than its own', f.loc())
                for key, fl in (('dstId', ('targets', 'reply_key')), ('msgType', ('msg_type',)), ('content', ('values',))):
                    want = [x for x in fl if x in fields]
                    if not want: continue
                    val = [x for _, k, x in puts if k == key]
                    if len(val) != 1 or not mentions(val[0], lambda x: x[:1] == ('fld',) and x[1] in want): c.violation(f'wire:{v}:{key}', f'the {key} of a message on the network is not its {want[0]}', f.loc())
        for v in set(p.variants(n.out)) - set(rule.seen): c.violation(f'wire:{v}:never', 'a kind of message never reaches the network', f.loc())
    c.floor('wire paths', 3)


def check(c):
    c.rule('sending registers a fresh key with an empty entry and a deadline before the message carrying that key goes out, exactly when a reply is expected')
    c.rule('polling delivers and removes a reply that has arrived, reports and removes a timeout only after the deadline, and otherwise leaves the entry waiting')
    c.rule('every queued message reaches the network once with its own fields, and a message from the network is delivered with the key that answers it')
    c.rule('everything else that touches the reply table only fills in a missing reply under the key the reply carries')
    p = c.p
    n = N(p)
    known = sender(c, p, n) | poller(c, p, n)
    receiver(c, p, n, known)
    replier(c, p, n)
    wire(c, p, n)
    c.floor('delivered messages', 1)
    c.assume('random keys do not collide; a process that is destroyed while waiting leaves its entry behind')

"""P34: a rejected project or request leaves the execution server unchanged."""
from h import *
from p32 import flat, cstr, one, args_of

ENV, OPENED, OPENERR, ENVERR, TEXT = ('env',), ('opened',), ('openerr',), ('enverr',), ('text',)


def norm(t): return strip_ty(t)


class ServerRule(Plain):
    """What one turn of the execution loop does with the command it received."""
    def __init__(self, prog, cmd):
        super().__init__(prog)
        self.cmd = cmd
        self.turns = {}
        self.ends = set()

    def inline(self, sim, fn): return fn.kind == 'Closure'

    def event(self, st, *e):
        i = max([i for i, x in enumerate(st.rs) if x == ('rejected',)], default=0)
        if e not in st.rs[i:] or e[0] in ('open', 'env', 'input'): st.rs = st.rs + (e,)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, a = callee.method, callee.args
        if m in ('unwrap', 'expect') and args and any(e[0] == 'cmd' for e in st.rs) and args[0] in (err(OPENERR), err(ENVERR)):
            self.ends.add(next(e[1] for e in st.rs if e[0] == 'cmd'))
            return []
        if m in ('recv', 'try_recv', 'recv_timeout') and a and norm(a[0]) == self.cmd and not callee.local:
            self.done(sim, st, cx)
            out = []
            for v in self.prog.variants(self.cmd):
                s = st.copy()
                s.rs = (('cmd', v),)
                out.append((s, ok(mkvariant(self.prog, self.cmd, v))))
            st.rs = ()
            return out + [(st, err(('none',)))]
        if callee.local:
            f = self.prog.by_id.get(callee.local)
            if f is None: return None
            if f.method == 'open_project' or f.path.endswith('::open_project'):
                self.event(st, 'open', deepread(sim, st, args[0]))
                s = st.copy()
                self.event(s, 'rejected')
                mine = any(e[0] == 'cmd' for e in st.rs)
                return [(st, ok(('agg', '()', '', (('projname',), OPENED + (mine,)), ('0', '1')))), (s, err(OPENERR))]
            if f.path.endswith('::get_env'):
                self.event(st, 'env', deepread(sim, st, args[0]))
                s = st.copy()
                self.event(s, 'rejected')
                k = sum(1 for e in st.rs if e[0] == 'env') if any(e[0] == 'cmd' for e in st.rs) else 0
                return [(st, ok(ENV + (bool(k),))), (s, err(ENVERR))]
            if f.method == 'input' and f.selfadt and f.selfadt.endswith('Project'):
                self.event(st, 'input', flat(deepread(sim, st, args[-1])))
                return [(st, UNIT)]
            if f.kind != 'Closure': return None
        if m in ('mutate', 'mutate_root') and len(args) == 2: return [(s, ('call', m, site)) for s, _ in sim.invoke(st, cx, args[1], (TOP, ('mc',), ('ref', (obj('root'), ())))[-2:], site)]
        if m == 'lock' and 'Mutex' in callee.rpath:
            return [(st, ok(('guard', sim.deref(args[0]))))]
        if m in ('deref', 'deref_mut') and a and 'MutexGuard' in (callee.implty or '') + callee.rpath:
            g = sim.read(st, sim.deref(args[0]))
            if g[0] == 'guard': return [(st, ('ref', g[1]))]
        if m == 'upgrade':
            s = st.copy()
            self.event(s, 'gone')
            return [(st, some(('state',))), (s, NONE)]
        if m in ('_print', '_eprint'): self.event(st, 'print'); return [(st, UNIT)]
        if 'atomic' in callee.rpath and (m in ('store', 'swap') or m.startswith(('fetch_', 'compare_'))):
            self.event(st, 'flag', str(args[1:2]))
            return None
        if args and args[0][0] == 'ref':
            fl = self.guarded(args[0][1])
            if fl and m in ('push', 'push_str', 'push_back', 'insert', 'extend', 'write_str'):
                self.event(st, 'note', fl)
                return [(st, UNIT)]
            if fl and m in ('clone_from', 'replace', 'swap', 'clear', 'take', 'truncate', 'insert_str', 'replace_range'):
                self.event(st, 'stored', fl, flat(deepread(sim, st, args[1])) if m in ('clone_from', 'replace') else ('?',))
                return None
        return None

    def guarded(self, lv):
        return next((x[1] for x in reversed(lv[1]) if x[0] == 'f'), None) if lv[0][0] == 'V' else None

    def on_write(self, sim, st, cx, lv, val):
        fl = self.guarded(lv)
        if fl and flat(val)[0] != 'agg': self.event(st, 'stored', fl, flat(val))

    def narrow(self, sim, st):
        st.store = {k: v for k, v in st.store.items() if v[0] in ('clo', 'ref', 'c', 'guard') or mentions(v, lambda x: x[:1] in (('fld',), ENV, OPENED, OPENERR, ENVERR, ('state',), ('guard',)))}
        st.facts = {}

    def done(self, sim, st, cx):
        v = next((e[1] for e in st.rs if e[0] == 'cmd'), None)
        cur = [k for k, x in st.store.items() if x == ENV + (True,)]
        if v is not None: self.turns.setdefault(v, set()).add((st.rs[1:], bool(cur)))
        # from here on it is the running project
        for k in cur: st.store[k] = ENV + (False,)

    def on_exit(self, sim, st, cx, fn, ret):
        if len(cx.stack) != 1: return
        v = next((e[1] for e in st.rs if e[0] == 'cmd'), None)
        if v is not None: self.ends.add(v)
        self.done(sim, st, cx)


def loop(c, p, cmd):
    fs = [f for f in p.fns if not f.promoted and any(not f.blocks[bi].cleanup and cl.args and norm(cl.args[0]) == cmd and cl.method in ('recv', 'try_recv', 'recv_timeout') and not cl.local for bi, cl in f.callees.items())]
    if not fs: raise Missing('the execution loop of the server')
    payty = {v[0]: strip_ty(v[2][0][1]) for v in p.adts[cmd]['vs'] if v[2]}
    PAY = ('fld', '0')
    stored = set()
    for f in fs:
        rule = ServerRule(p, cmd)
        sim = Sim(p, rule, 600000)
        sim.run(f, args_of(f))
        for v in sorted(rule.ends): c.violation(f'{v}:ends', f'the server stops on {v}', f.loc())
        for v in p.variants(cmd):
            if v not in rule.turns: c.violation(f'{v}:never', f'the server never acts on {v}', f.loc()); continue
            for ev, installed in sorted(rule.turns[v], key=str):
                c.count('turns of the execution loop')
                names = [e[0] for e in ev]
                inputs, stores = [e for e in ev if e[0] == 'input'], [e for e in ev if e[0] == 'stored']
                rejected = 'rejected' in names
                if payty.get(v, '').endswith('Input'):
                    if [e[1] for e in inputs] != [PAY]: c.violation(f'{v}:forward', f'an input the server accepted reaches the project {len(inputs)} times', f.loc())
                    if installed or stores: c.violation(f'{v}:project', 'an input replaces the project', f.loc())
                    continue
                if inputs: c.violation(f'{v}:input', 'uploading a project gives it an input nobody sent', f.loc())
                opens, envs = [e for e in ev if e[0] == 'open'], [e for e in ev if e[0] == 'env']
                if len(opens) != 1 or flat(opens[0][1]) not in (PAY, ('init', (('V', ('deref', PAY)), ()))): c.violation(f'{v}:open', 'what was uploaded is not what is opened', f.loc()); continue
                if not rejected:
                    if [e[1] for e in envs] != [OPENED + (True,)] or not installed: c.violation(f'{v}:ignored', 'an uploaded project that loads does not become the running project', f.loc())
                    if [e[2] for e in stores] != [PAY]: c.violation(f'{v}:served', 'an uploaded project that loads does not become the one served for download', f.loc())
                    stored |= {e[1] for e in stores}
                    c.count('accepted uploads')
                else:
                    if 'flag' in names: c.violation(f'{v}:flag', 'an uploaded project that does not load changes whether the running one goes on', f.loc())
                    if installed: c.violation(f'{v}:installed', 'an uploaded project that does not load replaces the running one', f.loc())
                    if stores: c.violation(f'{v}:kept', 'an uploaded project that does not load replaces the one served for download', f.loc())
                    tail = ev[names.index('rejected') + 1:]
                    if not any(e[0] == 'note' for e in tail) and ('gone',) not in tail: c.violation(f'{v}:silent', 'an uploaded project that does not load is not reported to the client', f.loc())
                    if not any(e[0] in ('print', 'note') for e in tail): c.violation(f'{v}:silent', 'an uploaded project that does not load is not reported', f.loc())
                    c.count('rejected uploads')
    c.floor('accepted uploads', 1)
    c.floor('rejected uploads', 3)
    return stored


class WebRule(ServerRule):
    """One request handler of the server."""
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, a = callee.method, callee.args
        if m in ('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked'):
            if m != 'from_utf8': return [(st, TEXT)]
            s = st.copy()
            self.event(s, 'malformed')
            return [(st, ok(TEXT)), (s, err(('utf8err',)))]
        if m == 'send' and a and norm(a[0]) == self.cmd:
            st.rs = st.rs + (('send', flat(deepread(sim, st, args[1]))),)
            return [(st, ok(UNIT))]
        if callee.trait and callee.trait.endswith('cmp::PartialEq') and m in ('eq', 'ne'):
            k = next((cstr(deepread(sim, st, v)) for v in args[:2] if cstr(deepread(sim, st, v)) is not None), None)
            other = next((y for y in (flat(deepread(sim, st, v)) for v in args[:2]) if cstr(y) is None), ('?',))
            if other not in (TEXT, ('init', (('V', ('deref', TEXT)), ()))): k = None
            if k is not None: return [(st, ('streq', k) if m == 'eq' else ('un', 'Not', ('streq', k)))]
        if 'HttpResponse' in callee.rpath and 'Builder' not in callee.rpath and (not args or m == 'build'):
            st.rs = st.rs + (('answer', m if m != 'build' else str(args)),)
            return [(st, ('response', m))]
        if m in ('body', 'json', 'finish') and args and deepread(sim, st, args[0])[:1] == ('response',):
            if m == 'body': st.rs = st.rs + (('body', flat(deepread(sim, st, args[1]))),)
            return [(st, ('response', m))]
        if args and m in ('content_type', 'append_header', 'insert_header', 'status') :
            r = deepread(sim, st, args[0])
            if r[:1] == ('response',): return [(st, args[0])]
        if m in ('as_str', 'as_ref', 'deref', 'borrow') and args and deepread(sim, st, args[0]) == TEXT: return [(st, ('ref', (('V', ('deref', TEXT)), ())))]
        if m in ('to_string', 'to_vec', 'to_string_pretty', 'to_value') and 'serde_json' in callee.rpath: return [(st, ok(('json-of', deepread(sim, st, args[0]))))]
        if m == 'take' and callee.rpath.startswith('core::mem') and args and args[0][0] == 'ref':
            fl = self.guarded(args[0][1])
            if fl:
                v = ('taken', fl)
                self.event(st, 'taken', fl)
                return [(st, v)]
        return super().on_call(sim, st, cx, callee, args, site)

    def on_branch(self, sim, st, cx, v, choice):
        if v[:1] == ('streq',) and (choice == '1' or choice == ('is', '1')): st.rs = st.rs + (('text', v[1]),)

    def narrow(self, sim, st): pass
    def on_exit(self, sim, st, cx, fn, ret): pass


def web(c, p, cmd, stored):
    """Every request handler: the answer says accepted exactly when one command went to the execution loop."""
    sent, served = set(), 0
    home = cmd.rsplit('::', 1)[0]
    hs = [f for f in p.fns if not f.promoted and f.path.lstrip('<').startswith(home) and any(not f.blocks[bi].cleanup and 'HttpResponse' in cl.rpath for bi, cl in f.callees.items())]
    payty = {v[0]: strip_ty(v[2][0][1]) for v in p.adts[cmd]['vs'] if v[2]}
    for f in hs:
        rule = WebRule(p, cmd)
        sim = Sim(p, rule, 100000)
        out = sim.run(f, args_of(f))
        name = next((x for x in reversed(f.path.split('::')) if not x.startswith('{')), f.path)
        c.count('request handlers')
        bad = False
        for st, r in out:
            c.count('request paths')
            ev = st.rs
            ans, sends = [e[1] for e in ev if e[0] == 'answer'], [e[1] for e in ev if e[0] == 'send']
            if len(ans) != 1: c.violation(f'{name}:answers', f'a request is answered {len(ans)} times', f.loc()); continue
            okay = ans[0] in ('Ok', 'Accepted', 'Created', 'NoContent')
            malformed = ('malformed',) in ev
            if any(e[0] == 'stored' and e[1] in stored for e in ev): c.violation(f'{name}:changes', 'a request changes the project that is served', f.loc())
            takes = {e[1] for e in ev if e[0] == 'taken'}
            body = [e[1] for e in ev if e[0] == 'body']
            for t in takes:
                if not any(mentions(b, lambda x: x == ('taken', t) or x[:1] == ('agg',) and ('taken', t) in x[3]) for b in body) or any(mentions(b, lambda x: x[:1] == ('call',) and ('taken', t) in subvalues(x)) for b in body): c.violation(f'{name}:lost', f'the {t} of the project are taken away without being reported', f.loc())
            for b in body:
                if any(mentions(b, lambda x: x[:1] == ('f',) and len(x) == 2 and x[1] == s) for s in stored): served += 1
            if malformed:
                bad = True
                if okay or sends or any(e[0] in ('flag', 'stored', 'taken') for e in ev): c.violation(f'{name}:malformed', 'a request that is not valid text is accepted', f.loc())
                continue
            if not okay and (sends or any(e[0] in ('flag', 'stored', 'taken') for e in ev)): c.violation(f'{name}:refused', 'a request that is refused takes effect', f.loc())
            if not okay: c.count('refused requests')
            if not okay: continue
            if rule_sends(f, p, cmd):
                if len(sends) != 1: c.violation(f'{name}:forward', f'an accepted request reaches the execution loop {len(sends)} times', f.loc()); continue
                m = sends[0]
                if m[0] != 'agg': c.violation(f'{name}:command', 'what is sent to the execution loop cannot be read off', f.loc()); continue
                sent.add(m[2])
                if payty[m[2]].endswith('Input'):
                    txt = [e[1] for e in ev if e[0] == 'text']
                    x = m[3][0]
                    if x[0] != 'agg' or [t.lower() for t in txt] != [x[2].lower()]: c.violation(f'{name}:input', f'the input {txt} is forwarded as {x[2] if x[0] == "agg" else "?"}', f.loc())
                    c.count('accepted inputs')
                elif m[3][0] != TEXT: c.violation(f'{name}:content', 'an uploaded project is forwarded changed', f.loc())
                else: c.count('accepted projects')
        if any(cl.method == 'from_utf8' and not f.blocks[bi].cleanup for bi, cl in f.callees.items()) and not bad: c.violation(f'{name}:crash', 'a request that is not valid text is not answered', f.loc())
    for v in set(p.variants(cmd)) - sent: c.violation(f'{v}:unsent', f'no request leads to {v}', '')
    if not served: c.violation('download', 'the project that was accepted is not the one served for download', '')
    c.floor('request handlers', 5)
    c.floor('accepted inputs', 2)
    c.floor('accepted projects', 1)
    c.floor('refused requests', 1)


def turns(c, p, cmd):
    """Whatever the running project is doing, every turn of the execution loop looks for commands."""
    takes = {f.id for f in p.fns if any(not f.blocks[bi].cleanup and cl.args and norm(cl.args[0]) == cmd and cl.method in ('recv', 'try_recv', 'recv_timeout', 'try_iter', 'iter') and not cl.local for bi, cl in f.callees.items())}
    steps = {f.id for f in p.fns if f.method == 'step' and f.selfadt and f.selfadt.endswith('Project')}
    over = lambda seeds: {f.id for f in p.fns if f.id in seeds or (set(p.reach([f.id])) & seeds)}
    takers, steppers = over(takes), over(steps)
    for f in p.fns:
        if f.id not in takers or f.promoted or not f.path.startswith('cli::'): continue
        def touches(bi, ids, ext):
            cl = f.callees.get(bi)
            if cl is not None and (cl.local in ids or ext(cl)): return True
            t = f.blocks[bi].term
            if any(s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], dict) and s[2][1].get('l') in ids for s in f.blocks[bi].stmts): return True
            return False
        recv = {bi for bi in f.reachable if touches(bi, takers, lambda cl: cl.args and norm(cl.args[0]) == cmd and cl.method in ('recv', 'try_recv', 'recv_timeout', 'try_iter', 'iter'))}
        work = {bi for bi in f.reachable if touches(bi, steppers, lambda cl: cl.method in ('sleep', 'load', 'trigger', 'consume'))}
        if not recv or not work: continue
        c.count('execution loops')
        live = {bi for bi in f.reachable if bi not in recv and not f.blocks[bi].cleanup}
        for comp in sccs(f, live):
            if any(f.callees.get(bi) is not None and (f.callees[bi].trait or '').endswith('Iterator') and f.callees[bi].method == 'next' for bi in comp): continue
            if comp & work: c.violation('turn:deaf', 'the execution loop can go on without looking at what was sent to it', f.loc())
    c.floor('execution loops', 1)


def sccs(f, live):
    out = []
    for b in sorted(live):
        fw, todo = set(), [b]
        while todo:
            for y in f.succ(todo.pop()):
                if y in live and y not in fw: fw.add(y); todo.append(y)
        if b in fw and not any(b in o for o in out):
            bw = {x for x in fw if b in reach1(f, x, live)}
            out.append(bw | {b})
    return out


def reach1(f, b, live):
    fw, todo = set(), [b]
    while todo:
        for y in f.succ(todo.pop()):
            if y in live and y not in fw: fw.add(y); todo.append(y)
    return fw


def rule_sends(f, p, cmd):
    return any(cl.args and norm(cl.args[0]) == cmd and cl.method == 'send' and not f.blocks[bi].cleanup for bi, cl in f.callees.items())


def services(c, p, cmd):
    """Every request handler is registered with the server."""
    home = cmd.rsplit('::', 1)[0]
    made = {f.selfadt for f in p.fns if f.trait and f.trait.endswith('HttpServiceFactory') and f.path.lstrip('<').startswith(home)}
    used = {strip_ty(cl.args[-1]) for f in p.fns if f.path.lstrip('<').startswith(home) for bi, cl in f.callees.items() if cl.method == 'service' and cl.args and not f.blocks[bi].cleanup}
    for a in sorted(made):
        c.count('registered handlers')
        if not any(a and a in str(cl.args) for f in p.fns if f.path.lstrip('<').startswith(home) for bi, cl in f.callees.items() if cl.method == 'service' and not f.blocks[bi].cleanup): c.violation(f'{a.rsplit("::", 1)[-1]}:unregistered', 'a request handler is not registered with the server', '')
    c.floor('registered handlers', 5)


def start(c, p, cmd, stored):
    """The project served before anything is uploaded is the one that runs."""
    f = next(f for f in p.fns if not f.promoted and any(cl.method in ('try_recv', 'recv') and cl.args and norm(cl.args[0]) == cmd for cl in f.callees.values()))
    aggs, opens = set(), set()

    class R(ServerRule):
        def on_agg(self, sim, st, cx, val):
            for fl, x in fields_of(val).items():
                if fl in stored: aggs.add(next((y for y in subvalues(flat(x)) if y[:2] in (('c', 's'), ('c', 'def'))), ('?',)))

        def on_call(self, sim, st, cx, callee, args, site):
            if callee is not None and callee.local and callee.rpath.endswith('open_project') and not any(e[0] == 'cmd' for e in st.rs): opens.add(next((y for y in subvalues(args[0]) if y[:2] in (('c', 's'), ('c', 'def'))), ('?',)))
            return super().on_call(sim, st, cx, callee, args, site)
    sim = Sim(p, R(p, cmd), 600000)
    sim.run(f, args_of(f))
    c.count('initial projects', len(opens))
    if aggs != opens or ('?',) in aggs or len(aggs) != 1: c.violation('initial', 'the project served at first is not the one that runs', f.loc())
    c.floor('initial projects', 1)


def check(c):
    c.rule('each turn of the execution loop either opens, compiles, installs and serves the uploaded project, or leaves both alone and reports why; each input reaches the project once')
    c.rule('each request handler answers on every path, forwards exactly one matching command when it accepts, and none when it refuses; handlers are all registered')
    c.rule('no way round the execution loop leaves out looking for commands; refused requests change neither the run state nor what is stored')
    p = c.p
    cmd = one([a for a, d in p.adts.items() if a.startswith('cli::') and {strip_ty(v[2][0][1]) for v in d['vs'] if len(v[2]) == 1} >= {'std::string::String', 'project::Input'} and len(d['vs']) <= 6], 'the commands of the execution server')
    stored = loop(c, p, cmd)
    web(c, p, cmd, stored)
    services(c, p, cmd)
    turns(c, p, cmd)
    start(c, p, cmd, stored)

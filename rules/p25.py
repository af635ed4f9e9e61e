"""P25: a queued start of a script runs as soon as the script is free."""
from sched import *
from base import Missing

# trigger -> how many starts may wait behind a running one; whether it replaces the running one
TRIGGERS = {
    'input Start': (0, True), 'input KeyDown': (0, False), 'input CustomEvent': ('max_queue', 'interrupt'),
    'network': ('unbounded', False), 'Broadcast': (0, True), 'CreatedClone': (0, None),
}


def trigger(p, label, st, push):
    """What made a start be scheduled."""
    if label.startswith('input'): return label
    i = st.rs.index(push)
    j = index_of(st, 'step')
    if j < 0 or i < j: return 'network'
    return case(p, st)[1] if len(case(p, st)) > 1 else '?'


def norm_len(e):
    """('len', op, a, b, truth) -> (max, over?)"""
    _, op, a, b, t = e
    if op == 'Gt' and a[0] == 'ctxlen': return b, t
    if op == 'Le' and a[0] == 'ctxlen': return b, not t
    if op == 'Lt' and b[0] == 'ctxlen': return a, t
    if op == 'Ge' and b[0] == 'ctxlen': return a, not t
    if op == 'Ne' and a[0] == 'ctxlen' and b[:3] == ('c', 'i', '0'): return b, t
    if op == 'Eq' and a[0] == 'ctxlen' and b[:3] == ('c', 'i', '0'): return b, not t
    return None, None


def maxof(v):
    if v is None: return '?'
    if v[0] == 'c' and v[1] == 'i': return int(v[2]) if int(v[2]) < 2**31 else 'unbounded'
    if v[0] == 'c' and v[1] == 'def' and v[2].endswith('usize>::MAX'): return 'unbounded'
    if v == ('fld', 'max_queue'): return 'max_queue'
    return repr(v)[:60]


class FrameRule(Plain):
    def on_agg(self, sim, st, cx, val):
        if val[0] == 'agg' and val[1].endswith('CallFrame'): st.rs = st.rs + (val,)


def check(c):
    p = c.p
    fn = selfarg_fn(p, 'project::Project', 'step')
    src = fn.loc()
    tr = all_traces(p)
    n = tr[0][2].n
    # ---- starting a queued context
    c.rule('a script without a live process takes its oldest queued start and runs it with exactly the queued context, sprite and entry point; one with a live process leaves its queue alone')
    f, rule, sim, ex = consume_unit(p)
    S = (obj('script'), ())
    proc = ('init', (obj('script'), (('f', n.f_process),)))
    A, B = Ctx4(p, n.ctx), Ctx4(p, 'process::ProcContext')
    f_ent = by_type(p, 'process::ProcContext', 'Entity<')
    f_glob = by_type(p, 'process::ProcContext', 'GlobalContext<')
    f_pos = by_type(p, 'process::ProcContext', 'usize')
    for st, ret in ex:
        R = st.rs
        busy = any(e[0] == 'alive' and e[2] for e in R)
        free = any(e[0] == 'alive' and not e[2] for e in R) or st.facts.get(proc) == ('is', 'None')
        pops = evs(st, 'ctxpop')
        c.count('start paths')
        for e in evs(st, 'alive'):
            if e[1] != ('init', (obj('script'), (('f', n.f_process), ('v', 'Some'), ('f', '0')))): c.violation('whose', 'whether a script is free is judged by another process', f.loc())
        if busy:
            if pops or evs(st, 'insert', 'setproc', 'ctxclear'): c.violation('busy', 'a queued start is taken although the script is still running', f.loc())
            continue
        if not free: c.violation('unknown', 'a queued start is handled without looking at whether the script is running', f.loc()); continue
        if not pops: c.violation('idle', 'a free script does not look at its queued starts', f.loc()); continue
        if pops[0][1] != S or pops[0][2] != 'pop_front' or len(pops) > 1: c.violation('order', 'queued starts are not taken oldest first', f.loc())
        if not pops[0][3]: continue
        ins = evs(st, 'insert')
        if len(ins) != 1 or ins[0][2][0] != 'proc' or ins[0][2][1][0] != 'agg': c.violation('lost', 'a queued start is taken without starting a process', f.loc()); continue
        v = fields_of(ins[0][2][1])
        q = ('queued', S, pops[0][2])
        c.count('started contexts')
        for k in Ctx4.KINDS:
            if strip(v.get(getattr(B, k), ('?',))) != ('p', q, ('f', getattr(A, k))): c.violation(f'context:{k}', f'a started script does not get the queued {k}', f.loc())
        if strip(v[f_ent]) != ('init', (obj('script'), (('f', n.f_entity),))): c.violation('context:sprite', 'a started script runs on another sprite than its own', f.loc())
        if not mentions(v[f_pos], lambda x: x == ('init', (obj('script'), (('f', n.f_event),)))) or not (strip(v[f_pos])[0] == 'init' and strip(v[f_pos])[1][1] == (('f', '1'),)): c.violation('context:pos', 'a started script does not begin at its entry point', f.loc())
    # ---- the context a process is made from is what it runs with
    c.rule('a new process begins at its entry point, unwarped, with empty stacks, nothing pending, and the sprite, variables, barrier, reply obligation and message it was created for')
    g = selfarg_fn(p, 'process::Process', 'new')
    sim2, ex2 = runfn(p, g, (mkvariant(p, 'process::ProcContext', None),), rule=FrameRule(p, only='process.rs'))
    F = lambda k: ('fld', k)
    pf = p.fields('process::Process')
    for st, ret in ex2:
        v = fields_of(strip(ret))
        c.count('process constructions')
        for k in ('barrier', 'reply'):
            name = by_type(p, 'process::Process', Ctx4.KINDS[k])
            if strip(v[name]) != F(getattr(B, k)): c.violation(f'new:{k}', f'a new process does not keep its {k}', g.loc())
        state = by_type(p, 'process::Process', 'ProcessState')
        if strip(v[state]) != F(B.state): c.violation('new:state', 'a new process does not keep its custom state', g.loc())
        glob = by_type(p, 'process::Process', 'GlobalContext<')
        if strip(v[glob]) != F(f_glob): c.violation('new:context', 'a new process does not keep its context', g.loc())
        msg = 'last_message'
        holds = [n2 for n2, x in v.items() if mentions(x, lambda y: y[:2] == ('fld', B.message) or y == F(B.message))]
        has = st.facts.get(F(B.message))
        if has and has == ('is', 'Some') and len(holds) != 1: c.violation('new:message', 'a new process does not keep its message', g.loc())
        us = [n2 for n2, t in pf if t == 'usize']
        if [n2 for n2 in us if strip(v[n2]) == F(f_pos)] == [] : c.violation('new:pos', 'a new process does not begin at its entry point', g.loc())
        for n2 in us:
            if strip(v[n2]) != F(f_pos) and strip(v[n2])[:3] != ('c', 'i', '0'): c.violation(f'new:{n2}', f'a new process starts with a non-zero {n2}', g.loc())
        d = [n2 for n2, t in pf if 'Defer' in t]
        if not d or v[d[0]] != NONE: c.violation('new:pending', 'a new process starts with something pending', g.loc())
        fr = list(st.rs)
        if len(fr) != 1: c.violation('new:frames', 'a new process does not start with exactly one call frame', g.loc()); continue
        w = fields_of(fr[0])
        if not any(strip(x) == F(f_ent) for x in w.values()): c.violation('new:sprite', 'a new process does not run on its sprite', g.loc())
        if not any(strip(x) == F(B.locals) for x in w.values()): c.violation('new:locals', 'a new process does not get its variables', g.loc())
    # ---- a script that ends lets queued starts go on
    c.rule('whenever a script ends, queued starts of every script are looked at in that same step, after the ended one is removed; whenever a script yields they are looked at too (which covers scripts ended by stop blocks and clone deletion)')
    for label, mode, rule, sim, ex in tr:
        for st, ret in ex:
            R = st.rs
            if evs(st, 'partial'): c.violation(f'partial:{label}', f'{label}: some scripts are left out of scheduling', src)
            for s in unfinished_loops(st):
                if ret is not None or mode == 'message': c.violation(f'break:{label}:{" ".join(case(p, st)) or label}', f'{label} ({" ".join(case(p, st)) or "message"}): a loop over scripts or message fields is left early', src)
            cs = case(p, st) if evs(st, 'step') else ()
            all_ = label == 'input Stop' or cs == ('Ok', 'Abort', 'All')
            restarted = [e[1] for e in evs(st, 'ctxpush')]
            for e in evs(st, 'ctxclear'):
                if not all_ and e[1] not in restarted: c.violation(f'unqueue:{label}:{" ".join(cs)}', f'{label} {" ".join(cs)}: queued starts of a script are discarded although it is not restarted', src)
            if not evs(st, 'step'): continue
            if cs in (('Err',), ('Ok', 'Terminate'), ('Ok', 'Abort', 'Current'), ('Ok', 'Yield')):
                i = index_of(st, 'step')
                if cs != ('Ok', 'Yield'): i = next((j for j, e in enumerate(R) if e[0] == 'remove' and is_popped(e[1])), i)
                c.count('script ends and yields')
                if not any(e[0] == 'consume' and is_script(e[1]) for e in R[i:]):
                    what = {'Err': 'ends with an error', 'Terminate': 'finishes', 'Current': 'stops itself', 'Yield': 'yields'}[cs[-1]]
                    c.violation(f'consume:{" ".join(cs)}' + (':message' if evs(st, 'ctxpush') else ''), f'when a script {what}' + (' in a step in which a message arrived' if evs(st, 'ctxpush') else '') + ', queued starts are not looked at', src)
    # ---- triggering
    c.rule('a trigger queues its start behind those already queued, lets it run if the script is free, and drops only itself if too many wait; restarting triggers first end the running script and drop its queue')
    triggers = set()
    for label, mode, rule, sim, ex in tr:
        for st, ret in ex:
            R = st.rs
            for e in evs(st, 'ctxpush'):
                t = trigger(p, label, st, e)
                triggers.add(t)
                c.count('scheduled starts')
                if t not in TRIGGERS: c.violation(f'trigger:{t}', f'starts are queued by {t}, for which no queueing rule is known', src); continue
                mx, restart = TRIGGERS[t]
                s, i = e[1], R.index(e)
                if e[2] != 'push_back': c.violation(f'queue-order:{t}', f'{t}: a start does not queue behind earlier ones', src)
                later = R[i + 1:]
                co = [j for j, x in enumerate(later) if x[0] == 'consume' and x[1] == s]
                if not co: c.violation(f'run:{t}', f'{t}: a start is queued without checking whether the script is free', src); continue
                tests = [x for x in later if x[0] == 'len' and any(y[0] == 'ctxlen' and y[1] == s for y in x[2:4])]
                drops = [x for x in later if x[0] == 'ctxpop' and x[1] == s]
                if mx == 'unbounded' and not tests and not drops: continue
                if len(tests) != 1: c.violation(f'limit:{t}', f'{t}: the number of waiting starts is not limited', src); continue
                m, over = norm_len(tests[0])
                if m is None or maxof(m) != mx: c.violation(f'limit-value:{t}', f'{t}: {maxof(m)} starts may wait, expected {mx}', src)
                if later.index(tests[0]) < co[0]: c.violation(f'limit-early:{t}', f'{t}: waiting starts are counted before the script had a chance to run', src)
                if over and [x[2] for x in drops] != ['pop_back']: c.violation(f'drop:{t}', f'{t}: with too many waiting starts, something other than the new one is dropped', src)
                if not over and drops: c.violation(f'overdrop:{t}', f'{t}: a start is dropped although it may wait', src)
                ended = any(x[0] == 'ctxclear' and x[1] == s for x in R[:i])
                pv = st.facts.get(('init', (s[0], s[1] + (('f', n.f_process),))))
                key = ('init', (s[0], s[1] + (('f', n.f_process), ('v', 'Some'), ('f', '0'))))
                killed = any(x[0] in ('remove',) and x[1] == key or x[0] == 'alive' and x[1] == key and not x[2] for x in R[:i])
                idle = pv == ('is', 'None')
                want = restart
                if restart == 'interrupt':
                    fl = {x[2] for x in R if x[0] == 'flag' and x[1] == 'interrupt'}
                    want = fl == {True}
                    if not fl: c.violation('interrupt', 'a custom event ignores whether it should interrupt', src); continue
                if want is True and not (ended and (killed or idle)): c.violation(f'restart:{t}', f'{t}: the running script and its queue are not replaced by the new start', src)
                if want is False and (ended or any(x[0] == 'remove' and x[1] == key for x in R[:i])): c.violation(f'norestart:{t}', f'{t}: a running script is stopped although the trigger only queues', src)
    for t in TRIGGERS:
        if t not in triggers: c.violation(f'missing:{t}', f'{t} starts no script', src)
    c.floor('start paths', 5); c.floor('started contexts', 2); c.floor('script ends and yields', 16); c.floor('scheduled starts', 60); c.floor('process constructions', 1)

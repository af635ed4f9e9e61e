"""P26: broadcast-and-wait waits for exactly the scripts it started."""
from sched import *
from stepm import *
from p25 import trigger
from base import Missing


def given(st, v, want):
    """v is (a clone of) the optional value `want` on this path."""
    v = strip(v)
    if v == want: return True
    f = st.facts.get(want)
    if v == NONE: return f == ('is', 'None')
    if v[0] == 'agg' and v[2] == 'Some': return strip(v[3][0]) == pay(want, 'Some')
    return False


def inspect(c, p, rule, sim, ex):
    """The broadcast instruction: what the step reports and what it leaves pending."""
    src = p.fn('process::Process::step').loc()
    out = {}
    for st, ret in ex:
        r = strip(ret)
        if not (r[0] == 'agg' and r[2] == 'Ok'): continue
        v = strip(r[3][0])
        if v[0] != 'agg' or v[2] != 'Broadcast': c.violation('instr-kind', 'sending a message does not reach the scheduler', src); continue
        wait = [e[1] for e in st.rs if e[0] == 'wait?']
        b = strip(fieldval(v, by_type(p, 'process::ProcessStep', 'Barrier', 'Broadcast')))
        d = strip(selfread(sim, st, rule.f_defer()))
        c.count('broadcast paths')
        if not wait: c.violation('instr-wait', 'sending a message ignores whether to wait', src); continue
        waits = wait[0]
        out[waits] = out.get(waits, 0) + 1
        if waits:
            own = strip(b[3][0]) if b[0] == 'agg' and b[2] == 'Some' else None
            if own is None or not mentions(own, lambda x: x[0] == 'call' and 'Rc' in x[1] and x[1].endswith('new')) : c.violation('instr-barrier', 'a waiting broadcast does not hand out a barrier of its own', src); continue
            if not (d[0] == 'agg' and d[2] == 'Some' and strip(d[3][0])[2] == 'Barrier'): c.violation('instr-defer', 'a waiting broadcast goes on at once', src); continue
            cond = next((x for n, x in fields_of(strip(d[3][0])).items() if x[0] != 'c' and mentions(x, lambda y: y[0] == 'weak')), None)
            rc = strip(own[3][0]) if own[0] == 'agg' else own
            if cond is None or not mentions(cond, lambda x: x == rc): c.violation('instr-condition', 'a waiting broadcast waits for a barrier other than the one it handed out', src)
        else:
            if b != NONE: c.violation('instr-free', 'a plain broadcast hands out a barrier', src)
            if d[0] == 'agg' and d[2] == 'Some': c.violation('instr-waits', 'a plain broadcast waits', src)
    if set(out) != {True, False}: c.violation('instr-both', 'broadcasts do not come in a waiting and a plain kind', src)


class BarrierRule(StepRule):
    keep = True
    def inline(self, sim, fn):
        if fn.selfadt and strip_ty(fn.selfadt).split('::')[-1] in ('Barrier', 'BarrierCondition'): return True
        return super().inline(sim, fn)

    def on_branch(self, sim, st, cx, v, choice):
        if v == ('op', 'wait'): st.rs = st.rs + (('wait?', choice in ('1', ('is', '1'))),)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method == 'downgrade' and args: return [(st, ('weak', deepread(sim, st, args[0])))]
        return super().on_call(sim, st, cx, callee, args, site)


def check(c):
    p = c.p
    src = selfarg_fn(p, 'project::Project', 'step').loc()
    tr = all_traces(p)
    n = tr[0][2].n
    A = Ctx4(p, n.ctx)
    c.rule('every start queued by a broadcast carries a handle to the broadcast\'s barrier and its message; every start queued by a network message carries its reply obligation; no other start or fork carries either')
    BAR = stepfield('Broadcast', by_type(p, 'process::ProcessStep', 'Barrier', 'Broadcast'))
    TXT = stepfield('Broadcast', next(n2 for n2, t in p.fields('process::ProcessStep', 'Broadcast') if 'Text' in t or 'String' in t))
    KEY = ('p', MSG, ('f', next(n2 for n2, t in p.fields('runtime::IncomingMessage') if 'InternReplyKey' in t)))
    for label, mode, rule, sim, ex in tr:
        for st, ret in ex:
            if mode == 'message' and unfinished_loops(st): c.violation('network-break', 'a network message that expects a reply does not reach every script it should start', src)
            for e in evs(st, 'ctxpush'):
                t = trigger(p, label, st, e)
                v = fields_of(e[3])
                c.count('starts')
                b, r, m = (v[getattr(A, k)] for k in ('barrier', 'reply', 'message'))
                if t == 'Broadcast':
                    if not given(st, b, BAR): c.violation('hold', 'a script started by a waiting broadcast does not hold its barrier', src)
                    sm = strip(m)
                    if not (sm[0] == 'agg' and sm[2] == 'Some' and strip(sm[3][0]) == TXT): c.violation('message', 'a script started by a broadcast does not know the message it was started by', src)
                    c.count('broadcast starts')
                else:
                    if strip(b) != NONE: c.violation(f'stray-barrier:{t}', f'a script started by {t} holds a barrier nobody waits on', src)
                    if strip(m) != NONE: c.violation(f'stray-message:{t}', f'a script started by {t} carries a local message', src)
                if t == 'network':
                    kk = strip(r)
                    if kk[0] == 'p' and kk[1] != MSG or not (given(st, r, KEY) or given(st, r, ('p', pay(MSG, 'Some'), ('f', KEY[2][1])))): c.violation('reply', 'a script started by a network message does not get its reply obligation', src)
                    c.count('network starts')
                elif strip(r) != NONE: c.violation(f'stray-reply:{t}', f'a script started by {t} carries a reply obligation', src)
            for e in evs(st, 'insert'):
                if e[2][0] != 'proc' or e[2][1][0] != 'agg': continue
                w = fields_of(e[2][1])
                B = Ctx4(p, 'process::ProcContext')
                c.count('forks')
                for k in ('barrier', 'reply', 'message'):
                    if strip(w[getattr(B, k)]) != NONE: c.violation(f'fork:{k}', f'a forked script carries a {k}', src)
    c.rule('a waiting broadcast waits on the condition of the very barrier it hands out, a plain one does neither')
    rule, sim, ex = run_variant(p, c, 'SendLocalMessage', rule=BarrierRule(p, 'SendLocalMessage'))
    inspect(c, p, rule, sim, ex)
    c.rule('a pending barrier resumes exactly when its condition reports that no handle is left, and the condition is true exactly then')
    psrc = p.fn('process::Process::step').loc()
    D = defer_adt(p)
    dv = [v for v in p.variants(D) if any('BarrierCondition' in t for n2, t in p.fields(D, v))]
    if len(dv) != 1: raise Missing('the pending operation of a waiting broadcast')
    rule, sim, ex = run_variant(p, c, None, rule=CompletedRule(p, None, defer=dv[0]))
    got = set()
    for resumed, st in [(True, s) for s, _ in rule.decodes] + [(False, s) for s, _ in ex]:
        done = [x for x in st.rs if x and x[0] == 'done?']
        c.count('pending barrier paths')
        if len(done) != 1: c.violation('poll', 'a pending broadcast is not asked exactly once whether it is over', psrc); continue
        got.add((resumed, done[0][1]))
        if resumed != done[0][1]: c.violation(f'resume:{resumed}', 'a waiting broadcast ' + ('resumes although scripts it started still run' if resumed else 'keeps waiting although every script it started is over'), psrc)
    if got != {(True, True), (False, False)} and not c.viol: c.violation('poll-cases', 'a pending broadcast does not both wait and resume', psrc)
    done = [f for f in p.fns if f.selfadt and strip_ty(f.selfadt).endswith('::BarrierCondition') and f.method == 'is_completed']
    if len(done) != 1: raise Missing('BarrierCondition::is_completed')
    f = done[0]
    sim, ex = runfn(p, f, (refto('self'),), rule=WeakRule(p))
    for st, ret in ex:
        left = [e[1] for e in st.rs if e[0] == 'left']
        c.count('condition paths')
        v = strip(ret)
        val = v[2] if v[0] == 'c' and v[1] == 'b' else None
        if len(left) != 1 or val is None or val is left[0]: c.violation('condition', 'the condition of a barrier is not "no handle is left"', f.loc())
    c.floor('broadcast starts', 10); c.floor('network starts', 8); c.floor('starts', 50); c.floor('broadcast paths', 2); c.floor('pending barrier paths', 2); c.floor('condition paths', 2)


class CompletedRule(StepRule):
    keep = True
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method == 'is_completed' and callee.local:
            out = []
            for b in (True, False):
                s = st.copy(); s.rs = s.rs + (('done?', b),)
                out.append((s, ('c', 'b', b)))
            return out
        return super().on_call(sim, st, cx, callee, args, site)


class WeakRule(Plain):
    """The number of handles as a decision: some left / none left."""
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        if callee.method in ('strong_count', 'upgrade') and ('Weak' in callee.rpath or 'Rc' in callee.rpath):
            out = []
            for b in (True, False):
                s = st.copy(); s.rs = s.rs + (('left', b),)
                if callee.method == 'upgrade': out.append((s, some(('rc',)) if b else NONE))
                else: out.append((s, ('c', 'i', '1' if b else '0', 'usize')))
            return out
        return None

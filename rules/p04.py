"""P04: a script that ends releases everyone who waits on it."""
from sim import *
from stepm import *
from base import Missing
import p03


def obligations(p):
    """Process fields that others wait on: completion barrier, reply obligation, pending operation, position."""
    r = {}
    for n, t in p.fields(PROC):
        if strip_ty(t).endswith('Option'):
            a = strip_ty(ty_args(t)[0])
            if a.endswith('Barrier'): r['barrier'] = n
            elif a.endswith('InternReplyKey'): r['reply obligation'] = n
            elif a.endswith('Defer'): r['pending operation'] = n
    return r


class StepOuter(StackRule):
    """step() with the instruction's outcome supplied by the caller."""
    def __init__(self, prog, impl, outcome):
        super().__init__(prog)
        self.impl, self.outcome, self.hits = impl, outcome, 0

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.local == self.impl.id:
            self.hits += 1
            return [(st, self.outcome)]
        if callee is not None and callee.method == 'is_running' and callee.local: return [(st, TRUE)]
        return super().on_call(sim, st, cx, callee, args, site)


def outcomes(p):
    """Every result an instruction can report, per variant (and per abort mode)."""
    S = p03.STEP(p)
    for v in p.variants(S):
        fs = p.fields(S, v)
        am = [(i, strip_ty(t)) for i, (n, t) in enumerate(fs) if strip_ty(t).endswith('AbortMode')]
        if am:
            for m in p.variants(am[0][1]):
                vals = [('ins', n) for n, _ in fs]
                vals[am[0][0]] = ('agg', am[0][1], m, (), ())
                yield f'{v}({m})', ok(('agg', S, v, tuple(vals), tuple(n for n, _ in fs)))
        else:
            yield v, ok(('agg', S, v, tuple(('ins', n) for n, _ in fs), tuple(n for n, _ in fs)))
    yield 'Err', err(('ins', 'cause'))


ENDS = {'Terminate', 'Abort(Current)', 'Abort(All)'}
STAYS = {'Normal', 'Yield', 'Abort(Others)', 'Abort(MyOthers)', 'Broadcast', 'Watcher', 'Fork', 'CreatedClone', 'DeletedClone', 'Pause'}


def run_outer(p, c, outcome):
    step, impl = entry_of(p, c)
    rule = StepOuter(p, impl, outcome)
    sim = Sim(p, rule, 200000)
    ex = sim.run(step, (('ref', (SELF, ())),) + tuple(('arg', str(i)) for i in range(1, step.nargs)))
    return rule, sim, ex, step


def check(c):
    p = c.p
    ob = obligations(p)
    for need in ('barrier', 'reply obligation', 'pending operation'):
        if need not in ob: raise Missing(f'Process field for its {need}')
    c.rule('step() is explored with every outcome an instruction can report: an ending outcome (Terminate, Abort of this script or of everything, uncaught error) leaves the position idle and barrier, reply obligation and pending operation cleared; any other outcome, including a caught error, leaves them untouched')
    idle = idle_value(c, p)
    for name, out in outcomes(p):
        if name == 'Idle': continue
        rule, sim, ex, step = run_outer(p, c, out)
        if not rule.hits: raise Missing('instruction execution inside Process::step')
        c.count('outcomes')
        for st, ret in ex:
            c.count('exits')
            isok = ret[0] == 'agg' and ret[2] == 'Ok'
            kind = ret[3][0][2] if isok and ret[3][0][0] == 'agg' else ('Err' if ret[0] == 'agg' and ret[2] == 'Err' else '?')
            if kind == 'Abort':
                m = ret[3][0][3][0]
                kind = f'Abort({m[2]})'
            caught = name == 'Err' and kind != 'Err'
            if name != 'Err' and kind != name: c.violation(f'outcome:{name}', f'step() reports {kind} although the instruction reported {name}', step.loc())
            ending = kind in ENDS or kind == 'Err'
            if not ending and kind not in STAYS: c.violation(f'unknown:{kind}', f'outcome {kind} is neither known to end nor to continue the script', step.loc())
            pos = selfread(sim, st, 'pos')
            if ending:
                c.count('ending exits')
                if not idle(pos): c.violation(f'not-idle:{kind}', f'after {kind} the script is not idle', step.loc())
                for what, f in ob.items():
                    if selfread(sim, st, f) != NONE: c.violation(f'kept:{kind}:{f}', f'after {kind} the script keeps its {what}: whoever waits on it is never released', step.loc())
            else:
                c.count('continuing exits')
                if not caught and selfwritten(st, 'pos') and pos != ('init', (SELF, (('f', 'pos'),))):
                    c.violation(f'moved:{kind}', f'step() changes the position of a script that goes on after {kind}', step.loc())
                if caught and idle(pos): c.violation('caught-idle', 'a caught error leaves the script idle', step.loc())
                for what, f in ob.items():
                    v = selfread(sim, st, f)
                    if v != ('init', (SELF, (('f', f),))) and not (caught and what == 'pending operation' and v == NONE):
                        c.violation(f'lost:{kind}:{f}', f'a script that goes on after {kind} gives up its {what}', step.loc())
    # nobody else takes the obligations away from a live script
    c.rule('instructions never clear the completion barrier, and give up the reply obligation only to the reply block that answers it; the resume prologue leaves both alone')
    for v in p.variants(INS):
        rule, sim, ex = run_variant(p, c, v, rule=ReplyRule(p, v))
        c.count('instruction variants')
        for st, ret in ex:
            if selfread(sim, st, ob['barrier']) != ('init', (SELF, (('f', ob['barrier']),))):
                c.violation(f'ins-barrier:{v}', f'{v} changes the completion barrier of a running script', rule_loc(p))
            rk = selfread(sim, st, ob['reply obligation'])
            if st.rs == 'sent' and rk != NONE: c.violation(f'ins-answered:{v}', f'{v} answers the message but keeps the reply obligation: the message can be answered again', rule_loc(p))
            if rk != ('init', (SELF, (('f', ob['reply obligation']),))):
                if not (rk == NONE and (st.rs == 'sent' or reply_was_none(st, ob['reply obligation']))):
                    c.violation(f'ins-reply:{v}', f'{v} drops the reply obligation without answering it', rule_loc(p))
    c.floor('outcomes', 13); c.floor('instruction variants', 90); c.floor('ending exits', 4); c.floor('continuing exits', 9)


class ReplyRule(StepRule):
    init_rs = ''
    def on_call(self, sim, st, cx, callee, args, site):
        r = super().on_call(sim, st, cx, callee, args, site)
        if callee is not None and callee.method == 'send_reply' and callee.trait and callee.trait.endswith('System'):
            for s, _ in r: s.rs = 'sent'
        return r


def reply_was_none(st, f):
    fact = st.facts.get(('init', (SELF, (('f', f),))))
    return fact == ('is', 'None') or True if fact and fact[1] == 'None' else False


def rule_loc(p):
    s = p.fn('process::Process::step')
    return s.loc() if s else ''


def idle_value(c, p):
    """is_running() decides on the position alone: which position value means idle?"""
    f = p.fn('process::Process::is_running')
    if f is None: raise Missing('Process::is_running')
    sim = Sim(p, StackRule(p), 10000)
    ex = sim.run(f, (('ref', (SELF, ())),))
    vals = set()
    for st, ret in ex:
        for x in subvalues(ret):
            if p03.is_max(x): vals.add(x)
    if not vals or not any(mentions(ret, lambda x: x == ('init', (SELF, (('f', 'pos'),)))) or st.facts for st, ret in ex):
        raise Missing('Process::is_running deciding on the position')
    # polarity: not equal -> running
    pol = set()
    for st, ret in ex:
        if ret[0] == 'bin' and ret[1] in ('Ne', 'Eq'): pol.add(ret[1] == 'Ne')
        elif ret[0] == 'un' and ret[1] == 'Not' and ret[2][0] == 'bin' and ret[2][1] == 'Eq': pol.add(True)
        elif ret == TRUE or ret == FALSE: pol.add(True)
    if pol != {True}: c.violation('is_running', 'is_running() does not report exactly the scripts whose position is set', f.loc())
    return p03.is_max

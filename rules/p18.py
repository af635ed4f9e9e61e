"""P18: answers and failures of requests land where the script looks for them."""
from sim import *
from stepm import *
from h import *
from issue import *
from base import Missing

POLL = {'poll_request', 'poll_command', 'poll_reply'}
SLOT_READERS = {'rpc': 'PushRpcError', 'syscall': 'PushSyscallError', 'answer': 'PushAnswer'}
# request kind -> (pushes the result, slot written with the result, soft errors configured by, slot of soft errors)
PLACES = {
    'Rpc': (True, None, 'rpc_error_scheme', 'rpc'),
    'Syscall': (True, None, 'syscall_error_scheme', 'syscall'),
    'Input': (False, 'answer', None, None),
    'Property': (True, None, None, None),
    'UnknownBlock': (True, None, None, None),
}


REPLY = ('p', ('p', ('p', ('p', ('poll', 'poll_reply'), ('v', 'Completed')), ('f', '0')), ('v', 'Some')), ('f', '0'))


class PollRule(IssueRule):
    """Host polls get short names so that what they return can be followed to where it lands."""
    mark = staticmethod(lambda v: v == REPLY)
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.trait and callee.trait.endswith('runtime::System') and callee.method in POLL:
            v = sim.fresh(st, ('poll', callee.method))
            st.rs = st.rs + ((callee.method, v, tuple(deepread(sim, st, a) for a in args)),)
            return [(st, v)]
        return super().on_call(sim, st, cx, callee, args, site)


def pay(v, *variants):
    for x in variants: v = ('p', ('p', v, ('v', x)), ('f', '0'))
    return v


def slots(p, c):
    r = {}
    for k, ins in SLOT_READERS.items():
        rule, sim, ex = run_variant(p, c, ins)
        src = set()
        for st, ret in ex:
            items = selfread(sim, st, rule.stacks['value'])
            if items[0] != 'stk' or len(items[3]) != 1: continue
            v = strip(items[3][0])
            if v[0] == 'init' and v[1][0] == SELF: src.add(v[1][1][0][1])
        if len(src) != 1: raise Missing(f'the slot {ins} reads')
        r[k] = src.pop()
    if len(set(r.values())) != 3: c.violation('slots:shared', f'two of {sorted(SLOT_READERS.values())} report the same slot ({r})', p.fn('process::Process::step').loc())
    return r


def action_field(p, D, dv):
    return [(n, strip_ty(t)) for n, t in p.fields(D, dv) if strip_ty(t) in p.adts and p.adts[strip_ty(t)]['kind'] == 'enum']


def outcome(p, c, dv, dops=None):
    """The ways a pending `dv` completes: [(resumed?, state, return value)]."""
    rule, sim, ex = run_variant(p, c, None, rule=PollRule(p, None, defer=dv, dops=dops or {}))
    return rule, sim, [(True, st, None) for st, _ in rule.decodes] + [(False, st, r) for st, r in ex]


def check(c):
    p = c.p
    src = p.fn('process::Process::step').loc()
    D = defer_adt(p)
    sl = slots(p, c)
    c.rule('an instruction that issues a request suspends on the key of that request with a follow-up that delivers to the place its kind documents')
    # kind of request -> pending operation it leaves behind
    kinds, idle, keys = {}, [], {}
    for v in p.variants(INS):
        rule, sim, ex = issues(p, c, v)
        for st, ret in ex:
            r = strip(ret)
            if not (r[0] == 'agg' and r[2] == 'Ok'): continue
            d = selfread(sim, st, rule.f_defer())
            d = strip(d[3][0]) if d[0] == 'agg' and d[2] == 'Some' else None
            asked = [(m, call, args) for m, call, args in st.rs if m in ('perform_request', 'perform_command', 'send_message')]
            if len(asked) > 1: c.violation(f'many:{v}', f'{v} makes more than one external request in one step', src); continue
            if not asked:
                if d is not None: idle.append((v, d[2]))
                continue
            keyed = lambda want: next((n for n in d[4] if strip(fieldval(d, n)) == want), None) if d is not None else None
            m, call, args = asked[0]
            if m == 'send_message':
                got = pay(call, 'Ok')
                f = st.facts.get(got)
                c.count('message sends')
                if f and f[0] == 'is' and f[1] == 'Some':
                    kf = keyed(pay(got, 'Some'))
                    if kf: keys.setdefault((d[2], 'reply'), set()).add(kf)
                    if kf is None: c.violation(f'reply-key:{v}', f'{v} got a reply key from the host but does not wait for it', src)
                elif d is not None: c.violation(f'reply-none:{v}', f'{v} waits although the host expects no reply', src)
                continue
            c.count('issued requests')
            k = next((strip(a) for a in args if strip(a)[0] == 'agg' and strip(a)[1] in ('runtime::Request', 'runtime::Command')), None)
            if k is None: c.violation(f'opaque:{v}', f'cannot tell what {v} asks the host', src); continue
            want = 'Request' if m == 'perform_request' else 'Command'
            if d is None: c.violation(f'ignored:{v}', f'{v} asks the host for {k[2]} and goes on without waiting for it', src); continue
            kf = keyed(pay(call, 'Ok'))
            if kf is None: c.violation(f'key:{v}', f'{v} waits on something other than the request it made', src); continue
            keys.setdefault((d[2], want), set()).add(kf)
            kinds.setdefault((want, k[2]), set()).add((d[2], tuple((n, strip(fieldval(d, n))) for n, _ in action_field(p, D, d[2])), v))
    for v, dv in idle:
        if any(dv == k[0] for k in keys): c.violation(f'nothing:{v}', f'{v} waits for a request it never made', src)
    # ---- delivery
    c.rule('when a request completes, its result and failure go exactly to: the operand stack and the last-error slot of its kind (soft errors), the answer (questions), or a script error (hard errors)')
    for (want, k), ds in sorted(kinds.items(), key=repr):
        for dv, act, v in sorted(ds, key=repr):
            c.count('request deliveries')
            rule, sim, outs = outcome(p, c, dv, dict(act))
            vs = rule.stacks['value']
            if want == 'Command': pushes, okslot, scheme, eslot = False, None, None, None
            else:
                if k not in PLACES: c.violation(f'kind:{k}', f'no documented place for the outcome of {k}', src); continue
                pushes, okslot, scheme, eslot = PLACES[k]
            seen = set()
            for resumed, st, ret in outs:
                polls = [x for x in st.rs if x[0] in POLL]
                if len(polls) != 1: c.violation(f'polls:{k}', f'a pending {k} is polled {len(polls)} times per step', src); continue
                m, call, args = polls[0]
                if m != ('poll_request' if want == 'Request' else 'poll_command') or not {('dop', n) for n in keys[dv, want]} & {strip(a) for a in args}:
                    c.violation(f'poll-key:{k}', f'a pending {k} is not polled with its own key', src)
                top = pay(call, 'Ok'); res = pay(top, 'Completed')
                f = st.facts.get(res)
                if not (f and f[0] == 'is'):
                    if resumed: c.violation(f'early:{k}', f'a script resumes from {k} without looking at its outcome', src)
                    continue
                good, val, msg = f[1] == 'Ok', pay(res, 'Ok'), pay(res, 'Err')
                items = selfread(sim, st, vs)
                items = items[3] if items[0] == 'stk' and not items[2] else () if items[0] == 'init' else (('?',),)
                wrote = {s: selfread(sim, st, sl[s]) for s in sl if selfwritten(st, sl[s])}
                c.count('delivered outcomes')
                if good:
                    seen.add('ok')
                    if not resumed: c.violation(f'ok-fails:{k}', f'a successful {k} does not let the script go on', src); continue
                    if [strip(x) for x in items] != ([val] if pushes else []): c.violation(f'result-stack:{k}', f'the result of {k} is {"not " if pushes else ""}pushed onto the operand stack' + (' exactly once' if pushes else ''), src)
                    for s in sl:
                        w = wrote.pop(s, None)
                        if s == okslot:
                            if w is None or strip(w)[0] != 'agg' or strip(w)[2] != 'Some' or strip(strip(w)[3][0]) != val: c.violation(f'result-slot:{k}', f'the result of {k} is not stored as the {s}', src)
                        elif s == eslot:
                            if w != NONE: c.violation(f'error-clear:{k}', f'a successful {k} does not clear the last {s} error', src)
                        elif w is not None: c.violation(f'result-other:{k}:{s}', f'a successful {k} overwrites the {s} slot', src)
                else:
                    fs = [x[1] for key, x in st.facts.items() if key[0] == 'init' and key[1][1] and key[1][1][-1] == ('f', scheme) and x[0] == 'is'] if scheme else ['Hard']
                    other = [key for key, x in st.facts.items() if key[0] == 'init' and key[1][1] and key[1][1][-1][0] == 'f' and str(key[1][1][-1][1]).endswith('_error_scheme') and key[1][1][-1][1] != scheme]
                    if other: c.violation(f'scheme:{k}', f'failures of {k} are handled by a setting meant for another kind of request', src); continue
                    if len(fs) != 1: c.violation(f'scheme:{k}', f'failures of {k} are handled without consulting {scheme}', src); continue
                    seen.add(fs[0])
                    if fs[0] == 'Hard':
                        r = strip(ret) if ret is not None else ('?',)
                        if resumed or not (r[0] == 'agg' and r[2] == 'Err' and mentions(r, lambda x: x == msg)): c.violation(f'hard:{k}', f'a failing {k} with hard errors does not raise its message as a script error', src)
                        if items or wrote: c.violation(f'hard-effects:{k}', f'a failing {k} with hard errors also changes {sorted(wrote) or "the operand stack"}', src)
                    else:
                        if not resumed: c.violation(f'soft:{k}', f'a failing {k} with soft errors does not let the script go on', src); continue
                        istext = lambda x: strip(x)[0] == 'agg' and strip(x)[2] == 'Text' and mentions(x, lambda y: y == msg)
                        if len(items) != 1 or not istext(items[0]): c.violation(f'soft-stack:{k}', f'the message of a soft failure of {k} is not what the block reports', src)
                        for s in sl:
                            w = wrote.pop(s, None)
                            if s == eslot:
                                if w is None or strip(w)[0] != 'agg' or strip(w)[2] != 'Some' or not istext(strip(w)[3][0]): c.violation(f'soft-slot:{k}', f'the message of a soft failure of {k} is not stored as the last {s} error', src)
                            elif w is not None: c.violation(f'soft-other:{k}:{s}', f'a soft failure of {k} overwrites the {s} slot', src)
            need = {'ok', 'Hard'} | ({'Soft'} if scheme else set())
            if seen != need: c.violation(f'outcomes:{k}', f'{k} can end as {sorted(seen)}, expected {sorted(need)}', src)
        c.sample(f'{want}::{k} issued by {sorted(x[2] for x in ds)} -> ' + ('result on the stack' if want == 'Request' and PLACES.get(k, (0,))[0] else 'answer slot' if k == 'Input' else 'no result'))
    # ---- replies
    c.rule('the reply of a message is pushed as a value, a missing one (timeout) as empty text')
    rv = [k[0] for k in keys if k[1] == 'reply']
    if len(set(rv)) != 1: raise Missing('the pending operation of a message reply')
    rule, sim, outs = outcome(p, c, rv[0])
    got = set()
    for resumed, st, ret in outs:
        polls = [x for x in st.rs if x[0] == 'poll_reply']
        if len(polls) != 1: c.violation('reply-poll', 'a pending reply is not polled exactly once per step', src); continue
        res = pay(polls[0][1], 'Completed')
        if not {('dop', n) for n in keys[rv[0], 'reply']} & {strip(a) for a in polls[0][2]}: c.violation('reply-poll-key', 'a pending reply is not polled with its own key', src)
        f = st.facts.get(res)
        if not resumed or not (f and f[0] == 'is'): continue
        c.count('delivered outcomes')
        items = selfread(sim, st, rule.stacks['value'])
        items = items[3] if items[0] == 'stk' else ()
        got.add(f[1])
        if len(items) != 1: c.violation(f'reply-push:{f[1]}', 'the outcome of a message reply is not pushed exactly once', src); continue
        for s in sl:
            if selfwritten(st, sl[s]): c.violation(f'reply-other:{s}', f'the outcome of a message reply overwrites the {s} slot', src)
        if f[1] == 'None' and not ('Text' in repr(items[0]) or 'OurString' in repr(items[0]) or "'s', ''" in repr(items[0])): c.violation('reply-empty', 'a missing reply is not reported as empty text', src)
        carries = mentions(items[0], lambda x: x == pay(res, 'Some'))
        if (f[1] == 'Some') != carries: c.violation(f'reply-value:{f[1]}', 'the reply of a message is not what the block reports' if f[1] == 'Some' else 'a missing reply is not reported as empty', src)
    if got != {'Some', 'None'}: c.violation('reply-outcomes', f'a message reply can end as {sorted(got)}', src)
    c.floor('issued requests', 25); c.floor('request deliveries', 22); c.floor('delivered outcomes', 45); c.floor('message sends', 2)

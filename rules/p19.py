"""P19: an unsupported request is reported as exactly the feature it needs."""
from sim import *
from stepm import *
from h import *
from base import Missing

# the one association whose names differ: reading a property is the feature GetProperty
FALLIBLE = ('perform_request', 'perform_command', 'poll_request', 'poll_command', 'send_message', 'send_reply')
RENAMED = {('Request', 'Property'): 'GetProperty'}


class Host(Plain):
    """rs collects the calls on function values (configuration handlers) with their arguments."""
    opaque = ('::feature', 'check_runtime_borrows')
    keep = True
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method in ('call', 'call_mut', 'call_once') and callee.trait and callee.trait.startswith('core::ops::Fn'):
            f = strip(args[0])
            if f[0] not in ('clo', 'fn'):
                tup = args[1]
                a = tup[3] if tup[0] == 'agg' else ()
                v = sim.fresh(st, ('call', 'handler', site, tuple(deepread(sim, st, x) for x in a)))
                st.rs = st.rs + (v,)
                return [(st, v)]
        if callee is not None and callee.method == 'feature' and callee.local: return [(st, ('feature', deepread(sim, st, args[0])))]
        return None


def feature_table(p, c):
    c.rule('feature() of every Request and Command variant is the Feature variant of the same name, with the payload fields of the same name')
    for T in ('Request', 'Command'):
        adt = 'runtime::' + T
        fn = selfarg_fn(p, adt, 'feature')
        src = fn.loc()
        for v in p.variants(adt):
            want = RENAMED.get((T, v), v)
            if want not in p.variants('runtime::Feature'): c.violation(f'no-feature:{T}::{v}', f'there is no Feature named {want} for {T}::{v}', src); continue
            sim, ex = runfn(p, fn, (refto('self'),), store={(obj('self'), ()): mkvariant(p, adt, v)})
            if not ex: c.violation(f'feature-none:{T}::{v}', f'{T}::{v}.feature() never returns', src)
            for st, r in ex:
                c.count('feature associations')
                r = strip(r)
                if r[0] != 'agg' or r[1] != 'runtime::Feature': c.violation(f'feature-unknown:{T}::{v}', f'the feature of {T}::{v} cannot be resolved ({r[0]})', src); continue
                if r[2] != want: c.violation(f'feature:{T}::{v}', f'{T}::{v} is reported as Feature::{r[2]}, not Feature::{want}', src); continue
                for n, x in fields_of(r).items():
                    c.count('feature payload fields')
                    if strip(x) != ('fld', n): c.violation(f'feature-field:{T}::{v}.{n}', f'Feature::{want}.{n} does not carry the {n} of {T}::{v}', src)
        c.sample(f'{T}: {len(p.variants(adt))} variants associated with their features')


def std_host(p, c):
    c.rule('the built-in system turns a request nobody handled into NotSupported{feature of that very request}, and returns the key it handed to the handler exactly when the handler took it')
    for m, status in (('perform_request', 'RequestStatus'), ('perform_command', 'CommandStatus')):
        fs = [f for f in p.fns if f.method == m and f.selfadt and f.selfadt.split('<')[0].endswith('StdSystem')]
        if not fs: raise Missing(f'StdSystem::{m}')
        fn = fs[0]
        sim, ex = runfn(p, fn, (refto('self'), ('arg', 'mc'), ('arg', 'what'), refto('proc')), rule=Host(p))
        taken = refused = 0
        for st, r in ex:
            r = strip(r)
            c.count('built-in dispatch exits')
            if r[0] != 'agg' or r[2] not in ('Ok', 'Err'):
                c.violation(f'{m}:shape', f'{m} returns something that is neither Ok nor Err', fn.loc()); continue
            calls = st.rs
            if len(calls) > 1: c.violation(f'{m}:twice', f'{m} asks the configured handler more than once', fn.loc())
            stat = None
            if calls:
                f = st.facts.get(calls[0])
                stat = f[1] if f and f[0] == 'is' else None
            if r[2] == 'Ok':
                taken += 1
                if stat != 'Handled': c.violation(f'{m}:accepted', f'{m} reports success although no handler took the request', fn.loc()); continue
                if strip(r[3][0]) not in [strip(a) for a in calls[0][3]]: c.violation(f'{m}:key', f'{m} returns a key that is not the one given to the handler', fn.loc())
            else:
                refused += 1
                if stat == 'Handled': c.violation(f'{m}:refused', f'{m} reports an error for a request a handler took', fn.loc()); continue
                e = strip(r[3][0])
                ft = fieldval(e, 'feature') if e[0] == 'agg' and e[2] == 'NotSupported' else None
                okv = {('arg', 'what')}
                if calls: okv |= {('p', ('p', calls[0], ('v', 'UseDefault')), ('f', x)) for x in ('request', 'command')}
                good = ft is not None and strip(ft)[0] == 'feature' and strip(strip(ft)[1]) in okv
                if not good: c.violation(f'{m}:error', f'{m} refuses a request with something other than NotSupported of that request\'s feature', fn.loc())
        if not taken: c.violation(f'{m}:never', f'{m} never accepts a request', fn.loc())
        if not refused: c.violation(f'{m}:always', f'{m} never refuses a request', fn.loc())


def host_errors(p, c):
    from issue import issues, IssueRule
    c.rule('whenever a host call made by an instruction (or the completion of a pending one) reports an error, the step ends with that very error')
    for v in p.variants(INS):
        rule, sim, ex = issues(p, c, v)
        some_host = False
        for st, ret in ex:
            for m, call, args in st.rs:
                f = st.facts.get(call)
                if m in FALLIBLE and (not f or f[0] != 'is'):
                    r = strip(ret)
                    if r == call or (r[0] == 'agg' and r[2] == 'Err'): continue
                    c.violation(f'host-ignored:{v}:{m}', f'{v} goes on without looking at whether {m} succeeded', p.fn('process::Process::step').loc()); continue
                if not f or f[0] != 'is' or f[1] != 'Err': continue
                some_host = True
                c.count('failing host calls')
                pay = ('p', ('p', call, ('v', 'Err')), ('f', '0'))
                r = strip(ret)
                if not (r[0] == 'agg' and r[2] == 'Err' and strip(r[3][0]) == pay) and not (r[0] == 'agg' and r[2] == 'Err' and mentions(r[3][0], lambda x: x == pay)):
                    c.violation(f'host-error:{v}:{m}', f'an error of {m} in {v} does not become the error of the step', p.fn('process::Process::step').loc())
        if some_host: c.count('instructions calling the host')
    for dv in p.variants(defer_adt(p)):
        rule, sim, ex = run_variant(p, c, None, rule=IssueRule(p, None, defer=dv))
        for st, ret in [(s, None) for s, _ in rule.decodes] + list(ex):
            for m, call, args in st.rs:
                if m not in FALLIBLE: continue
                f = st.facts.get(call)
                bad = f is None or f[0] != 'is' or f[1] == 'Err'
                c.count('failing polls', bool(bad))
                r = strip(ret) if ret is not None else ('?',)
                pay = ('p', ('p', call, ('v', 'Err')), ('f', '0'))
                if bad and not (r == call or (r[0] == 'agg' and r[2] == 'Err' and mentions(r[3][0], lambda x: x == pay))):
                    c.violation(f'poll-error:{dv}:{m}', f'an error of {m} for a pending {dv} does not become the error of the step', p.fn('process::Process::step').loc())


def time_features(p, c):
    c.rule('a system time that lacks a clock is reported as the feature of that clock')
    adt = 'runtime::SysTime'
    for m, feat, have in (('to_arbitrary_ms', 'ArbitraryTime', {'Arbitrary', 'Real'}), ('to_real_local', 'RealTime', {'Real'})):
        fn = selfarg_fn(p, adt, m)
        for v in p.variants(adt):
            isref = fn.locals[1].startswith('&')
            sim, ex = runfn(p, fn, (refto('self') if isref else mkvariant(p, adt, v),), store={(obj('self'), ()): mkvariant(p, adt, v)})
            for st, r in ex:
                c.count('time associations')
                r = strip(r)
                if v in have:
                    if r[0] != 'agg' or r[2] != 'Ok': c.violation(f'time:{m}:{v}', f'{m} fails although the system offers {v} time', fn.loc())
                else:
                    e = strip(r[3][0]) if r[0] == 'agg' and r[2] == 'Err' else ('?',)
                    ft = fieldval(e, 'feature') if e[0] == 'agg' and e[2] == 'NotSupported' else None
                    if ft is None or strip(ft)[0] != 'agg' or strip(ft)[2] != feat: c.violation(f'time:{m}:{v}', f'{m} on {v} time does not report NotSupported(Feature::{feat})', fn.loc())


def check(c):
    p = c.p
    feature_table(p, c)
    time_features(p, c)
    std_host(p, c)
    host_errors(p, c)
    c.floor('feature associations', 19); c.floor('feature payload fields', 8); c.floor('time associations', 6)
    c.floor('built-in dispatch exits', 6); c.floor('failing host calls', 20); c.floor('failing polls', 2); c.floor('instructions calling the host', 15)

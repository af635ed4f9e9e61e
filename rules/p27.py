"""P27: each event starts exactly the scripts bound to it."""
from sched import *
from p25 import trigger
from base import Missing

EVENT = 'runtime::Event'
BOUND = {'input Start': 'OnFlag', 'input KeyDown': 'OnKey', 'input CustomEvent': 'Custom', 'network': 'NetworkMessage', 'Broadcast': 'LocalMessage', 'CreatedClone': 'OnClone'}


def ev_field(p, n, script, variant, sub):
    """The place of an event's field of the given type, for a script."""
    names = [x for x, t in p.fields(EVENT, variant) if sub in t]
    if len(names) != 1: raise Missing(f'the {sub} of {variant}')
    cell = ('V', ('deref', ('init', (script[0], script[1] + (('f', n.f_event),)))))
    return (cell, (('f', '0'), ('v', variant), ('f', names[0])))


def optional_match(st, want_opt, key, facts):
    """None: not decided; otherwise whether an optional filter lets `key` through."""
    f = facts.get(want_opt)
    if f and f[0] == 'is' and f[1] == 'None': return True
    for e in st.rs:
        if e[0] == 'eq' and want_opt in e[1:3]:
            o = e[2] if e[1] == want_opt else e[1]
            if o[0] == 'agg' and o[2] == 'Some' and strip(o[3][0]) == key: return e[3]
        if e[0] == 'eq' and key in e[1:3] and any(mentions(x, lambda y: y == want_opt or (y[0] == 'init' and y[1][0] == want_opt[1][0] and y[1][1][:len(want_opt[1][1])] == want_opt[1][1])) for x in e[1:3]): return e[3]
    return None


def eq_with(st, a, place):
    for e in st.rs:
        if e[0] == 'eq' and a in e[1:3]:
            o = e[2] if e[1] == a else e[1]
            if mentions(o, lambda y: y == ('init', place)): return e[3]
    return None


def should_start(p, n, st, t, s, rule):
    """What a path established about whether script s is bound to trigger t: True, False or None (undecided)."""
    ev = event_fact(st, n, s, p.variants(EVENT))
    want = BOUND[t]
    if ev is None: return None
    if isinstance(ev, tuple): return False if want in ev[1] else None
    if ev != want: return False
    if t in ('input Start', 'CreatedClone'): return True
    if t == 'input KeyDown':
        return optional_match(st, ('init', ev_field(p, n, s, want, 'KeyCode')), ('fld', 'key'), st.facts)
    if t == 'input CustomEvent': return eq_with(st, ('fld', 'name'), named(p, n, s, want))
    if t == 'network':
        mt = next((x for x, ty in p.fields('runtime::IncomingMessage') if 'String' in ty or 'Text' in ty), None)
        for m in (('p', MSG, ('f', mt)), ('p', pay(MSG, 'Some'), ('f', mt))):
            r = eq_with(st, m, named(p, n, s, want))
            if r is not None: return r
        return None
    if t == 'Broadcast':
        txt = stepfield('Broadcast', next(x for x, ty in p.fields('process::ProcessStep', 'Broadcast') if 'Text' in ty or 'String' in ty))
        tgt = stepfield('Broadcast', next(x for x, ty in p.fields('process::ProcessStep', 'Broadcast') if 'Vec<' in ty))
        m = optional_match(st, ('init', named(p, n, s, want)), txt, st.facts)
        f = st.facts.get(tgt)
        tm = None
        if f == ('is', 'None'): tm = True
        elif f == ('is', 'Some'):
            ent = ('init', (s[0], s[1] + (('f', n.f_entity),)))
            for e in st.rs:
                if e[0] == 'same' and ent in e[1:3]:
                    o = e[2] if e[1] == ent else e[1]
                    src = elem_src(o)
                    if src is not None and mentions(src, lambda x: x == pay(tgt, 'Some')): tm = e[3]
                if e[0] == 'empty' and mentions(short_src(e[1]), lambda x: x == pay(tgt, 'Some')): tm = False
        if m is False or tm is False: return False
        if m is None or tm is None: return None
        return True


def short_src(it):
    if it[0] == 'iter' and it[1][0] == 'itn': return ITERS[it[1][1]]
    return it


def named(p, n, s, variant):
    """The place of the text (or optional text) an event is bound to."""
    names = [x for x, t in p.fields(EVENT, variant) if ('String' in t or 'Text' in t) and 'Vec' not in t]
    if len(names) != 1: raise Missing(f'the name of {variant}')
    cell = ('V', ('deref', ('init', (s[0], s[1] + (('f', n.f_event),)))))
    return (cell, (('f', '0'), ('v', variant), ('f', names[0])))



def check(c):
    p = c.p
    src = selfarg_fn(p, 'project::Project', 'step').loc()
    if EVENT not in p.adts: raise Missing(EVENT)
    c.rule('on every path of a trigger, the generic script is started if and only if the path established that its event is the trigger\'s kind and that the key, message or target condition holds')
    tr = all_traces(p)
    n = tr[0][2].n
    A = Ctx4(p, n.ctx)
    started = {}
    for label, mode, rule, sim, ex in tr:
        if mode == 'both': continue
        kinds = ['network'] if mode == 'message' else [label] if label in BOUND else ['Broadcast', 'CreatedClone'] if label == 'step' else []
        for st, ret in ex:
            pushes = evs(st, 'ctxpush')
            if kinds and unfinished_loops(st): c.violation(f'break:{label}:{mode}', f'{label}: going over the scripts stops early, so later scripts bound to the event are not started', src)
            for e in pushes:
                t = trigger(p, label, st, e)
                c.count('started scripts')
                if t not in BOUND: c.violation(f'unbound:{t}', f'{t} starts scripts although no event belongs to it', src); continue
                if t != 'CreatedClone' and coll_of(e[1]) != 'project': c.violation(f'range:{t}', f'{t} does not consider every script of the project', src)
                b = should_start(p, n, st, t, e[1], rule)
                started[t] = started.get(t, 0) + 1
                if b is not True: c.violation(f'wrong:{t}', f'{t} starts scripts ' + ('not bound to it' if b is False else 'without having checked that they are bound to it'), src)
                locals_(c, p, n, st, t, e, A, src)
            if len(pushes) > 1: c.violation(f'twice:{label}', f'{label}: one event starts a script twice', src)
            # paths on which the script was not started
            t = 'network' if mode == 'message' else label if label in BOUND else (case(p, st)[1] if len(case(p, st)) > 1 and case(p, st)[1] in BOUND else None)
            if t is None or pushes: continue
            ss = {s for s in scripts_of(st) if coll_of(s) == ('local' if t == 'CreatedClone' else 'project')}
            looked = [s for s in ss if should_start(p, n, st, t, s, rule) is not None]
            c.count('unstarted scripts')
            looped = [e for e in st.rs if e[0] == 'loop']
            if not looked:
                if looped and t != 'CreatedClone': c.violation(f'blind:{t}', f'{t}: a script is passed over without looking at its event', src)
                elif not looped: c.violation(f'noloop:{t}', f'{t} does not go over the scripts', src)
            for s in looked:
                if should_start(p, n, st, t, s, rule) is True: c.violation(f'missed:{t}', f'{t} passes over a script that is bound to it', src)
    for t in BOUND:
        if not started.get(t): c.violation(f'never:{t}', f'{t} starts no script at all', src)
        else: c.sample(f'{t} -> {BOUND[t]}: {started[t]} paths')
    c.floor('started scripts', 60); c.floor('unstarted scripts', 15)


def scripts_of(st):
    r = set()
    for v in st.facts: mentions(v, lambda x: len(x) == 2 and x[0] == 'V' and isinstance(x[1], tuple) and x[1][0] == 'script' and (r.add((x, ())) or False))
    for e in st.rs: mentions(e, lambda x: len(x) == 2 and x[0] == 'V' and isinstance(x[1], tuple) and x[1][0] == 'script' and (r.add((x, ())) or False))
    return r


def elem_of(v):
    r = []
    mentions(v, lambda x: x[0] == 'elem' and (r.append(x) or True))
    return r[0] if r else None


def locals_(c, p, n, st, t, e, A, src):
    """The variables a started script begins with."""
    i = st.rs.index(e)
    defs = [x for x in st.rs[:i] if x[0] == 'define']
    v = strip(fields_of(e[3])[A.locals])
    if t not in ('input CustomEvent', 'network'):
        if defs or not (v[0] == 'call' and v[1].endswith('::default') or v[0] == 'c' or v[0] == 'call' and v[1].endswith('::new')): c.violation(f'locals:{t}', f'a script started by {t} begins with variables set', src)
        return
    fl = [x for x, ty in p.fields(EVENT, BOUND[t]) if 'Vec' in ty or '[' in ty]
    if len(fl) != 1: raise Missing(f'the fields of {BOUND[t]}')
    cell = ('V', ('deref', ('init', (e[1][0], e[1][1] + (('f', n.f_event),)))))
    place = (cell, (('f', '0'), ('v', BOUND[t]), ('f', fl[0])))
    from_fields = lambda x: elem_src(x) is not None and mentions(elem_src(x), lambda y: y == place or y == ('init', place) or y == ('ref', place))
    if not defs: c.violation(f'fields:{t}', f'a script started by {t} does not get the declared variables', src); return
    for d in defs:
        name, val = d[2][0], d[2][-1]
        c.count('message variables')
        if not from_fields(name): c.violation(f'field-name:{t}', f'a script started by {t} gets variables other than those its event declares', src)
        got = []
        mentions(val, lambda x: x[0] == 'got' and (got.append(GOT[x[1]]) or True))
        if got:
            root, key = got[0]
            msg = ('fld', 'args') if t == 'input CustomEvent' else None
            okroot = mentions(root, lambda x: x == msg) if msg else mentions(root, lambda x: x == MSG or (x[0] == 'p' and x[1] == MSG)) or (root[0] == 'call' and 'collect' in root[1])
            if not okroot: c.violation(f'field-source:{t}', f'a variable of a script started by {t} is not taken from the message', src)
            if not from_fields(key) or elem_of(key) != elem_of(name): c.violation(f'field-key:{t}', f'a variable of a script started by {t} is taken from a different field of the message', src)
        elif not mentions(val, lambda x: x[0] == 'c' and x[1] == 'f' and float(x[2]) == 0): c.violation(f'field-default:{t}', f'a variable missing from the message is not 0 in a script started by {t}', src)

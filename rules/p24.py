"""P24: the scheduler neither loses nor revives a script."""
from sched import *
from base import Missing

ENDS = {('Err',), ('Ok', 'Terminate'), ('Ok', 'Abort', 'Current'), ('Ok', 'Abort', 'All')}


def drops_popped(e):
    """A retain that certainly drops / keeps the popped process."""
    r = set()
    for d, kept in retained(e[2]):
        key = next((v for k, v in d.items() if k[0] == 'eq' and any(is_popped(x) for x in k[1:])), None)
        if key is not False: r.add(kept)
    return r


def check_trace(c, p, label, mode, rule, st, ret, src):
    R = st.rs
    for e in R:
        if e[0].endswith('?'): c.violation(f'op:{label}:{e[0]}{e[1]}', f'{label}: cannot account for `{e[1]}` on the {"run queue" if e[0] == "queue?" else "processes" if e[0] == "procs?" else "scripts"}', src)
    c.count('scheduler paths')
    known_keys = set()
    pend = {}                      # key -> times pushed since the queue was last cleared
    dead = None
    for i, e in enumerate(R):
        if e[0] == 'insert': known_keys.add(e[1]); pend.setdefault(e[1], 0); c.count('created processes')
        if e[0] == 'pop':
            if e[1] in pend: c.violation(f'pop:{label}', f'{label}: takes more than one script from the run queue', src)
            known_keys.add(e[1]); pend[e[1]] = 0
        if e[0] in ('front', 'back'):
            if e[1] not in known_keys: c.violation(f'foreign:{label}', f'{label}: enters something into the run queue that is neither the script just taken from it nor a new process', src)
            else: pend[e[1]] += 1
        if e[0] == 'qclear':
            lost = [k for k in pend if pend[k] and not is_popped(k)]
            if lost: c.violation(f'lost-new:{label}', f'{label}: a process is created and its queue entry dropped again', src)
            for k in pend: pend[k] = 0
            only = any(x[0] == 'pretain' and not any(kept for d, kept in retained(x[2]) if not any(k[0] == 'eq' and any(is_popped(y) for y in k[1:]) and v for k, v in d.items())) for x in R)
            if not only and not any(x[0] == 'pclear' for x in R): c.violation(f'qclear:{label}', f'{label}: empties the run queue without removing the processes in it', src)
    for k, cnt in pend.items():
        if is_popped(k): continue
        gone = any(e[0] == 'pclear' for e in R)
        if cnt == 0 and not gone: c.violation(f'unqueued:{label}', f'{label}: a process is created but never entered into the run queue', src)
        if cnt > 1: c.violation(f'twice:{label}', f'{label}: a process is entered into the run queue more than once', src)
    pops = evs(st, 'pop')
    steps = evs(st, 'step')
    if steps and not pops: c.violation(f'unpopped:{label}', f'{label}: runs a script that was not taken from the run queue', src)
    if len(steps) > 1: c.violation(f'steps:{label}', f'{label}: runs more than one script step', src)
    if pops and len(steps) == 1:
        k = pops[0][1]
        if steps[0][1] != ('process', k): c.violation(f'other:{label}', f'{label}: runs a different process than the one it took from the run queue', src)
        if rule.alive(St({}, {}, R[:R.index(steps[0])]), k) is not True: c.violation(f'trust:{label}', f'{label}: runs a queue entry without checking that its process still exists', src)
        cs = case(p, st)
        if not cs or cs == ('Ok',): c.violation(f'case:{label}', f'{label}: goes on without looking at what the script did', src); return
        what = ' '.join(cs)
        i = R.index(steps[0])
        removed = any(e[0] == 'pclear' or e[0] == 'remove' and e[1] == k for e in R[i:]) or any(e[0] == 'pretain' and drops_popped(e) == {False} for e in R[i:])
        c.count('step outcomes')
        if cs in ENDS:
            if not removed: c.violation(f'kept:{what}', f'a script that ended ({what}) stays in the set of processes', src)
            if pend[k]: c.violation(f'revived:{what}', f'a script that ended ({what}) is put back into the run queue', src)
        else:
            if removed: c.violation(f'removed:{what}', f'a script that is still running ({what}) is removed', src)
            if pend[k] == 0: c.violation(f'dropped:{what}', f'a script that is still running ({what}) is not put back into the run queue', src)
            if pend[k] > 1: c.violation(f'dup:{what}', f'a script that is still running ({what}) is put back into the run queue more than once', src)
    elif pops and mode != 'message' and ret is not None:
        c.violation(f'skip:{label}', f'{label}: stops after taking a script from the run queue without running it', src)
    elif not pops and label == 'step' and mode == 'quiet' and not evs(st, 'popempty'):
        c.violation('nopop', 'a step ends without looking at the run queue', src)
    if pops and rule.alive(St({}, {}, R), pops[0][1]) is False and not steps and evs(st, 'front', 'back'): c.violation('requeue-dead', 'a queue entry whose process is gone is put back', src)


def check(c):
    p = c.p
    c.rule('on every path through step and input: the popped script is requeued exactly once or removed, exactly as its outcome demands; every inserted process is queued exactly once; the queue is emptied only together with the processes; no lookup of a possibly gone process is trusted')
    fn = selfarg_fn(p, 'project::Project', 'step')
    src = fn.loc()
    cases = set()
    for label, mode, rule, sim, ex in all_traces(p):
        for st, ret in ex:
            check_trace(c, p, label, mode, rule, st, ret, src)
            if evs(st, 'step'): cases.add(case(p, st)[:2])
        for rs, loc in rule.gone: c.violation(f'gone:{label}:{loc.rsplit(":", 1)[0]}', f'{label}: assumes that a process or queued start exists that may be gone', loc)
    # a lookup is only safe if it is safe for the second script of a loop as well
    r = SchedRule(p); r.iters = 2
    rule, sim, ex = step_traces(p, r)
    c.count('two-script paths', len(ex))
    for rs, loc in rule.gone: c.violation(f'gone:step:{loc.rsplit(":", 1)[0]}', 'the scheduler assumes that a process or queued start exists that may be gone', loc)
    for v in p.variants('process::ProcessStep'):
        if v != 'Idle' and ('Ok', v) not in cases: c.violation(f'unhandled:{v}', f'no path of the scheduler handles a script step of kind {v}', src)
    c.rule('starting a queued script inserts one process, queues that very key once and records it in the script')
    f, rule, sim, ex = consume_unit(p)
    started = 0
    for st, ret in ex:
        check_trace(c, p, 'starting a queued script', 'unit', rule, st, ret, f.loc())
        ins = evs(st, 'insert')
        if not ins: continue
        started += 1
        rec = [e for e in evs(st, 'setproc') if strip(e[2])[0] == 'agg' and strip(e[2])[2] == 'Some']
        if len(ins) != 1 or len(rec) != 1 or rec[0][1] != (obj('script'), ()) or strip(strip(rec[0][2])[3][0]) != ins[0][1]:
            c.violation('record', 'a started script does not remember the process it runs as', f.loc())
    if not started: c.violation('never', 'queued starts are never started', f.loc())
    for rs, loc in rule.gone: c.violation('gone:unit', 'starting a queued script assumes that something exists that may be gone', loc)
    # nothing else touches the containers
    c.rule('only code reachable from step and input changes the processes or the run queue')
    n = rule.n
    reach = set()
    for m in ('step', 'input'): reach |= closure_of(p, selfarg_fn(p, 'project::Project', m).id)
    for g in p.fns:
        if g.promoted or g.id in reach: continue
        for bi, cl in g.callees.items():
            if bi in g.reachable and not g.blocks[bi].cleanup and n.container(cl) in ('procs', 'queue') and cl.method in ('insert', 'remove', 'clear', 'retain', 'retain_mut', 'push_back', 'push_front', 'pop_front', 'pop_back', 'truncate', 'drain', 'swap', 'rotate_left', 'rotate_right', 'extend', 'append'):
                if 'slotmap' in g.file: continue
                c.violation(f'outside:{g.path}:{cl.method}', f'{g.path} changes the scheduler\'s containers outside step and input', g.loc())
        c.count('functions outside the scheduler')
    c.floor('scheduler paths', 100); c.floor('step outcomes', 40); c.floor('created processes', 5)

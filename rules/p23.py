"""P23: each stop block stops exactly the scripts it names."""
from sched import *
from stepm import run_variant, selfread
from base import Missing


def check(c):
    p = c.p
    fn = selfarg_fn(p, 'project::Project', 'step')
    src = fn.loc()
    c.rule('per stop mode, the set of processes removed (as a predicate over a generic process), the queued starts discarded and the fate of the requester are exactly those of the mode; outside stop requests only ended scripts and restarted scripts are removed')
    seen = {}
    tr = all_traces(p)
    n = tr[0][2].n
    for label, mode, rule, sim, ex in tr:
        for st, ret in ex:
            R = st.rs
            cs = case(p, st) if evs(st, 'step') else (label,)
            k = next((e[1] for e in evs(st, 'pop')), None)
            i = index_of(st, 'step') if evs(st, 'step') else -1
            E = R[i + 1:]
            names = {e[0] for e in E}
            queued = sum(1 for e in E if e[0] in ('front', 'back') and e[1] == k)
            clears = [e[1] for e in E if e[0] == 'ctxclear']
            c.count('paths')
            if cs[:2] == ('Ok', 'Abort'):
                m = cs[2] if len(cs) > 2 else '?'
                what = f'stop {m}'
                seen[m] = seen.get(m, 0) + 1
                if m == 'Current':
                    others = [e for e in E if e[0] in ('pclear', 'qclear', 'pretain', 'sretain', 'ctxclear') or e[0] == 'remove' and e[1] != k]
                    if others: c.violation(f'current-others:{others[0][0]}', 'stopping this script also affects other scripts', src)
                    if not any(e[0] == 'remove' and e[1] == k for e in E) or queued: c.violation('current-lives', 'a script that stops itself stays scheduled', src)
                elif m == 'All':
                    stop_everything(c, st, E, 'stop all', src)
                    if queued: c.violation('all-lives', 'the script that stops everything stays scheduled', src)
                elif m == 'Others':
                    rt = [e for e in E if e[0] == 'pretain']
                    if 'pclear' in names or 'remove' in names or 'sretain' in names or len(rt) != 1: c.violation('others-how', 'stopping the other scripts does not remove exactly the other processes', src); continue
                    for d, kept in retained(rt[0][2]):
                        same = next((v for q, v in d.items() if q[0] == 'eq' and k in q[1:] and ('rk', rt[0][1]) in q[1:]), None)
                        c.count('predicate rows')
                        if same is None: c.violation('others-key', 'stopping the other scripts does not tell the requester by its key', src)
                        elif kept is not same: c.violation(f'others-{"self" if same else "rest"}', 'stopping the other scripts ' + ('also stops the requester' if same else 'spares another script'), src)
                    if queued != 1: c.violation('others-requeue', 'the script that stops the others does not go on', src)
                elif m == 'MyOthers':
                    rt = [e for e in E if e[0] == 'pretain']
                    if 'pclear' in names or 'remove' in names or 'sretain' in names or 'ctxclear' in names or 'qclear' in names or len(rt) != 1: c.violation('mine-how', "stopping the sprite's other scripts does not remove exactly those processes", src); continue
                    rv = ('rv', rt[0][1])
                    for d, kept in retained(rt[0][2]):
                        same = next((v for q, v in d.items() if q[0] == 'eq' and k in q[1:] and ('rk', rt[0][1]) in q[1:]), None)
                        ent = None
                        for q, v in d.items():
                            if q[0] != 'same': continue
                            A, B = sides(q)
                            theirs = [x for x in (A, B) if frame_of(x) and frame_of(x)[1] == rv]
                            mine = [x for x in (A, B) if frame_of(x) and frame_of(x)[1] in (('process', k),)]
                            if len(theirs) == 1 and len(mine) == 1:
                                if frame_of(theirs[0])[0] != 'first': c.violation('mine-their-sprite', 'another script belongs to a sprite by where it currently runs, not by where it was started', src)
                                if frame_of(mine[0])[0] != 'last': c.violation('mine-my-sprite', "the requester's sprite is not the one the stop block runs on", src)
                                ent = v
                            else: c.violation('mine-compare', "stopping the sprite's other scripts compares something other than the requester's sprite and the script's sprite", src)
                        c.count('predicate rows')
                        if same is True: want = True
                        elif ent is None: c.violation('mine-sprite', "stopping the sprite's other scripts does not look at the sprite", src); continue
                        elif same is False or ent is False: want = not ent
                        else: c.violation('mine-key', "stopping the sprite's other scripts does not spare the requester by its key", src); continue
                        if kept is not want: c.violation(f'mine-{"self" if same else "other" if want else "rest"}', "stopping the sprite's other scripts " + ('also stops the requester' if same else 'also stops a script of another sprite' if want else 'spares a script of the sprite'), src)
                    if queued != 1: c.violation('mine-requeue', "the script that stops its sprite's others does not go on", src)
                else: c.violation(f'mode:{m}', f'no stop set is known for mode {m}', src)
                continue
            if label == 'input Stop':
                seen['input Stop'] = 1
                stop_everything(c, st, E, 'an external stop', src)
                continue
            what = ' '.join(cs)
            if 'pclear' in names or 'qclear' in names: c.violation(f'clear:{what}', f'{what}: stops every script although none asked for it', src)
            if 'pretain' in names and cs != ('Ok', 'DeletedClone'): c.violation(f'retain:{what}', f'{what}: stops scripts although none asked for it', src)
            own = {q for s in pushed(st) for q in [procfield(n, s)]}
            for e in E:
                if e[0] == 'remove' and e[1] != k and e[1] not in own: c.violation(f'remove:{what}', f'{what}: ends the process of a script that is neither over nor being restarted', src)
                if e[0] == 'remove' and e[1] == k and cs[:2] not in (('Err',), ('Ok', 'Terminate')): c.violation(f'end:{what}', f'{what}: ends a script that is still running', src)
                if e[0] == 'ctxclear' and e[1] not in pushed(st): c.violation(f'unqueue:{what}', f'{what}: discards queued starts of a script that is not being restarted', src)
    for m in p.variants('runtime::AbortMode') if 'runtime::AbortMode' in p.adts else p.variants(abort_adt(p)):
        if m not in seen: c.violation(f'unhandled:{m}', f'the scheduler handles no stop of kind {m}', src)
    if 'input Stop' not in seen: c.violation('unhandled:input', 'an external stop is not handled', src)
    # the instruction hands over the mode it was compiled with
    c.rule('a stop instruction reports to the scheduler exactly the mode it carries')
    rule, sim, ex = run_variant(p, c, 'Abort')
    for st, ret in ex:
        r = strip(ret)
        v = strip(r[3][0]) if r[0] == 'agg' and r[2] == 'Ok' else None
        m = fieldval(v, 'mode') if v is not None and v[0] == 'agg' and v[2] == 'Abort' else None
        c.count('stop instruction paths')
        okv = m is not None and (strip(m)[0] == 'op' or strip(m) == ('op', 'mode'))
        if not okv:
            f = [x[1] for key, x in st.facts.items() if x[0] == 'is' and x[1] in p.variants(abort_adt(p))]
            sm = strip(m) if m is not None else ('?',)
            okv = sm[0] == 'agg' and sm[2] in f
        if not okv: c.violation('instr', 'the stop instruction does not report the mode it carries', p.fn('process::Process::step').loc())
    c.floor('stop instruction paths', 1); c.floor('predicate rows', 5); c.floor('paths', 100)
    for m in sorted(seen): c.sample(f'{m}: {seen[m]} paths')


def abort_adt(p):
    for n, t in p.fields('process::ProcessStep', 'Abort'): return strip_ty(t)
    raise Missing('ProcessStep::Abort')


def sides(q): return q[1], q[2]


def frame_of(v):
    """('first'|'last', process) when v is the entity of a call frame of a process."""
    if v[0] == 'init' and v[1][0][0] == 'V' and v[1][0][1][0] == 'frame': return v[1][0][1][1], v[1][0][1][2]
    if v[0] == 'init' and v[1][0][0] == 'V' and v[1][0][1][0] == 'frames' and v[1][1] and v[1][1][0][0] == 'i':
        k, pr = v[1][1][0][1], v[1][0][1][1]
        if k[:3] == ('c', 'i', '0'): return 'first', pr
        if k[:3] == ('bin', 'Sub', ('framelen', pr)) and k[3][:3] == ('c', 'i', '1'): return 'last', pr
    return None


def pushed(st): return [e[1] for e in evs(st, 'ctxpush')]


def procfield(n, s): return ('init', (s[0], s[1] + (('f', n.f_process), ('v', 'Some'), ('f', '0'))))


def stop_everything(c, st, E, what, src):
    names = [e[0] for e in E]
    if 'pclear' not in names: c.violation(f'{what}:processes', f'{what} leaves processes behind', src)
    elif 'insert' in names[names.index('pclear'):]: c.violation(f'{what}:restart', f'{what} starts scripts again', src)
    if evs(st, 'partial') or [s for s in unfinished_loops(st)]: c.violation(f'{what}:partial', f'{what} does not go over all scripts', src)
    loops = [e for e in E if e[0] == 'ctxclear' and is_script(e[1])]
    if not loops:
        # a path on which there is no script at all is fine
        if any(e[0] == 'loop' for e in E) or True: c.violation(f'{what}:queued', f'{what} keeps queued starts of scripts', src)
    elif any(e[0] == 'consume' for e in E[E.index(loops[-1]):]) and names.index('consume') < names.index('pclear') and 'ctxclear' not in names[:names.index('consume')]: c.violation(f'{what}:consume', f'{what} starts queued scripts', src)

"""P28: clones gain all scripts of their original and deletion removes all traces."""
from sched import *
from stepm import *
from p23 import frame_of
from base import Missing


def check(c):
    p = c.p
    src = selfarg_fn(p, 'project::Project', 'step').loc()
    rule, sim, ex = step_traces(p)
    n = rule.n
    CL = {v: stepfield(v, by_type(p, 'process::ProcessStep', 'Entity<', v)) for v in ('CreatedClone', 'DeletedClone')}
    org = [x for x, t in p.fields('runtime::Entity') if 'Option' in t and 'Entity<' in t]
    if len(org) != 1: raise Missing('the original of a clone')
    ORG = ('init', (('V', ('cell', CL['CreatedClone'])), (('f', org[0]), ('v', 'Some'), ('f', '0'))))
    c.rule('creating a clone copies every script whose sprite is the one the clone was made of - same event and entry point, the clone as its sprite, idle and nothing queued - and adds the copies to the project')
    made = 0
    for st, ret in ex:
        if case(p, st) != ('Ok', 'CreatedClone'): continue
        R = st.rs
        c.count('clone creation paths')
        if evs(st, 'partial'): c.violation('partial', 'a clone is bound only to some of the scripts of its original', src)
        if unfinished_loops(st): c.violation('break', 'binding the scripts of a clone stops early', src)
        news = evs(st, 'newscript')
        sames = [e for e in evs(st, 'same')]
        dec = None
        for e in sames:
            for a, b in ((e[1], e[2]), (e[2], e[1])):
                if b[0] == 'init' and b[1][1][-1:] == (('f', n.f_entity),) and is_script((b[1][0], b[1][1][:-1])):
                    if a == ORG: dec = e[3]
                    else: c.violation('original', 'a clone takes scripts of a sprite other than the one it was made of', src)
        if dec is None:
            if any(e[0] == 'loop' for e in R) or not news: c.violation('compare', 'creating a clone does not compare the sprite of each script with the original', src)
            continue
        if dec is not bool(news): c.violation('copy', 'a script of the original is not copied to the clone' if dec else 'a script of another sprite is copied to the clone', src)
        if not dec: continue
        made += 1
        for e in news:
            v = fields_of(e[2])
            sc = next((b[1][0] for x in sames for b in x[1:3] if b[0] == 'init' and b[1][1][-1:] == (('f', n.f_entity),)), None)
            if strip(v[n.f_entity]) != CL['CreatedClone']: c.violation('sprite', 'the copied script does not belong to the clone', src)
            if strip(v[n.f_event]) != ('init', (sc, (('f', n.f_event),))): c.violation('event', 'the copied script is bound to another event', src)
            if strip(v[n.f_process]) != NONE: c.violation('process', 'the copied script starts out as running', src)
            q = strip(v[n.f_queue])
            if mentions(q, lambda x: x == sc): c.violation('queue', 'the copied script inherits queued starts', src)
        ext = evs(st, 'extend')
        added = [e for e in news if e[1] == 'project'] or [e for e in ext if e[1] == 'project']
        if not added: c.violation('add', 'the scripts of a clone are not added to the project', src)
        run = [e for e in evs(st, 'ctxpush')]
        if any(coll_of(e[1]) not in ('local', 'project') for e in run): c.violation('start', 'creating a clone starts scripts other than its own', src)
        if any(coll_of(e[1]) == 'project' for e in run) and not ext: pass
        for e in run:
            if ext and R.index(e) > R.index(ext[0]) and coll_of(e[1]) == 'local': c.violation('late', 'a clone script is started after it was handed over', src)
    if not made: c.violation('never', 'clones get no scripts', src)
    c.rule('deleting a clone removes exactly the scripts bound to it and exactly the processes started on it')
    dele = 0
    for st, ret in ex:
        if case(p, st) != ('Ok', 'DeletedClone'): continue
        dele += 1
        c.count('clone deletion paths')
        for kind, what in (('sretain', 'scripts'), ('pretain', 'processes')):
            rt = evs(st, kind)
            if len(rt) != 1: c.violation(f'{what}:keep', f'deleting a clone does not remove its {what}', src); continue
            for d, kept in retained(rt[0][2]):
                same = None
                c.count('predicate rows')
                for q, v in d.items():
                    if q[0] != 'same': continue
                    other = q[1] if q[2] == CL['DeletedClone'] else q[2] if q[1] == CL['DeletedClone'] else None
                    if other is None: continue
                    if kind == 'sretain' and other == ('init', (('V', ('rs', rt[0][1])), (('f', n.f_entity),))): same = v
                    if kind == 'pretain' and frame_of(other) and frame_of(other)[1] == ('rv', rt[0][1]):
                        same = v
                        if frame_of(other)[0] != 'first': c.violation('frame', 'the processes of a deleted clone are told by where they currently run, not by where they were started', src)
                if same is None: c.violation(f'{what}:how', f'which {what} a deleted clone loses is not decided by its identity', src)
                elif kept is same: c.violation(f'{what}:{"own" if same else "other"}', f'deleting a clone ' + (f'keeps its {what}' if same else f'removes {what} of other sprites'), src)
    if not dele: c.violation('nodelete', 'deleting a clone is not handled', src)
    # ---- instructions
    c.rule('a clone is only reported after it was made of the sprite it copies, and only clones are reported for deletion')
    psrc = p.fn('process::Process::step').loc()
    for v, step in (('Clone', 'CreatedClone'), ('DeleteClone', 'DeletedClone')):
        if v not in p.variants(INS): raise Missing(f'instruction {v}')
        rule, sim, ex2 = run_variant(p, c, v, rule=CloneRule(p, v))
        n2 = 0
        for st, ret in ex2:
            r = strip(ret)
            if not (r[0] == 'agg' and r[2] == 'Ok'): continue
            s = strip(r[3][0])
            c.count('instruction paths')
            facts = [f for k, f in st.facts.items() if mentions(k, lambda x: x == ('f', org[0])) and f[0] == 'is' and f[1] in ('Some', 'None')]
            if v == 'DeleteClone':
                if s[2] == step:
                    n2 += 1
                    if ('is', 'Some') not in facts: c.violation('delete-any', 'a sprite that is not a clone can be deleted', psrc)
                    e = strip(s[3][0])
                    if not mentions(e, lambda x: x == ('f', 'entity')) : c.violation('delete-which', 'the deleted clone is not the sprite the script runs on', psrc)
                elif ('is', 'Some') in facts: c.violation('delete-not', 'deleting a clone does nothing', psrc)
            else:
                if s[2] != step: c.violation('clone-not', 'creating a clone is not reported to the scheduler', psrc); continue
                n2 += 1
                agg = [e for e in st.rs if e and e[0] == 'entity']
                if len(agg) != 1: c.violation('clone-make', 'creating a clone does not make exactly one sprite', psrc); continue
                o = strip(fields_of(agg[0][1])[org[0]])
                if not (o[0] == 'agg' and o[2] == 'Some'): c.violation('clone-original', 'a clone does not know what it was made of', psrc)
                c.count('made clones')
        if not n2: c.violation(f'none:{v}', f'{v} never succeeds', psrc)
    c.floor('clone creation paths', 4); c.floor('predicate rows', 4); c.floor('instruction paths', 3)


class CloneRule(StepRule):
    keep = True
    def on_agg(self, sim, st, cx, val):
        super().on_agg(sim, st, cx, val)
        if val[0] == 'agg' and strip_ty(val[1]) == 'runtime::Entity': st.rs = st.rs + (('entity', val),)

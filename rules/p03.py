"""P03: every step moves on, suspends with a way to resume, or ends."""
from sim import *
from stepm import *
from base import Missing


def code_operands(p, variant):
    """Operands of the variant that hold code addresses (usize operands written as relocatable positions)."""
    return [n for n, t in p.fields(INS, variant) if t == 'usize']


def check(c):
    p = c.p
    step, impl = entry_of(p, c)
    fpos = 'pos' if any(n == 'pos' for n, _ in p.fields(PROC)) else None
    fdefer = field_by_type(p, PROC, lambda t: 'Option' in t and 'Defer' in t)
    if not fpos or not fdefer: raise Missing('Process::pos / Process::defer')
    D = defer_adt(p)
    cleared = ended_modes(c, p, step, impl, fpos)
    c.rule('for every instruction variant, every successful exit of the instruction leaves exactly one of: the position set to the next instruction, to an operand address, to a ring body or to the return address; one pending operation resuming at the next instruction; or an end of the script (Terminate, or an Abort mode that step() turns into idle). Failing exits leave no pending operation behind')
    for v in p.variants(INS):
        rule, sim, ex = run_variant(p, c, v)
        c.count('instruction variants')
        c.count('abstract states', sim.nstates)
        if not ex: c.violation(f'noexit:{v}', f'instruction {v} has no exit', impl.loc())
        for st, args in rule.decodes:
            if selfread(sim, st, fpos) not in args and not any(a == ('init', (SELF, (('f', fpos),))) for a in args):
                c.violation(f'decode:{v}', 'the instruction is not decoded at the current position', impl.loc())
        codeops = code_operands(p, v)
        for st, ret in ex:
            c.count('instruction exits')
            pos, defer = selfread(sim, st, fpos), selfread(sim, st, fdefer)
            moved = selfwritten(st, fpos) and pos != ('init', (SELF, (('f', fpos),)))
            susp = defer != NONE
            if ret[0] != 'agg' or ret[2] not in ('Ok', 'Err'):
                # result handed through from an opaque callee
                c.violation(f'result:{v}', f'{v}: the outcome of the instruction cannot be followed ({ret[0]})', impl.loc()); continue
            if ret[2] == 'Err':
                if susp: c.violation(f'err-pending:{v}', f'{v} fails but leaves a pending operation that would fire after the error is caught', impl.loc())
                continue
            k = ret[3][0]
            kind = k[2] if k[0] == 'agg' else '?'
            ends = kind == 'Terminate'
            if kind == 'Abort':
                mode = k[3][0]
                mv = mode[2] if mode[0] == 'agg' else (st.facts.get(strip(mode)) or ('?', '?'))[1]
                ms = {mv} if isinstance(mv, str) else None
                ends = ms is not None and ms <= cleared
                if ms is None:
                    allm = set(p.variants('bytecode::AbortMode') or p.variants('runtime::AbortMode') or [])
                    neg = set(mv) if st.facts.get(strip(mode), ('',))[0] == 'not' else set()
                    ends = bool(allm) and (allm - neg) <= cleared
            if kind in ('Idle',): c.violation(f'idle:{v}', f'{v} reports an idle script while running', impl.loc())
            if susp:
                good = defer[0] == 'agg' and defer[2] == 'Some' and defer[3][0][0] == 'agg' and defer[3][0][1] == D
                if not good: c.violation(f'defer-shape:{v}', f'{v}: pending operation of unknown shape', impl.loc()); continue
                d = defer[3][0]
                aft = [x for n, x in zip(d[4], d[3]) if x == AFT]
                if len(aft) != 1: c.violation(f'defer-resume:{v}', f'{v}: its pending {d[2]} does not resume at the instruction after it', impl.loc())
                if moved: c.violation(f'moved-and-pending:{v}', f'{v} both moves on and leaves a pending {d[2]}: the next instruction would run twice or early', impl.loc())
                if ends: c.violation(f'end-and-pending:{v}', f'{v} ends the script with a pending {d[2]}', impl.loc())
                c.count('suspending exits')
            elif moved:
                okpos = pos == AFT or (pos[0] == 'op' and pos[1] in codeops) or is_frame_return(p, pos) or is_closure_pos(p, pos)
                if ends and kind != 'Abort': okpos = True
                if not okpos: c.violation(f'target:{v}', f'{v} continues at something other than the next instruction, its own target, a ring body or the return address', impl.loc())
                c.count('continuing exits')
            elif not ends:
                c.violation(f'stuck:{v}:{kind}', f'{v} succeeds ({kind}) without moving on, suspending or ending: it would repeat forever', impl.loc())
            else: c.count('ending exits')
    resume(c, p, impl, fpos, fdefer, D)
    writers(c, p, step, impl, fpos, fdefer)
    c.floor('instruction variants', 90); c.floor('suspending exits', 20); c.floor('pending kinds', 5)


def is_frame_return(p, v):
    """A usize read from the top call frame."""
    return v[0] == 'init' and v[1][0][0] == 'V' and v[1][0][1][:2] == ('topof', 'call') and len(v[1][1]) == 1 and return_field(p) == v[1][1][0][1]


_rf = {}
def return_field(p):
    """The frame field that calls fill with the address after the call."""
    if p in _rf: return _rf[p]
    r = set()
    for var in p.variants(INS):
        if 'Call' not in var: continue
        class R(StepRule):
            def on_agg(self, sim, st, cx, val):
                if val[1].endswith('CallFrame'):
                    for n, x in zip(val[4], val[3]):
                        if x == AFT: r.add(n)
        run_variant(p, None, var, rule=R(p, var))
    _rf[p] = r.pop() if len(r) == 1 else None
    return _rf[p]


def is_closure_pos(p, v):
    """The code address stored in a ring taken from the operand stack."""
    if not (v[0] == 'init' or v[0] == 'p'): return False
    last = v[1][1][-1] if v[0] == 'init' and v[1][1] else v[2] if v[0] == 'p' else None
    return last == ('f', 'pos') and mentions(v, lambda x: x[0] in ('in', 'seg', 'segs', 'elem', 'call'))


def ended_modes(c, p, step, impl, fpos):
    """Abort modes after which step() makes the process idle."""
    modes = set()
    adt = None
    for a in p.adts:
        if a.endswith('::AbortMode'): adt = a
    for m in p.variants(adt):
        class R(StackRule):
            def on_call(self, sim, st, cx, callee, args, site):
                if callee is not None and callee.local == impl.id:
                    return [(st, ok(('agg', STEP(p), 'Abort', (('agg', adt, m, (), ()),), ('mode',))))]
                if callee is not None and callee.method == 'is_running': return [(st, TRUE)]
                return super().on_call(sim, st, cx, callee, args, site)
        sim = Sim(p, R(p))
        ex = sim.run(step, (('ref', (SELF, ())),) + tuple(('arg', str(i)) for i in range(1, step.nargs)))
        if ex and all(is_max(selfread(sim, st, fpos)) for st, _ in ex): modes.add(m)
    return modes


def STEP(p):
    for a in p.adts:
        if a.endswith('::ProcessStep'): return a
    raise Missing('ProcessStep')


def is_max(v):
    if v[0] == 'c' and v[1] == 'def' and v[2].endswith('::MAX'): return True
    return v[0] == 'c' and v[1] == 'i' and v[2] in (str(2**64 - 1),)


def resume(c, p, impl, fpos, fdefer, D):
    c.rule('for every kind of pending operation: an exit that has not finished returns Yield with the same operation still pending (same fields) and nothing else changed; the prologue reaches the decode of the next instruction only with no operation pending, the position set to the stored resume address, and the polled outcome known to be complete')
    for d in p.variants(D):
        c.count('pending kinds')
        rule = ResumeRule(p, None, d)
        sim = Sim(p, rule, 200000)
        st, args = rule.start(sim, impl)
        ex = sim.run(impl, args, st)
        fs = p.fields(D, d)
        orig = ('agg', D, d, tuple(('dop', n) for n, _ in fs), tuple(n for n, _ in fs))
        if not rule.decodes: c.violation(f'resume-never:{d}', f'a pending {d} never lets the script continue', impl.loc())
        for st, _a in rule.decodes:
            c.count('resume paths')
            pos, df = selfread(sim, st, fpos), selfread(sim, st, fdefer)
            if df != NONE: c.violation(f'resume-still-pending:{d}', f'the script continues while its {d} is still pending', impl.loc())
            if not (pos[0] == 'dop' and pos[1] in [n for n, t in fs if t == 'usize']):
                c.violation(f'resume-where:{d}', f'after a pending {d} finishes the script does not continue at the stored address', impl.loc())
            if pending_fact(st) is not False: c.violation(f'resume-early:{d}', f'the script continues although its {d} has not finished', impl.loc())
        ys = 0
        for st, ret in ex:
            if ret[0] == 'agg' and ret[2] == 'Err':
                if selfread(sim, st, fdefer) != NONE: c.violation(f'resume-err:{d}', f'a failed {d} stays pending', impl.loc())
                continue
            ys += 1
            c.count('still-pending paths')
            df = selfread(sim, st, fdefer)
            k = ret[3][0] if ret[0] == 'agg' and ret[3] else ('?',)
            if k[0] != 'agg' or k[2] != 'Yield': c.violation(f'pending-noyield:{d}', f'a script waiting on {d} returns {k[2] if len(k) > 2 else k} instead of yielding', impl.loc())
            if df != some(orig): c.violation(f'pending-lost:{d}', f'a {d} that has not finished is dropped or altered', impl.loc())
            if pending_fact(st) is not True: c.violation(f'pending-finished:{d}', f'a finished {d} is kept pending', impl.loc())
            for (b, pr), v in st.store.items():
                if b == SELF and pr and pr[0] != ('f', fdefer) and v != ('init', (b, pr)) and v[0] != 'stk':
                    c.violation(f'pending-effect:{d}:{pr[0][1]}', f'waiting on {d} changes {pr[0][1]}', impl.loc())
                if b == SELF and v[0] == 'stk' and v != stk(v[1]):
                    c.violation(f'pending-effect:{d}:{pr[0][1]}', f'waiting on {d} changes the {v[1]} stack', impl.loc())
        if not ys: c.violation(f'pending-never:{d}', f'a {d} that has not finished is not waited for', impl.loc())


class ResumeRule(StepRule):
    """Remembers on each path what the poll said: rs = 'pending' / 'done'."""
    init_rs = ''

    def on_branch(self, sim, st, cx, v, choice):
        if isinstance(choice, tuple):
            if choice[0] == 'is': choice = choice[1]
            elif choice[0] == 'not' and choice[1] <= {'0', '1'}: choice = '0' if '1' in choice[1] else '1'
            else: return
        if choice in ('Pending', 'Completed') and v[0] in ('p', 'call'): st.rs = 'pending' if choice == 'Pending' else 'done'
        if v[0] == 'call' and v[1].endswith('is_completed'): st.rs = 'done' if choice == '1' else 'pending'
        if v[0] == 'bin' and v[1] in ('Ge', 'Gt', 'Le', 'Lt'):
            au, bu = is_dop(v[2]), is_dop(v[3])
            if au == bu: return
            reached = (v[1] in ('Ge', 'Gt')) == bu          # the comparison says the time has come
            st.rs = 'done' if reached == (choice == '1') else 'pending'


def pending_fact(st):
    """True/False when the path fixed the outcome of the poll to pending/finished, None if unknown."""
    return {'pending': True, 'done': False}.get(st.rs)


def is_dop(v): return v[0] == 'dop' or (v[0] in ('cast', 'conv', 'clone') and is_dop(v[1]))


def writers(c, p, step, impl, fpos, fdefer):
    c.rule('only the step of a process and its construction write its position or pending operation')
    allowed = p.reach([step.id]) | p.reach([f.id for f in p.fns if f.path == 'process::Process::new'])
    for f in p.fns:
        for bi in f.reachable:
            blk = f.blocks[bi]
            if blk.cleanup: continue
            for s in blk.stmts:
                pl = None
                if s[0] == '=':
                    pl = s[1]
                    if s[2][0] == 'ref' and s[2][1] == 'mut': wr = [pl, s[2][2]]
                    else: wr = [pl]
                    for q in wr:
                        for e in q[1:]:
                            if isinstance(e, list) and e[0] == 'f' and len(e) > 3 and e[3].endswith('process::Process') and e[2] in (fpos, fdefer):
                                c.count('writes of position or pending operation')
                                if f.id not in allowed: c.violation(f'writer:{f.path}:{e[2]}', f'{f.path} writes a process\'s {e[2]} outside its step', f.loc(s[3]))


def rule_src(p):
    for f in find_step_impl(p): return f.loc()
    return ''

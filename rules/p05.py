"""P05: catching an error or returning restores the surrounding context exactly."""
from sim import *
from stepm import *
from base import Missing
import p03, p04


class CtxRule(StepRule):
    """Adds: unwinding of the custom process state, and branches on the depth of the call stack."""
    init_rs = ((), ())

    def on_call(self, sim, st, cx, callee, args, site):
        return unwind_call(sim, st, callee, args, site) or super().on_call(sim, st, cx, callee, args, site)

    def on_branch(self, sim, st, cx, v, choice): depth_branch(st, v, choice)


class CatchRule(p04.StepOuter):
    init_rs = ((), ())
    mark = staticmethod(lambda v: v == ('ins', 'cause'))

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method in ('define_or_redefine', 'define', 'insert') and len(args) >= 3 and callee.local:
            tgt = args[0][1] if args[0][0] == 'ref' else args[0]
            st.rs = (st.rs[0] + (('define', tgt, deep(sim, st, args[1]), args[2]),), st.rs[1])
            return [(st, UNIT)]
        return unwind_call(sim, st, callee, args, site) or super().on_call(sim, st, cx, callee, args, site)


def deep(sim, st, v):
    v = strip(v)
    for _ in range(3):
        if v[0] == 'ref':
            if v[1][0][0] == 'V' and v[1][0][1][0] == 'deref' and not v[1][1]: v = strip(v[1][0][1][1]); continue
            v = strip(sim.read(st, v[1])); continue
        break
    return v


def unwind_call(sim, st, callee, args, site):
    if callee is None or not (callee.trait and callee.trait.endswith('Unwindable')): return None
    if callee.method == 'get_unwind_point':
        return [(st, ('unwindpoint', args[0]))]
    if callee.method == 'unwind_to':
        tgt = sim.read(st, sim.deref(args[1]))
        st.rs = (st.rs[0] + (('unwind', args[0], tgt),), st.rs[1])
        return [(st, UNIT)]
    return None


def depth_branch(st, v, choice):
    if v[0] != 'bin' or v[1] not in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne'): return
    if isinstance(choice, tuple): choice = choice[1] if choice[0] == 'is' else ('0' if '1' in choice[1] else '1')
    a, b = lin(v[2]), lin(v[3])
    d = ladd(a, b, -1)
    k = [x for x in d if x != '']
    if k == [('len0', 'call')]:
        op = {'Gt': lambda x: x > 0, 'Ge': lambda x: x >= 0, 'Lt': lambda x: x < 0, 'Le': lambda x: x <= 0, 'Eq': lambda x: x == 0, 'Ne': lambda x: x != 0}[v[1]]
        sat = tuple(n for n in range(1, 6) if op(d[k[0]] * n + d.get('', 0)) == (choice == '1'))
        st.rs = (st.rs[0], st.rs[1] + (sat,))


def components(rule, sim, st, agg, extra):
    """field -> which part of the surrounding context it saved."""
    r = {}
    lens = {}
    for s, f in rule.stacks.items():
        cur = selfread(sim, st, f)
        if cur[0] == 'stk':
            items = cur[3][:-1] if agg in cur[3] else cur[3]
            lens[s] = rule.length(cur[:3] + (items, cur[4]))
        else: lens[s] = {('len0', s): 1}
    for n, v in zip(agg[4], agg[3]):
        if v == AFT: r[n] = 'return address'
        elif v == ('init', (SELF, (('f', 'warp_counter'),))): r[n] = 'warp state'
        elif v[0] == 'unwindpoint': r[n] = 'custom state' if v[1] == ('ref', (SELF, (('f', 'state'),))) else '?'
        elif v in extra: r[n] = extra[v]
        elif deep(sim, st, v) in extra: r[n] = extra[deep(sim, st, v)]
        elif mentions(v, lambda x: x in extra): r[n] = [extra[x] for x in subvalues(v) if x in extra][0]
        else:
            l = lin(v)
            for s, L in lens.items():
                if l == L: r[n] = s + ' stack'
    return r


FRAME = {'return address', 'warp state', 'value stack', 'handler stack', 'custom state'}
HANDLER = {'handler position', 'variable', 'warp state', 'call stack', 'value stack', 'custom state'}


def find(c, p):
    """Which field of frames/handlers saves what, from every place that pushes one."""
    frames, handlers = {}, {}
    callf = next(n for n, t in p.fields(PROC) if n == stack_fields(p)['call'])
    for v in p.variants(INS):
        rule, sim, ex = run_variant(p, c, v, rule=CtxRule(p, v))
        for st, ret in ex:
            if ret[0] != 'agg' or ret[2] != 'Ok': continue
            for s, tab, need, extra in (('call', frames, FRAME, {}), ('handler', handlers, HANDLER, {('op', n): ('handler position' if t == 'usize' else 'variable') for n, t in p.fields(INS, v)})):
                cur = selfread(sim, st, rule.stacks[s])
                if cur[0] != 'stk': continue
                for it in cur[3]:
                    if it[0] != 'agg': continue
                    comp = components(rule, sim, st, it, extra)
                    tab.setdefault(v, []).append(comp)
                    c.count(f'{s} pushes')
                    missing = need - set(comp.values())
                    if missing: c.violation(f'save:{v}:{",".join(sorted(missing))}', f'{v} does not save the {", ".join(sorted(missing))} as they are at that moment', p03.rule_src(p))
    return frames, handlers


def agreed(c, tab, what, need):
    r = {}
    for v, cs in tab.items():
        for comp in cs:
            for f, k in comp.items():
                if k in need:
                    r.setdefault(k, {}).setdefault(f, []).append(v)
    out = {}
    for k, fs in r.items():
        best = max(fs, key=lambda f: len(fs[f]))
        if len(fs) > 1 and len({len(x) for x in fs.values()}) >= 1:
            # two fields may legitimately hold equal values; the common one is the role
            common = [f for f in fs if len(fs[f]) == max(len(x) for x in fs.values())]
            best = common[0]
        out[k] = best
    for k in need - set(out): c.violation(f'role:{what}:{k}', f'no field of the {what} saves the {k}', '')
    return out


def check(c):
    p = c.p
    frames, handlers = find(c, p)
    if not frames: raise Missing('an instruction that pushes a call frame')
    if not handlers: raise Missing('an instruction that pushes an error handler')
    fr, ha = agreed(c, frames, 'frame', FRAME), agreed(c, handlers, 'handler', HANDLER)
    c.rule('each instruction that pushes a call frame or an error handler saves, in the field of that role, the return address / handler position and variable, the warp state, the operand, handler and call stack sizes after its own operands are consumed, and the custom state\'s unwind point')
    c.rule('every path of the returning instruction, and every path of step() that catches an error, restores each of these from the same field of the innermost frame/handler: position, warp state, stacks cut back to the saved size (plus exactly the returned value), custom state unwound, and the error text bound to the saved variable in the surviving frame')
    src = p03.rule_src(p)
    # ---- return
    top = ('topof', 'call', (), None)
    F = lambda k: ('init', (('V', top), (('f', fr.get(k, '?')),)))
    n = 0
    for v in p.variants(INS):
        rule, sim, ex = run_variant(p, c, v, rule=CtxRule(p, v))
        for st, ret in ex:
            if ret[0] != 'agg' or ret[2] != 'Ok': continue
            cs = selfread(sim, st, rule.stacks['call'])
            kind = ret[3][0][2] if ret[3][0][0] == 'agg' else '?'
            popped = cs[0] == 'stk' and (dict(cs[2]) or cs[4] is not None)
            if kind == 'Terminate':
                c.count('terminating paths')
                res = strip(ret[3][0][3][0])
                if not (res[0] == 'in' and res[1] == 'value' and res[2] == ()): c.violation(f'result:{v}', f'{v} ends the script with something other than the value on top of the operand stack', src)
                if not st.rs[1] or any(1 not in s or s != (1,) for s in st.rs[1][-1:]): c.violation(f'term-depth:{v}', f'{v} may end the script although frames remain on the call stack', src)
                continue
            if not popped: continue
            n += 1
            c.count('returning paths')
            if dict(cs[2]) != {'': 1} or cs[3] or cs[4] is not None: c.violation(f'ret-frames:{v}', f'{v} does not pop exactly one frame', src)
            if st.rs[1] and any(1 in s for s in st.rs[1][-1:]) or not st.rs[1]: c.violation(f'ret-root:{v}', f'{v} may pop the root frame', src)
            if strip(selfread(sim, st, 'pos')) != F('return address'): c.violation(f'ret-pos:{v}', f'{v} does not continue at the return address', src)
            if strip(selfread(sim, st, 'warp_counter')) != F('warp state'): c.violation(f'ret-warp:{v}', f'{v} does not restore the caller\'s warp state', src)
            vs = selfread(sim, st, rule.stacks['value'])
            if not (vs[0] == 'stk' and same_len(vs, F('value stack')) and tuple(map(strip, vs[3])) == (('in', 'value', ()),)):
                c.violation(f'ret-values:{v}', f'{v} does not cut the operand stack back to the caller\'s and push exactly the returned value', src)
            hs = selfread(sim, st, rule.stacks['handler'])
            if not (hs[0] == 'stk' and same_len(hs, F('handler stack')) and not hs[3]): c.violation(f'ret-handlers:{v}', f'{v} does not restore the caller\'s error handlers', src)
            if not unwound(st, F('custom state')): c.violation(f'ret-state:{v}', f'{v} does not unwind the custom script state', src)
    # ---- catch
    rule = CatchRule(p, entry_of(p, c)[1], err(('ins', 'cause')))
    step = entry_of(p, c)[0]
    sim = Sim(p, rule, 200000)
    ex = sim.run(step, (('ref', (SELF, ())),) + tuple(('arg', str(i)) for i in range(1, step.nargs)))
    toph = ('topof', 'handler', (), None)
    H = lambda k: ('init', (('V', toph), (('f', ha.get(k, '?')),)))
    m = 0
    for st, ret in ex:
        if not (ret[0] == 'agg' and ret[2] == 'Ok'):
            fact = st.facts.get(('opt', toph))
            c.count('uncaught paths')
            continue
        m += 1
        c.count('catching paths')
        loc = step.loc()
        if ret[3][0][0] != 'agg' or ret[3][0][2] != 'Normal': c.violation('catch-kind', 'a caught error is reported as something other than a normal step', loc)
        if strip(selfread(sim, st, 'pos')) != H('handler position'): c.violation('catch-pos', 'a caught error does not continue at the handler', loc)
        if strip(selfread(sim, st, 'warp_counter')) != H('warp state'): c.violation('catch-warp', 'a caught error does not restore the warp state of the try block', loc)
        cs, vs = selfread(sim, st, rule.stacks['call']), selfread(sim, st, rule.stacks['value'])
        if not (cs[0] == 'stk' and same_len(cs, H('call stack')) and not cs[3]): c.violation('catch-frames', 'a caught error does not cut the call stack back to the try block', loc)
        if not (vs[0] == 'stk' and same_len(vs, H('value stack')) and not vs[3]): c.violation('catch-values', 'a caught error does not cut the operand stack back to the try block', loc)
        if not unwound(st, H('custom state')): c.violation('catch-state', 'a caught error does not unwind the custom script state', loc)
        defs = [e for e in st.rs[0] if e[0] == 'define']
        hv = H('variable')
        good = [e for e in defs if e[2] == hv or mentions(e[2], lambda x: x == hv) or e[2] == ('clone', hv)]
        if len(good) != 1: c.violation('catch-var', 'a caught error is not bound (exactly once) to the variable the try block names', loc)
        else:
            e = good[0]
            if not mentions(e[3], lambda x: x == ('ins', 'cause')): c.violation('catch-text', 'the variable of the try block does not receive the error', loc)
            if not mentions(e[1], lambda x: x[0] == 'topof' and x[1] == 'call' and x[3] is not None): c.violation('catch-scope', 'the error variable is not defined in the frame of the try block', loc)
        hs = selfread(sim, st, rule.stacks['handler'])
        if hs[0] == 'stk' and hs != stk('handler'): c.violation('catch-handlers', 'catching an error removes a handler; the handler block pops its own', loc)
    if not m: raise Missing('a path of step() that catches an error')
    # an uncaught error must mean there is no handler
    for st, ret in ex:
        if ret[0] == 'agg' and ret[2] == 'Err' and st.rs[0]: c.violation('catch-partial', 'an error is partly caught and then reported', step.loc())
    # ---- root frame
    c.rule('a new process starts with one frame whose saved sizes are zero')
    new = p.fn('process::Process::new')
    if new is None: raise Missing('Process::new')
    roots = []
    class N(Rule):
        def on_agg(self, sim, st, cx, val):
            if val[1].endswith('CallFrame'): roots.append(val)
        def inline(self, sim, fn): return fn.file.endswith('process.rs') and not fn.derived
    sim = Sim(p, N(), 20000)
    sim.run(new, (('arg', 'ctx'),))
    for r in roots:
        c.count('root frames')
        for k in ('warp state', 'value stack', 'handler stack'):
            v = r[3][r[4].index(fr[k])] if fr.get(k) in r[4] else None
            if v is not None and v != ('c', 'i', '0', 'usize') and lin(v) != {'': 0}: c.violation(f'root:{k}', f'the root frame does not start with an empty {k}', new.loc())
    c.floor('call pushes', 2); c.floor('handler pushes', 1); c.floor('returning paths', 1); c.floor('catching paths', 1); c.floor('root frames', 1)


def same_len(s, v):
    if s[4] is None: return False
    x = s[4]
    return strip(x) == v


def unwound(st, v):
    us = [e for e in st.rs[0] if e[0] == 'unwind']
    return len(us) == 1 and us[0][1] == ('ref', (SELF, (('f', 'state'),))) and us[0][2] == v

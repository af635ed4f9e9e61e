"""P07: every looping block gives other scripts a turn on each iteration."""
from compile import *
import p02, p03, sched
from base import Missing

LOOPS = {'ExprKind': ('Map', 'Keep', 'FindFirst', 'Combine'), 'StmtKind': ('InfLoop', 'WaitUntil', 'UntilLoop', 'Repeat', 'ForLoop', 'ForeachLoop')}


def cyclic(graph, without):
    """A cycle of the graph that avoids the nodes in `without`, or None."""
    col, stack = {}, []
    def go(n):
        col[n] = 1
        stack.append(n)
        for m in sorted(graph.get(n, ())):
            if m in without: continue
            if col.get(m) == 1: return stack[stack.index(m):]
            if m not in col:
                r = go(m)
                if r: return r
        stack.pop()
        col[n] = 2
    for n in sorted(graph):
        if n not in col and n not in without:
            r = go(n)
            if r: return r


class SeedRule(StepRule):
    """One instruction with the warp counters preset."""
    def __init__(self, prog, variant, seed): super().__init__(prog, variant); self.seed = seed

    def start(self, sim, fn):
        st, args = super().start(sim, fn)
        for f, n in self.seed.items(): st.store[(SELF, (('f', f),))] = ('c', 'i', str(n), 'usize')
        return st, args


def outcome(ret):
    if ret[0] != 'agg': return '?'
    if ret[2] == 'Err': return 'Err'
    k = ret[3][0]
    return k[2] if k[0] == 'agg' else '?'


def check(c):
    p = c.p
    b = Builder(p)
    eff = Effects(p, c)
    step, impl = entry_of(p, c)
    src = impl.loc()
    fills = p02.holefills(c, b, eff)
    # ---- which counters a warp block raises
    allfl = list(p02.flows(c, b, eff, fills))
    warp = set()
    for ty, K, v, f, t, fl in allfl:
        inner = {}
        for items, graph, state in fl.graphs[:1]:
            for n, (i, it) in enumerate(items):
                if n in state and it[0] in ('child', 'for'): inner.setdefault(state[n][2], []).append(it[1] if it[0] == 'for' else it[2])
        if K.endswith('StmtKind') and v == 'Warp':
            c.count('warp block layouts')
            if len(inner) != 1 or not next(iter(inner)): c.violation('warp:open', 'the statements of a warp block do not all run inside warp', f.loc(), [f.path])
            for w in inner: warp |= {x for x, k in w if k == 1}
            for w in inner:
                if any(k != 1 for x, k in w): c.violation('warp:depth', 'a warp block enters warp more than once', f.loc(), [f.path])
        elif any(w for w in inner):
            c.violation(f'warp:{v}', f'{p02.short(K)}::{v} runs part of its inputs inside warp', f.loc(), [f.path])
    c.floor('warp block layouts', 1)
    if len(warp) != 1: raise Missing('the counter a warp block raises and lowers')
    wf = warp.pop()
    # ---- instructions
    c.rule('an instruction that yields does so on every path outside warp and on none inside, and moves on either way; no other instruction touches the warp counter except by one, or by restoring it from the returning frame')
    yielders, deltas = set(), {}
    for v in p.variants(INS):
        res = {}
        for n in (0, 1, 2):
            rule, sim, ex = run_variant(p, c, v, rule=SeedRule(p, v, {wf: n}))
            res[n] = {(outcome(ret), selfread(sim, st, eff.posfield()) == AFT, selfread(sim, st, rule.f_defer()) != NONE) for st, ret in ex}
            c.count('instruction exits', len(ex))
            for st, ret in ex:
                if outcome(ret) == 'Err': continue
                w = selfread(sim, st, wf)
                if w[0] == 'c' and abs(int(w[2]) - n) <= 1: deltas.setdefault(v, {}).setdefault(n, set()).add(int(w[2]) - n); continue
                if w[0] == 'init' and mentions(w, lambda x: x[0] == 'topof' or x[0] == 'in'): continue
                if n == 0 and w[0] == 'bin': continue
                c.violation(f'counter:{v}', f'{v} sets the warp state to something other than one level up or down or that of the returning frame', src)
        ds = {d for n in (1, 2) for d in deltas.get(v, {}).get(n, ())}
        if len(ds) > 1: c.violation(f'counter:{v}', f'{v} does not change the warp nesting by the same amount at every depth', src)
        kinds = {n: {k for k, a, d in r if k != 'Err'} for n, r in res.items()}
        def plain(n): return {(k, a) for k, a, d in res[n] if k != 'Err' and not d}
        if kinds[0] == {'Yield'} and not any(d for _, _, d in res[0]):
            yielders.add(v)
            c.count('yielding instructions')
            for n in (1, 2):
                if 'Yield' in kinds[n]: c.violation(f'warp-yield:{v}', f'{v} gives up the turn inside warp', src)
            for n in res:
                if any(not a for k, a, d in res[n] if k != 'Err'): c.violation(f'yield-stuck:{v}', f'{v} does not move on to the next instruction', src)
        c.count('instruction variants')
    c.sample('yielding instructions: ' + ', '.join(sorted(yielders)))
    c.floor('instruction variants', 90)
    # ---- loops of the generated code
    c.rule('with the yielding instructions outside warp removed, the control-flow graph of the code generated for every block kind has no cycle; the looping kinds do come back to their start')
    looping = {}
    for ty, K, v, f, t, fl in allfl:
        who = f'{p02.short(K)}::{v}' + (f' ({t.shape})' if t.shape else '')
        for k, msg in fl.problems:
            if k in ('jump', 'patch', 'later', 'hole', 'ins', 'for', 'strange', 'unknown'):
                c.violation(f'{p02.short(K)}::{v}:{k}', f'{who}: {msg}', f.loc(), [f.path])
        for items, graph, state in fl.graphs:
            ys = {n for n, (i, it) in enumerate(items) if it[0] == 'ins' and it[1][2] in yielders and not state.get(n, (0, 0, ()))[2]}
            r = cyclic(graph, ys)
            if r:
                c.violation(f'{p02.short(K)}::{v}:loop', f'{who}: the generated code loops without a yield: ' + ' -> '.join(fl.name(items, n) for n in r), f.loc(), [f.path])
            c.count('generated regions')
            cyc = cyclic(graph, set())
            if cyc:
                c.count('generated loops')
                looping.setdefault((p02.short(K), v), []).append(True)
                inside = on_cycles(graph)
                body = [n for n, (i, it) in enumerate(items) if 'stmt' in {x[1][1] for x in flat([items[n]]) if x[1][0] == 'child'}]
                for n in body:
                    if v in LOOPS.get(p02.short(K), ()) and n not in inside: c.violation(f'{p02.short(K)}::{v}:body', f'{who}: its statements are not part of the loop', f.loc(), [f.path])
            elif v in LOOPS.get(p02.short(K), ()) and items is fl.items:
                c.violation(f'{p02.short(K)}::{v}:once', f'{who}: the generated code never comes back to its start', f.loc(), [f.path])
    for K, vs in LOOPS.items():
        for v in vs:
            if v not in p.variants(AST + K): raise Missing(f'{K}::{v}')
            c.count('looping block kinds')
    c.floor('generated loops', 10); c.floor('looping block kinds', 10)
    # ---- waiting
    c.rule('every exit of a step whose pending operation has not finished yields, inside warp or not')
    D = defer_adt(p)
    for d in p.variants(D):
        for n in (0, 1):
            class R(p03.ResumeRule):
                def start(self, sim, fn):
                    st, args = super().start(sim, fn)
                    st.store[(SELF, (('f', wf),))] = ('c', 'i', str(n), 'usize')
                    return st, args
            rule = R(p, None, d)
            sim = Sim(p, rule, 200000)
            st, args = rule.start(sim, impl)
            for st, ret in sim.run(impl, args, st):
                if outcome(ret) == 'Err': continue
                c.count('waiting exits')
                if outcome(ret) != 'Yield': c.violation(f'wait:{d}', f'a script waiting on {d} returns {outcome(ret)} instead of giving up its turn', src)
    c.floor('waiting exits', 10)
    # ---- the step wrapper hands a yield on
    K = p03.STEP(p)
    class W(StackRule):
        def on_call(self, sim, st, cx, callee, args, site):
            if callee is not None and callee.local == impl.id and impl is not step: return [(st, ok(('agg', K, 'Yield', (), ())))]
            if callee is not None and callee.method == 'is_running': return [(st, TRUE)]
            return super().on_call(sim, st, cx, callee, args, site)
    if impl is not step:
        sim = Sim(p, W(p))
        for st, ret in sim.run(step, (('ref', (SELF, ())),) + tuple(('arg', str(i)) for i in range(1, step.nargs))):
            c.count('wrapper paths')
            if outcome(ret) not in ('Yield', 'Idle'): c.violation('wrapper', f'a step that yields is reported as {outcome(ret)}', step.loc())
    # ---- the scheduler
    c.rule('a script that yields is put at the back of the run queue, behind every script already in it, and the step ends there')
    fn = selfarg_fn(p, 'project::Project', 'step')
    for label, mode, rule, sim, ex in sched.all_traces(p):
        for st, ret in ex:
            cs = sched.case(p, st)
            if cs[:2] != ('Ok', 'Yield'): continue
            c.count('scheduler yields')
            R = st.rs
            i = next(n for n, e in enumerate(R) if e[0] == 'step')
            k = R[i][1]
            ops = [e[0] for e in R[i:] if e[0] in ('front', 'back') and e[1] == R[i][1][1]]
            if 'front' in ops: c.violation('turn', 'a script that yields keeps its place at the front of the run queue', fn.loc(), [fn.path])
            late = [e for j, e in enumerate(R) if j > i and e[0] == 'front' and e[1] != R[i][1][1]]
            if late: c.violation('jump-queue', 'a script is put in front of the run queue while another yields', fn.loc(), [fn.path])
    c.floor('scheduler yields', 2)


def on_cycles(graph):
    out = set()
    for n in graph:
        seen, work = set(), list(graph[n])
        while work:
            m = work.pop()
            if m == n: out.add(n); break
            if m in seen: continue
            seen.add(m); work += graph.get(m, ())
    return out

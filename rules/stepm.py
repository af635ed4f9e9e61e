"""Symbolic model of one `Process` step: the interpreter loop seen instruction by instruction.

`StepRule` seeds the instruction decode with one instruction variant (symbolic operands) and models the
process's three stacks (operands, frames, handlers -- found by their element types) as symbolic
sequences, so that every exit of every instruction arm carries: how many operands it consumed and
pushed, what it wrote to the process, and which branches led there.
"""
from sim import *
from mir import strip_ty, ty_args
import models

INS = 'bytecode::Instruction'
PROC = 'process::Process'
SELF = ('V', ('arg', 'self'))
AFT = ('aftpos',)


def lin(v):
    """v as a linear form: dict term -> coefficient ('' is the constant)."""
    v0 = v
    if v[0] == 'c' and v[1] == 'i': return {'': int(v[2])}
    if v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
        a, b = lin(v[2]), lin(v[3])
        s = 1 if v[1].startswith('Add') else -1
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + s * c
            if r[k] == 0: del r[k]
        return r
    if v[0] == 'lin': return dict(v[1])
    if v[0] == 'cast' and len(v) > 3 and v[2] in ('usize', 'u8', 'u16', 'u32', 'u64'): return lin(v[1])
    if v[0] == 'len' and v[1][0] in ('names',): return {v: 1}
    return {strip(v0): 1}


def unlin(d):
    d = {k: c for k, c in d.items() if c}
    if not d: return ('c', 'i', '0', 'usize')
    if set(d) == {''}: return ('c', 'i', str(d['']), 'usize')
    if len(d) == 1:
        (k, c), = d.items()
        if c == 1: return k
    return ('lin', tuple(sorted(d.items(), key=repr)))


def ladd(a, b, s=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + s * c
        if r[k] == 0: del r[k]
    return r


def stack_fields(p):
    """The process's stacks by element type: {'value': field, 'call': field, 'handler': field}."""
    r = {}
    for n, t in p.fields(PROC):
        if not strip_ty(t).endswith('Vec'): continue
        e = strip_ty(ty_args(t)[0])
        if e.endswith('::Value'): r['value'] = n
        elif e.endswith('CallFrame'): r['call'] = n
        elif e.endswith('Handler'): r['handler'] = n
    return r


def stk(name, popped=(), items=(), abs_=None): return ('stk', name, popped, items, abs_)


class StackRule(Rule):
    """Vec methods on the process stacks; everything else is left to the library models."""

    def __init__(self, prog):
        self.prog = prog
        self.stacks = stack_fields(prog)
        self.byfield = {v: k for k, v in self.stacks.items()}

    def inline(self, sim, fn):
        return fn.file.endswith('process.rs') and '::ops::' not in fn.path and not fn.derived and not fn.trait

    def stack_lv(self, sim, st, v):
        """lv of a process stack a value refers to, or None."""
        v = strip(v)
        if v[0] != 'ref': return None
        lv = v[1]
        for _ in range(4):
            cur = sim.read(st, lv)
            if cur[0] == 'stk': return lv
            if lv[0] == SELF and len(lv[1]) == 1 and lv[1][0][0] == 'f' and lv[1][0][1] in self.byfield: return lv
            if cur[0] == 'ref': lv = cur[1]; continue
            if lv[0][0] == 'V' and lv[0][1][0] in ('deref', 'as') and lv[0][1][1][0] == 'ref': lv = lv[0][1][1][1]; continue
            if lv[0][0] == 'V' and lv[0][1][0] in ('deref', 'as') and lv[0][1][1][0] in ('stk', 'init'):
                x = lv[0][1][1]
                if x[0] == 'init': lv = x[1]; continue
                # deref of a stack value: find the place holding it
                for k, val in st.store.items():
                    if val == x: return k
            return None
        return None

    def get(self, sim, st, lv):
        cur = sim.read(st, lv)
        if cur[0] == 'stk': return cur
        return stk(self.byfield.get(lv[1][0][1] if lv[1] else '', '?'))

    def length(self, s):
        if s[4] is not None: base = lin(s[4])
        else: base = ladd({('len0', s[1]): 1}, dict(s[2]), -1)
        for it in s[3]:
            base = ladd(base, dict(it[1]) if it[0] == 'seg' else {'': 1})
        return base

    def pop1(self, s):
        """(value, new stack)"""
        if s[3]:
            it = s[3][-1]
            if it[0] == 'seg': return None
            return it, s[:3] + (s[3][:-1], s[4])
        if s[4] is not None: return None
        d = dict(s[2])
        v = ('in', s[1], tuple(sorted(d.items(), key=repr)))      # the operand `d` places below the original top
        d = ladd(d, {'': 1})
        return v, ('stk', s[1], tuple(sorted(d.items(), key=repr)), (), None)

    def truncate(self, sim, s, start):
        """(drained, new stack) for drain(start..)."""
        L = self.length(s)
        n = ladd(L, lin(start), -1)
        if set(n) <= {''}:
            k = n.get('', 0)
            out, cur = [], s
            for _ in range(max(k, 0)):
                r = self.pop1(cur)
                if r is None: break
                out.append(r[0]); cur = r[1]
            else: return ('segs', s[1], tuple(reversed(out))), cur
        if ('len0', s[1]) not in n and s[4] is None and not s[3]:
            d = dict(s[2])
            seg = ('seg', tuple(sorted(n.items(), key=repr)), s[1], tuple(sorted(d.items(), key=repr)))
            return seg, ('stk', s[1], tuple(sorted(ladd(d, n).items(), key=repr)), (), None)
        return ('segall', s, start), ('stk', s[1], (), (), start)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None or not args: return None
        m = callee.method
        if callee.trait and callee.trait.endswith('runtime::System'):
            # host code sees the process, but its execution state is private to the crate
            v = ('call', callee.trait + '::' + m, site, tuple(a if depth(a) < 8 else TOP for a in args))
            return [(st, sim.fresh(st, v))]
        lv = None
        if m in ('push', 'pop', 'len', 'drain', 'last', 'last_mut', 'index', 'index_mut', 'swap', 'truncate', 'first', 'iter', 'iter_mut', 'deref', 'deref_mut', 'as_mut_slice', 'as_slice', 'is_empty', 'split_off', 'get', 'get_mut', 'clear', 'extend', 'insert', 'remove', 'swap_remove', 'append', 'resize', 'retain'):
            lv = self.stack_lv(sim, st, args[0])
        if lv is None: return None
        s = self.get(sim, st, lv)
        if m in ('deref', 'deref_mut', 'as_mut_slice', 'as_slice'): return [(st, ('ref', lv))]
        if m == 'push':
            self.setstack(sim, st, cx, lv, s[:3] + (s[3] + (args[1],), s[4]), ('push', s[1], args[1]))
            return [(st, UNIT)]
        if m == 'pop':
            r = self.pop1(s)
            if r is None: return None
            self.setstack(sim, st, cx, lv, r[1], ('pop', s[1], r[0]))
            return [(st, some(r[0]))]
        if m == 'len': return [(st, unlin(self.length(s)))]
        if m == 'is_empty': return None
        if m in ('drain', 'truncate', 'split_off'):
            rng = args[1]
            start = rng if m != 'drain' else None
            if m == 'drain':
                if rng[0] == 'agg' and rng[1].endswith('RangeFrom'): start = rng[3][0]
                else: return None
            if strip(start)[0] == 'ref': start = sim.read(st, strip(start)[1])
            seg, ns = self.truncate(sim, s, start)
            self.setstack(sim, st, cx, lv, ns, ('drain', s[1], seg, start))
            if m == 'truncate': return [(st, UNIT)]
            return [(st, ('iter', seg))]
        if m in ('last', 'last_mut'):
            top = s[3][-1] if s[3] else ('top', s[1], s[2], s[4])
            if s[3]:
                return [(st, some(('ref', (('V', ('pure', top)), ()))))]
            # the top of the original stack (or of what is left after popping): present unless the path says otherwise
            e = ('topof', s[1], s[2], s[4])
            out = []
            for s2, v in sim.variants(st, ('opt', e), OPT):
                if v == 'Some': out.append((s2, some(('ref', (('V', e), ())))))
                else: out.append((s2, NONE))
            return out
        if m in ('index', 'index_mut'):
            i = args[1]
            if i[0] == 'agg' and i[1].endswith('RangeFrom'):
                n = ladd(self.length(s), lin(i[3][0]), -1)
                return [(st, ('ref', (('V', ('slice', s[1], s[2], tuple(sorted(n.items(), key=repr)))), ())))]
            n = ladd(self.length(s), lin(i), -1)       # distance from the end
            return [(st, ('ref', (('V', ('at', s[1], s[2], len(s[3]), tuple(sorted(n.items(), key=repr)))), ())))]
        if m == 'swap':
            return [(st, UNIT)]
        if m in ('iter', 'iter_mut'): return [(st, ('iter', ('ref', lv)))]
        if m in ('get', 'get_mut', 'first'): return None
        # anything else on a stack: unknown shape
        self.setstack(sim, st, cx, lv, ('stk', s[1], (), (), ('unknown', site)), ('other', s[1], m))
        return None

    def setstack(self, sim, st, cx, lv, val, ev):
        st.store[lv] = val
        self.stack_event(sim, st, cx, ev)

    def stack_event(self, sim, st, cx, ev): pass


class StepRule(StackRule):
    """One instruction variant (`variant`), starting with no pending operation; or, with
    variant=None, the resume prologue starting from pending operation `defer` and ending at decode."""

    def __init__(self, prog, variant=None, defer=None, operands=None, dops=None):
        super().__init__(prog)
        self.variant, self.defer = variant, defer
        self.dops = dops or {}
        self.operands = operands or {}
        self.decodes = []     # (state, args) at the decode when variant is None

    def start(self, sim, fn):
        st = St({}, {}, self.init_rs)
        dlv = (SELF, (('f', self.f_defer()),))
        if self.defer is None: st.store[dlv] = NONE
        else:
            D = defer_adt(self.prog)
            fs = self.prog.fields(D, self.defer)
            st.store[dlv] = some(('agg', D, self.defer, tuple(self.dops.get(n, ('dop', n)) for n, _ in fs), tuple(n for n, _ in fs)))
        args = []
        for i in range(fn.nargs):
            t = fn.locals[i + 1]
            if strip_ty(t.lstrip('&').replace('mut ', '').split(' ')[-1] if t.startswith('&') else t).endswith('Process') or (i == 0): args.append(('ref', (SELF, ())))
            else: args.append(('arg', str(i)))
        return st, tuple(args)

    def f_defer(self): return field_by_type(self.prog, PROC, lambda t: 'Option' in t and 'Defer' in t) or 'defer'

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method == 'read' and callee.trait and callee.trait.endswith('BinaryRead') and callee_self(callee).endswith('Instruction'):
            if self.variant is None:
                self.decodes.append((st, args))
                return []
            fs = self.prog.fields(INS, self.variant)
            ins = ('agg', INS, self.variant, tuple(self.operands.get(n, ('op', n)) for n, _ in fs), tuple(n for n, _ in fs))
            self.decodes.append((st.copy(), args))
            return [(st, ('agg', '()', '', (ins, AFT), ('0', '1')))]
        return super().on_call(sim, st, cx, callee, args, site)


def callee_self(callee):
    return strip_ty(callee.args[0]) if callee.args else ''


def field_by_type(p, adt, pred):
    r = [n for n, t in p.fields(adt) if pred(t)]
    return r[0] if len(r) == 1 else None


def defer_adt(p):
    for n, t in p.fields(PROC):
        if strip_ty(t).endswith('Option'):
            a = strip_ty(ty_args(t)[0])
            if a in p.adts and p.adts[a]['kind'] == 'enum' and a.startswith('process::'): return a
    return 'process::Defer'


def find_step_impl(p):
    """The function that decodes instructions (calls BinaryRead::read for Instruction) on a Process."""
    c = []
    for f in p.fns:
        if not f.file.endswith('process.rs'): continue
        for cl in f.callees.values():
            if cl.method == 'read' and cl.trait and cl.trait.endswith('BinaryRead') and callee_self(cl).endswith('Instruction'): c.append(f)
    return c


def entry_of(p, c):
    """The Process method through which an instruction is executed: the decoder, or the method that
    reaches it and is called from the public `step`."""
    step = p.fn('process::Process::step')
    d = find_step_impl(p)
    from base import Missing
    if step is None or not d: raise Missing('process::Process::step / instruction decode')
    d = {f.id for f in d}
    if step.id in d: return step, step
    # the callee of step that reaches the decode
    for g in sorted(p.callgraph[step.id]):
        f = p.by_id[g]
        if p.reach([g]) & d and not f.promoted and f.selfadt is not None: return step, f
    for g in sorted(p.callgraph[step.id]):
        if p.reach([g]) & d: return step, p.by_id[g]
    raise Missing('instruction execution behind Process::step')


def run_variant(p, c, variant, max_states=400000, rule=None, **kw):
    step, impl = entry_of(p, c)
    rule = rule or StepRule(p, variant, **kw)
    sim = Sim(p, rule, max_states)
    st, args = rule.start(sim, impl)
    ex = sim.run(impl, args, st)
    return rule, sim, ex


def selfread(sim, st, field): return sim.read(st, (SELF, (('f', field),)))
def selfwritten(st, field): return (SELF, (('f', field),)) in st.store

"""What the interpreter computes: calls into libraries become expression terms over the operands.

`Terms` is mixed into a simulation rule.  Calls of outside functions (and of the few crate functions
named as atoms) yield interned terms; the crate's own helpers are followed.  `norm` turns a value into a
nested tuple that no longer depends on how the expression was written (checked and plain arithmetic,
conversions, clones, `?`, borrows and casts of the same value all look alike).
"""
from h import *
from sim import *
from stepm import *
import models

NUMBER = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'pow': 'powf', 'powf': 'powf', 'fabs': 'abs', 'fmod': 'Rem'}
# views and copies of the same value
SAME = {'get', 'new_unchecked', 'borrow', 'borrow_mut', 'as_str', 'as_ref', 'to_owned', 'to_string', 'deref', 'deref_mut', 'clone', 'into', 'from', 'to_compact_string', 'by_ref', 'cloned', 'copied', 'iter', 'into_iter', 'as_slice', 'into_inner', 'as_mut', 'iter_mut', 'into_boxed_str', 'as_bytes_', 'into_owned', 'must_use', 'unwrap_or_clone', 'drain', 'try_borrow', 'try_borrow_mut', 'as_mut_str'}
MUTATORS = {'push', 'push_back', 'push_front', 'insert', 'remove', 'pop', 'pop_back', 'pop_front', 'clear', 'extend', 'append', 'truncate', 'swap', 'push_str', 'retain', 'sort', 'reverse', 'drain', 'resize', 'swap_remove', 'extend_from_slice', 'sort_by', 'rotate_left', 'rotate_right', 'split_off', 'dedup', 'make_contiguous', 'entry', 'back_mut', 'front_mut', 'get_mut', 'index_mut', 'write', 'write_str', 'write_fmt', 'sort_unstable', 'fill', 'insert_unique', 'swap_remove_back'}
HEIGHT = 14
MOST = 3        # elements of a list followed one by one


class Terms:
    """Mixin; `atoms`: crate functions (by name) that are not followed."""
    atoms = ()
    keep = True

    def init_terms(self):
        self.table, self.ids = [], {}
        self.elementwise_used = set()
        self.elementwise_chance = set()

    def T(self, name, *args):
        k = (name,) + args
        if height(k) > HEIGHT: k = ('…',)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.table)
            self.table.append(k)
        return ('T', i)

    def note(self, st, ev):
        if ev not in st.rs: st.rs = st.rs + (ev,)

    # ---------------------------------------------------------------- normal form
    def norm(self, sim, st, v, d=0):
        v = strip(v)
        k = v[0]
        if d > 30: return ('…',)
        N = lambda x: self.norm(sim, st, x, d + 1)
        if k == 'T': return self.table[v[1]]
        if k in ('conv', 'clone', 'box', 'deref', 'as', 'iter') and len(v) > 1: return N(v[1])
        if k == 'pure': return N(v[1])
        if k == 'ref':
            cur = sim.read(st, v[1])
            if cur[0] == 'init': return self.place(sim, st, v[1], d)
            return N(cur)
        if k == 'init': return self.place(sim, st, v[1], d)
        if k == 'c':
            return ('c', v[2]) if len(v) > 2 else v
        if k == 'p':
            if v[2][0] == 'v' and v[2][1] in ('Ok', 'Some', 'Continue'): return N(v[1])
            if v[2] == ('f', '0') and v[1][0] == 'p' and v[1][2][0] == 'v' and v[1][2][1] in ('Ok', 'Some', 'Continue'): return N(v[1][1])
            if v[2][0] == 'v': return N(v[1])
            return ('.', N(v[1]), v[2][1] if v[2][0] == 'f' else N(v[2][1]) if v[2][0] == 'i' and isinstance(v[2][1], tuple) else v[2])
        if k == 'elem':
            n = v[2][1] if isinstance(v[2], tuple) and len(v[2]) == 2 and v[2][0] == 'no' else None
            return ('elem', N(v[1])) + ((n,) if n is not None else ())
        if k == 'bin': return self.arith(v[1].replace('Unchecked', '').replace('WithOverflow', ''), N(v[2]), N(v[3]))
        if k == 'un': return ('neg', N(v[2])) if v[1] == 'Neg' else (v[1], N(v[2]))
        if k == 'cast': return N(v[1])
        if k == 'agg':
            if v[1] in (OPT, RES, CF) and v[2] in ('Some', 'Ok', 'Continue'): return N(v[3][0])
            name = v[2] or v[1].rsplit('::', 1)[-1]
            if name in ('Value',) and len(v[3]) == 1: return N(v[3][0])
            return (name,) + tuple(N(x) for x in v[3])
        if k == 'itermap':
            return ('map' if v[2] == 'map' else v[2], N(v[1]), self.body(sim, st, v[3], v))
        if k == 'in': return ('in', v[2])
        if k == 'fn': return ('fn', v[1].rsplit('::', 1)[-1])
        if k == 'clo': return ('clo',)
        if k == 'fld': return (v[1],)
        if k in ('op', 'ast', 'alen', 'tokens'): return v[:2]
        if k == 'arg': return (v[1],)
        if k in ('enum', 'zip', 'chain'): return (k,) + tuple(N(x) for x in v[1:])
        if k == 'seg': return ('operands',) + v[1:2]
        if k in ('discr',): return ('variant', N(v[1]))
        if k == 'call': return ('call', v[1].rsplit('::', 1)[-1]) + (tuple(N(x) for x in v[3]) if len(v) > 3 else ())
        return (k,)

    def place(self, sim, st, lv, d):
        base, prs = lv
        if base[0] == 'V': r = self.norm(sim, st, base[1], d + 1) if base[1][0] != 'arg' else (base[1][1],)
        else: r = ('local',)
        for pr in prs:
            if pr[0] == 'v': continue
            if pr[0] == 'f': r = ('.', r, pr[1]) if pr[1] != '0' or r[0] in ('.',) and False else ('.', r, pr[1])
            elif pr[0] == 'i': r = ('index', r, self.norm(sim, st, pr[1], d + 1) if isinstance(pr[1], tuple) else pr[1])
        return r

    def arith(self, op, a, b):
        if op in ('Add', 'Mul', 'Eq', 'Ne') and repr(b) < repr(a): a, b = b, a
        if op in ('Gt', 'Ge'): return ({'Gt': 'Lt', 'Ge': 'Le'}[op], b, a)
        return (op, a, b)

    def body(self, sim, st, clo, it, n=1):
        """What a closure returns for one item."""
        s = st.copy()
        s.rs = ()
        cx = Ctx(sim.prog.fns[0], -1, 0, None, ())
        outs = []
        try:
            for s2, r in sim.invoke(s, cx, clo, tuple(self.T(f'item{i}' if n > 1 else 'item') for i in range(n)), ('body', it)):
                r0 = strip(r)
                if r0[0] == 'agg' and r0[1] == RES and r0[2] == 'Err': continue
                outs.append(self.norm(sim, s2, r))
        except RecursionError: return ('?',)
        outs = sorted(set(outs), key=repr)
        return outs[0] if len(outs) == 1 else ('either',) + tuple(outs)

    # ---------------------------------------------------------------- calls
    def term_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m = callee.method
        f = sim.prog.by_id.get(callee.local) if callee.local else None
        if f is not None and m not in self.atoms:
            return self.elementwise(sim, st, cx, f, args, site)
        t = cx.fn.blocks[cx.block].term if cx.block < len(cx.fn.blocks) else None
        dest = cx.fn.locals[t[3][0]] if t and t[0] == 'call' and len(t[3]) == 1 else ''
        if f is None:
            a = strip(args[0]) if args else None
            it = a
            if it is not None and it[0] == 'ref': it = strip(sim.read(st, it[1]))
            if callee.method == 'clone' and callee.args and strip_ty(callee.args[0]).rsplit('::', 1)[-1] in ('VecDeque', 'Vec'): return [(st, self.T('copy', self.norm(sim, st, args[0])))]
            isiter = (callee.trait or '').endswith(('Iterator', 'iter::Iterator')) or callee.rpath.startswith('core::str::')
            if m in ('rev', 'skip', 'take', 'step_by', 'chars', 'char_indices', 'bytes', 'lines', 'keys', 'values', 'cycle') and args and isiter:
                return [(st, ('iter', self.T(m, *[self.norm(sim, st, x) for x in args])))]
            if m == 'collect' and args:
                v = self.T('collect', self.norm(sim, st, args[0]))
                if strip_ty(dest).endswith('Result'): return [(st, ok(v)), (st.copy(), err(('err', 'collect')))]
                return [(st, v)]
            if m in ('count', 'len') and args: return [(st, self.T('len', self.norm(sim, st, args[0])))]
            if m in ('max', 'min', 'fold', 'position', 'any', 'all', 'find', 'sum', 'nth', 'last', 'partial_cmp_by') and args and isiter and (it[0] in ('iter', 'itermap', 'T') or a[0] in ('iter', 'itermap', 'T')):
                xs = [self.norm(sim, st, args[0])]
                for x in args[1:]:
                    x0 = strip(x)
                    if x0[0] == 'ref': x0 = strip(sim.read(st, x0[1]))
                    xs.append(self.body(sim, st, x0, site, 2 if m == 'fold' else 1) if x0[0] in ('clo', 'fn') else self.norm(sim, st, x))
                v = self.T(m, *xs)
                if strip_ty(dest).endswith('Option'): return self.maybe(st, v)
                return [(st, v)]
            if args and m in MUTATORS and not callee.rpath.startswith(('core::option', 'core::result', 'core::mem', 'core::fmt')) and strip(args[0])[0] == 'ref':
                xs = tuple(self.norm(sim, st, x) for x in args)
                self.note(st, ('mut', m) + xs)
                if m in ('write',): return [(st, ok(UNIT))]
                if m in ('pop', 'pop_back', 'pop_front', 'remove', 'back_mut', 'front_mut', 'get_mut') and strip_ty(dest).endswith('Option'):
                    v = self.T(m, *xs)
                    return self.maybe(st, v, ('ref', (('V', ('pure', v)), ())) if m.endswith('_mut') else v)
                if m == 'index_mut': return [(st, ('ref', (('V', ('slot',) + (self.T('index', *xs),)), ())))]
                return [(st, UNIT if dest in ('()', '') else self.T(m, *xs))]
            if callee.rpath.startswith(('core::option::Option', 'core::result::Result', 'core::mem::', 'core::ops::Fn')): return None
            if m == 'write' and 'fmt' in callee.rpath: self.note(st, ('mut', 'write') + tuple(self.norm(sim, st, x) for x in args)); return [(st, ok(UNIT))]
            r = models.model(sim, st, cx, callee, args, site, t)
            if r is not None: return r
        elif callee.trait and callee.trait.endswith('runtime::System'): pass
        name = m
        if name in SAME and args:
            v = args[0]
            if strip_ty(dest).endswith('Result') or strip_ty(dest).endswith('Option'): return None
            return [(st, self.T0(self.norm(sim, st, v)))]
        if name == 'new' and 'CheckedFloat' in callee.rpath: v = self.T0(self.norm(sim, st, args[0]))
        elif name in ('new', 'from') and ('Gc' in callee.rpath or 'RefLock' in callee.rpath or 'Rc' in callee.rpath) and args: return [(st, self.T0(self.norm(sim, st, args[-1])))]
        else:
            xs = [self.norm(sim, st, x) for x in args]
            name = NUMBER.get(name, name)
            if name in ('Add', 'Mul', 'Sub', 'Div', 'Rem') and len(xs) == 2: v = self.T0(self.arith(name, *xs))
            else: v = self.T(name, *xs)
        d = strip_ty(dest)
        if d.endswith('result::Result') or d == 'Result':
            inner = (ty_args(dest) or [''])[0]
            if strip_ty(inner).endswith('option::Option') or inner.startswith('Option<'): return [(s, ok(x)) for s, x in self.maybe(st.copy(), v)] + [(st.copy(), err(('err', name)))]
            return [(st, ok(v)), (st.copy(), err(('err', name)))]
        if d.endswith('option::Option') or d == 'Option': return self.maybe(st, v)
        return [(st, v)]

    def maybe(self, st, v, val=None):
        s = st.copy()
        t = self.table[v[1]]
        self.note(st, ('some', t)); self.note(s, ('none', t))
        return [(st, some(val or v)), (s, NONE)]

    def elementwise(self, sim, st, cx, f, args, site):
        """A recursive helper given an operation on single values: the operation, applied to each element."""
        if f.id not in {cl.local for cl in f.callees.values()}: return None
        ops = [i for i in range(f.nargs) if is_fnty(f.locals[i + 1])]
        if len(ops) != 1: return None
        vals = [i for i in range(f.nargs) if strip_ty(ptype_(f.locals[i + 1])).endswith('::Value')]
        lead = [i for i in range(f.nargs) if i < min(vals)] if vals else []
        if not vals: return None
        s0 = st.copy()
        s0.rs = ()
        self.elementwise_used.add((f.id, tuple(vals), ops[0]))
        outs, bad = set(), False
        for s2, r in sim.invoke(s0, cx, args[ops[0]], tuple(args[i] for i in lead + vals), site):
            r0 = strip(r)
            if r0[0] == 'agg' and r0[2] == 'Err': bad = True; continue
            outs.add((self.norm(sim, s2, r), tuple(e for e in s2.rs)))
        if "'system." in repr(outs) or words_in(outs) & draws(self.prog):
            def plain(x):
                x = strip(x)
                if x[0] == 'ref': x = strip(sim.read(st, x[1]))
                return x if x[0] == 'agg' and not x[3] else None
            self.elementwise_chance.add((f.id, cx.fn.id) + tuple((i, plain(a)) for i, a in enumerate(args) if plain(a) is not None))
        res = []
        for o, ev in sorted(outs, key=repr):
            s = st.copy()
            res.append((s, ok(self.T('each', o, ev) if ev else self.T('each', o))))
        return res + [(st.copy(), err(('err', f.method)))]

    def T0(self, nested):
        """Interns an already normal term."""
        return self.T(*nested)


def words_in(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, str): acc.add(x)
    elif isinstance(x, (tuple, set, list)):
        for y in x: words_in(y, acc)
    return acc


def draws(p):
    """Names of the functions that reach the system's random numbers."""
    if not hasattr(p, '_draws'):
        hit = {f.id for f in p.fns if any(c.method == 'rand' and (c.trait or '').endswith('runtime::System') for c in f.callees.values())}
        while True:
            more = {f.id for f in p.fns if f.id not in hit and any(c.local in hit for c in f.callees.values())}
            if not more: break
            hit |= more
        p._draws = {p.by_id[i].path.rsplit('::', 1)[-1] for i in hit}
    return p._draws


def is_fnty(t): return t.startswith(('fn(', 'for<', 'unsafe fn')) and 'fn(' in t or 'dyn ' in t and ('Fn(' in t or 'FnMut(' in t or '::Fn<' in t)


def ptype_(t):
    from compile import ptype
    return ptype(t)


def height(t):
    if not isinstance(t, tuple): return 0
    return 1 + max((height(x) for x in t), default=0)


ACCESS = ('as_number', 'as_text', 'as_bool', 'as_list', 'as_entity', 'as_closure', 'as_image')


class OpRule(Terms, StepRule):
    """One instruction, its computation followed into the helpers."""
    atoms = ACCESS
    init_rs = ()
    mark = None

    def __init__(self, prog, variant, atoms=(), numbered=False, branches=False, **kw):
        StepRule.__init__(self, prog, variant, **kw)
        self.init_terms()
        self.numbered, self.branches = numbered, branches
        self.atoms = tuple(self.atoms) + tuple(atoms)

    def inline(self, sim, fn): return fn.file.endswith(('process.rs', 'util.rs', 'bytecode.rs')) and not fn.derived

    def on_call(self, sim, st, cx, callee, args, site):
        r = StepRule.on_call(self, sim, st, cx, callee, args, site)
        if r is not None:
            if callee is not None and callee.trait and callee.trait.endswith('runtime::System'):
                v = self.T('system.' + callee.method, *[self.norm(sim, st, x) for x in args[1:]])
                out = []
                for s2, r2 in r:
                    r0 = strip(r2)
                    if r0[0] == 'agg' and r0[1] == RES and r0[2] == 'Err': out.append((s2, r2)); continue
                    self.note(s2, ('sys', self.table[v[1]]))
                    out.append((s2, ok(v) if r0[0] == 'agg' and r0[1] == RES else v))
                return out
            return r
        return self.term_call(sim, st, cx, callee, args, site)

    def number(self, sim, st, it):
        t = self.norm(sim, st, it)
        n = sum(1 for e in st.rs if e[0] == 'took' and e[1] == t)
        st.rs = st.rs + (('took', t, n),)
        return n

    def enough(self, sim, st, it):
        return sum(1 for e in st.rs if e[0] == 'took') >= MOST

    def on_branch(self, sim, st, cx, v, choice):
        if not self.branches: return
        t = self.norm(sim, st, v)
        if t[0] in ('Lt', 'Le', 'Eq', 'Ne', 'eq', 'ne', 'variant', 'is_zero', 'is_sign_positive', 'is_sign_negative', 'Not', 'is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne', 'cmp', 'call'): self.note(st, ('if', t, choice))

    def stack_event(self, sim, st, cx, ev):
        if ev[0] == 'push' and ev[1] == 'value': self.note(st, ('push', self.norm(sim, st, ev[2])))


class FnRule(Terms, Rule):
    """One helper function."""
    atoms = ACCESS
    init_rs = ()
    mark = None

    def __init__(self, prog, atoms=(), files=('process.rs', 'util.rs', 'bytecode.rs')):
        self.prog, self.files = prog, files
        self.init_terms()
        self.atoms = tuple(self.atoms) + tuple(atoms)

    def inline(self, sim, fn): return fn.file.endswith(self.files) and not fn.derived

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.trait and callee.trait.endswith('runtime::System'):
            return [(st, self.T('system.' + callee.method, *[self.norm(sim, st, x) for x in args[1:]]))]
        return self.term_call(sim, st, cx, callee, args, site)

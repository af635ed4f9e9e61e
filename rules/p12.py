"""P12: every position used on a script list (or on the letters of a text) was checked against that same list.

The interpreter follows every path of every instruction (and, separately, of the closures the operator
tables are built from).  Lists are named by the operand they come from, their lengths by (list, version),
where every insertion or removal makes a new version.  A position is accepted when it is provably below
the length of the current version: it is the result of a preparation function given exactly that length,
a member of such a prepared set taken in descending order while the list shrinks or grows, or bounded by
the comparisons on the path.
"""
from stepm import *
from h import Plain, deepread
from base import Missing
import re

SEQ = re.compile(r'VecDeque')
TAKES = {'index': 1, 'index_mut': 1, 'insert': 1, 'remove': 1, 'swap': 2, 'split_off': 1, 'truncate': 1, 'swap_remove_back': 1, 'swap_remove_front': 1, 'rotate_left': 1, 'rotate_right': 1, 'drain': 1, 'range': 1}
MAYBE = {'get', 'get_mut', 'back', 'back_mut', 'front', 'front_mut', 'pop_back', 'pop_front'}
RESIZE = {'insert', 'remove', 'push_back', 'push_front', 'pop_back', 'pop_front', 'clear', 'truncate', 'split_off', 'drain', 'extend', 'append', 'retain', 'resize', 'swap_remove_back', 'swap_remove_front'}
ASSIGN = {'index_mut', 'back_mut', 'front_mut', 'get_mut', 'swap', 'iter_mut', 'rotate_left', 'rotate_right', 'make_contiguous'}
SETS = ('std::collections::BTreeSet<usize>', 'std::vec::Vec<usize>', 'alloc::collections::BTreeSet<usize>', 'alloc::vec::Vec<usize>')


def listcall(cl):
    """A call on a sequence of script values."""
    if cl.trait and ('Index' in cl.trait) and cl.args: return 'VecDeque<runtime::Value' in cl.args[0]
    return bool(SEQ.search(cl.rpath)) and cl.args and cl.args[0].startswith('runtime::Value')


def letters(cl): return cl.method in ('nth', 'count', 'nth_back') and cl.args and 'Grapheme' in cl.args[0]


def canon(v):
    """The list (or text) behind a value: wrappers, borrows and references removed."""
    for _ in range(30):
        v = strip(v)
        if v[0] in ('deref', 'as', 'brw', 'pure', 'V'): v = v[1]; continue
        if v[0] == 'ref' and not v[1][1]: v = v[1][0]; continue
        if v[0] == 'init': v = ('ref', v[1]); 
        if v[0] == 'ref':
            base, pr = v[1]
            if base[0] == 'V':
                x = base[1]
                for q in pr: x = ('p', x, q)
                v = x if pr else base
                continue
            return v
        if v[0] == 'p' and v[1][0] == 'p' and v[1][2][0] == 'v' and v[1][2][1] in ('List', 'Text') and v[2] == ('f', '0'): v = v[1][1]; continue
        if v[0] == 'p' and v[1][0] == 'p' and v[1][2][0] == 'v' and v[1][2][1] in ('Ok', 'Some') and v[2] == ('f', '0') and strip(v[1][1])[0] == 'conv1':
            v = strip(v[1][1])[1]; continue
        return v
    return v


def num(v):
    """v as a linear form, integer casts between machine words removed."""
    v = strip(v)
    for _ in range(6):
        if v[0] == 'cast' and v[2] in ('usize', 'u64', 'i64', 'isize', 'u32', 'i32', 'u128', 'i128') and v[3] in ('usize', 'u64', 'i64', 'isize', 'u128', 'i128'): v = strip(v[1]); continue
        if v[0] == 'ref' and v[1][0][0] == 'V' and not v[1][1]:
            v = v[1][0][1]
            if v[0] in ('pure', 'deref'): v = v[1]
            continue
        if v[0] == 'deref' and v[1][0] not in ('init',): v = strip(v[1]); continue
        break
    if v[0] == 'c' and v[1] == 'i': return {'': int(v[2])} if v[2] != '0' and int(v[2]) else {}
    if v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
        return ladd(num(v[2]), num(v[3]), 1 if v[1].startswith('Add') else -1)
    if v[0] == 'cast' and len(v) > 3 and v[2] in ('usize', 'u8', 'u16', 'u32', 'u64'): return num(v[1])
    return {v: 1}


def mentions(v, pred):
    if not isinstance(v, tuple): return False
    if pred(v): return True
    return any(mentions(x, pred) for x in v)


def isq(v): return len(v) == 4 and v[0] == 'qlen'


def le0(L, cons):
    """L <= 0 follows from at most two of the known inequalities (each C <= 0)."""
    def triv(d): return set(d) <= {''} and d.get('', 0) <= 0 or all((k == '' and c <= 0) or (k != '' and isinstance(k, tuple) and k[0] == 'qlen' and c < 0) for k, c in d.items())
    if triv(L): return True
    cs = [dict(c) for c in cons]
    one = [ladd(L, c, -1) for c in cs]
    if any(triv(d) for d in one): return True
    return any(triv(ladd(d, c, -1)) for d in one for c in cs)


NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}


def truth(choice):
    t = choice[1] if isinstance(choice, tuple) and choice[0] == 'is' else choice if isinstance(choice, str) else None
    return None if t is None else t not in ('0', 'false')


class Lists:
    """Mixin: list lengths by version, prepared positions, comparisons on the path."""
    c = None
    prep = {}            # fn id -> ('one'|'set', index of the length parameter)
    covered = None
    all_cons = False
    where = ''
    bounded_sites = 0

    # -- state: rs = (versions, constraints, flags)
    init_rs = ((), (), ())

    def version(self, st, root):
        for k, v in st.rs[0]:
            if k == root: return v
        return None
    def resized(self, st, root, site):
        vs, cons, fl = st.rs
        cur = self.version(st, root)
        new = ('top', site) if cur is not None and cur[-1] == site else ('at', site)
        st.rs = (tuple(x for x in vs if x[0] != root) + ((root, new),), cons, fl)
    def flag(self, st, f):
        if f not in st.rs[2]: st.rs = (st.rs[0], st.rs[1], st.rs[2] + (f,))
    def know(self, st, d):
        t = tuple(sorted(((k, c) for k, c in d.items() if c), key=repr))
        if t and t not in st.rs[1] and len(st.rs[1]) < 14: st.rs = (st.rs[0], st.rs[1] + (t,), st.rs[2])
    def compare(self, st, op, a, b):
        A, B = num(a), num(b)
        d = ladd(A, B, -1)
        if op == 'Lt': self.know(st, ladd(d, {'': 1}))
        elif op == 'Le': self.know(st, d)
        elif op == 'Gt': self.know(st, ladd(ladd(B, A, -1), {'': 1}))
        elif op == 'Ge': self.know(st, ladd(B, A, -1))
        elif op == 'Eq': self.know(st, d); self.know(st, ladd(B, A, -1))
        elif op == 'Ne':
            for x, y in ((A, B), (B, A)):
                if not y and len(x) == 1 and list(x.values()) == [1] and self.nonneg(next(iter(x))): self.know(st, {'': 1, next(iter(x)): -1})
    def nonneg(self, t): return isq(t) or t in self.lens
    lens = ()

    def on_branch(self, sim, st, cx, v, choice):
        super().on_branch(sim, st, cx, v, choice)
        t = truth(choice)
        if t is None:
            if isinstance(choice, tuple) and choice[0] == 'not' and isinstance(v, tuple) and (isq(v) or v in self.lens) and '0' in choice[1]: self.know(st, {'': 1, v: -1})
            return
        v = strip(v)
        while v[0] == 'un' and v[1] == 'Not': v, t = strip(v[2]), not t
        if isq(v):
            n = choice[1] if isinstance(choice, tuple) else choice
            if str(n).lstrip('-').isdigit():
                self.compare(st, 'Eq', v, ('c', 'i', str(n), 'usize'))
            return
        if v[0] == 'bin' and v[1] in NEG and (self.all_cons or mentions(v, isq)):
            self.compare(st, v[1] if t else NEG[v[1]], v[2], v[3])
        elif v[0] == 'within' and t:
            lo, hi, x, incl = v[1:]
            self.compare(st, 'Ge', x, lo); self.compare(st, 'Le' if incl else 'Lt', x, hi)

    def bad(self, key, msg): self.c.violation(f'{self.where}:{key}', f'{self.where}: {msg}', self.loc)
    loc = ''

    def target(self, sim, st, v):
        v = strip(v)
        for _ in range(12):
            if v[0] == 'ref':
                x = sim.read(st, v[1])
                if x == v or x[0] == 'init' or x[0] in ('undef',): break
                if v[1][0][0] == 'V' and not v[1][1] and x == v[1][0][1]: break
                v = strip(x); continue
            break
        return canon(v)

    def proved(self, st, root, i, extra, site):
        """0 <= i < length of root (+extra), and why not."""
        i = strip(i)
        v0 = self.version(st, root)
        n = {('qlen', root, v0, 0): 1}
        if extra: n[''] = extra
        src = i
        desc = None
        if src[0] == 'deref': src = strip(src[1])
        if src[0] == 'ref' and src[1][0][0] == 'V' and not src[1][1]: src = strip(src[1][0][1])
        if src[0] == 'member':
            _, S, direction = src
            ver, bound = S[2], dict(S[1])
            d = ladd(bound, n, -1)
            if not d: return None
            old = {k: c for k, c in bound.items()}
            lens = [k for k in old if k != '' and isq(k)]
            if len(lens) == 1 and lens[0][1] == root and v0 is not None and v0[-1] == site and (lens[0][2] is None or lens[0][2][-1] != site):
                if direction != 'desc': return 'positions checked beforehand are used in ascending order while the list changes size'
                if old.get('', 0) == extra: return None
            return self.explain(bound, root, extra)
        if src[0] == 'prepared':
            d = ladd(dict(src[1]), n, -1)
            return None if not d else self.explain(dict(src[1]), root, extra)
        # bounded by the comparisons on this path
        L = num(i)
        if le0(ladd(ladd(L, n, -1), {'': 1}), st.rs[1]) and le0(ladd({}, L, -1), st.rs[1]): return None
        return 'the position is not checked against the length of this list'

    def explain(self, b, root, extra):
        lens = [k for k in b if k != '' and isq(k)]
        if not lens: return 'the position was checked against something other than the length of this list'
        if lens[0][1] != root: return 'the position was checked against the length of another list'
        if b.get('', 0) != extra: return f'the position was checked against the length {b.get("", 0):+d} instead of {extra:+d}'
        return 'the list changed size after the position was checked'

    def script_list(self, root): return True

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return super().on_call(sim, st, cx, callee, args, site)
        m = callee.method
        if callee.local and callee.local in self.prep and callee.local != getattr(self, 'self_id', None):
            kind, k = self.prep[callee.local]
            self.c.count('positions prepared')
            b = tuple(sorted(num(args[k]).items(), key=repr))
            v = ('call', callee.rpath, site, (('prep', kind, b),))
            return [(st, sim.fresh(st, v))]
        if m in ('as_list', 'as_text') and args and callee.crate != 'core':
            return [(st, sim.fresh(st, ('call', callee.rpath, site, (self.target(sim, st, args[0]),))))]
        if m in ('borrow', 'borrow_mut') and args and 'RefLock' in callee.rpath + str(callee.args):
            t = self.target(sim, st, args[0])
            return [(st, ('brw', t))]
        if m in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'as_str') and args:
            a = strip(args[0])
            x = strip(sim.read(st, a[1])) if a[0] == 'ref' else a
            if x[0] == 'brw': return [(st, ('ref', (('V', x), ())))]
        if m == 'rand' and callee.trait and callee.trait.endswith('System') and len(args) > 1:
            r = deepread(sim, st, args[1])
            if r[0] == 'agg' and r[1].endswith('ops::Range') and r[3][0][0] == 'c':
                v = ('call', callee.rpath, site, (r,))
                out = sim.fresh(st, v)
                if le0(ladd(ladd(num(r[3][0]), num(r[3][1]), -1), {'': 1}), st.rs[1]):
                    self.know(st, ladd(num(r[3][0]), {out: -1})); self.know(st, ladd(ladd({out: 1}, num(r[3][1]), -1), {'': 1}))
                elif mentions(r, isq) or any(l in num(r[3][1]) for l in self.lens): self.bad('empty-random', 'a random position is drawn from a list that may be empty')
                return [(st, out)]
        if m == 'contains' and args:
            r = deepread(sim, st, args[0])
            if r[0] == 'agg' and r[1].endswith('ops::Range'): return [(st, ('within', r[3][0], r[3][1], deepread(sim, st, args[1]), False))]
            if r[0] == 'rangeincl': return [(st, ('within', r[1], r[2], deepread(sim, st, args[1]), True))]
        if m == 'new' and 'RangeInclusive' in callee.rpath and len(args) == 2: return [(st, ('rangeincl', args[0], args[1]))]
        if m in ('try_from', 'try_into') and len(args) == 1 and callee.args and any('usize' == a for a in callee.args):
            ok = st.copy()
            x = deepread(sim, st, args[0])
            self.know(ok, ladd({}, num(x), -1))
            return [(ok, ('agg', 'core::result::Result', 'Ok', (x,), ('0',))), (st, ('agg', 'core::result::Result', 'Err', (('call', callee.rpath, site, ()),), ('0',)))]
        if m == 'checked_sub' and len(args) == 2:
            ok = st.copy()
            self.know(ok, ladd(num(args[1]), num(args[0]), -1))
            return [(ok, some(('bin', 'Sub', args[0], args[1]))), (st, NONE)]
        if letters(callee) or m == 'graphemes' or (m in ('count', 'nth') and args and self.text(sim, st, args[0]) is not None):
            r = self.on_letters(sim, st, cx, callee, args, site)
            if r is not None: return r
        if listcall(callee) and args:
            r = self.on_list(sim, st, cx, callee, args, site)
            if r is not None: return r
        if m in ('rev',) and args: return [(st, ('iter', ('rev', args[0])))]
        if m in ('next', 'next_back', 'pop_first', 'pop_last') and args:
            lv = sim.deref(args[0])
            it = sim.read(st, lv) if lv is not None else args[0]
            k = self.member(sim, st, it)
            if k is not None:
                S, d = k
                if m in ('next_back', 'pop_last'): d = not d
                return [(st.copy(), NONE), (st, some(('member', S, 'asc' if not d else 'desc')))]
        return super().on_call(sim, st, cx, callee, args, site)

    def member(self, sim, st, it, d=False):
        """(prepared set, is it walked backwards) of an iterator or set value."""
        for _ in range(8):
            it = strip(it)
            if it[0] == 'iter':
                it = it[1]
                if it[0] == 'rev': it, d = it[1], not d
                continue
            if it[0] == 'ref':
                x = sim.read(st, it[1])
                if x == it: return None
                if it[1][0][0] == 'V' and x[0] == 'init': it = it[1][0][1]; continue
                it = x; continue
            if it[0] in ('deref', 'pure'): it = it[1]; continue
            break
        p = self.prepared(it)
        if p and p[0] == 'set': return (('set', p[1], None), d)
        return None

    def prepared(self, v):
        """('one'|'set', bound) when v is the success value of a preparation function."""
        v = strip(v)
        if v[0] == 'p' and v[2] == ('f', '0') and v[1][0] == 'p' and v[1][2][0] == 'v' and v[1][2][1] in ('Ok', 'Some', 'Continue'): v = strip(v[1][1])
        if v[0] == 'call' and len(v) > 3 and v[3] and isinstance(v[3][0], tuple) and v[3][0][0] == 'prep': return v[3][0][1], v[3][0][2]
        return None

    def on_list(self, sim, st, cx, callee, args, site):
        m = callee.method
        root = self.target(sim, st, args[0])
        if not self.script_list(root): return None
        here = (cx.fn.id, site[-1] if isinstance(site, tuple) else site)
        if m == 'len': return [(st, ('qlen', root, self.version(st, root), 0))]
        if m == 'is_empty':
            q = ('qlen', root, self.version(st, root), 0)
            return [(st, ('bin', 'Eq', q, ('c', 'i', '0', 'usize')))]
        out = None
        if m in TAKES:
            self.covered.add(here)
            self.c.count('uses of a position')
            for a in args[1:1 + TAKES[m]]:
                a = self.position(sim, st, a)
                why = self.proved(st, root, a, 1 if m == 'insert' else 0, site)
                if why is not None: self.bad(f'{m}', f'`{m}` on a list: {why}')
                else: self.good.add((self.where, m))
        if m in MAYBE:
            self.covered.add(here)
            self.c.count('uses of a position')
            if m in ('get', 'get_mut'):
                why = self.proved(st, root, self.position(sim, st, args[1]), 0, site)
                sure = why is None
            else: sure = le0({('qlen', root, self.version(st, root), 0): -1, '': 1}, st.rs[1])
            v = ('call', callee.rpath, site, (root,))
            val = ('ref', (('V', ('item', root, site)), ())) if not m.startswith('pop') else ('item', root, site)
            out = [(st, some(val))]
            if not sure:
                no = st.copy()
                self.flag(no, ('absent', m))
                if m in ('get', 'get_mut') and mentions(args[1], lambda t: len(t) > 1 and t[0] == 'call' and str(t[1]).endswith('as_number')):
                    self.flag(no, ('unchecked', m)); self.why = why
                self.compare(no, 'Eq', ('qlen', root, self.version(no, root), 0), ('c', 'i', '0', 'usize')) if m not in ('get', 'get_mut') else None
                out.append((no, NONE))
        if m in RESIZE or m in ASSIGN:
            for s, o in out or [(st, None)]:
                if o != NONE: self.flag(s, ('changed',))
        if m in RESIZE:
            for s, _ in out or [(st, None)]:
                self.resized(s, root, site)
        if out is None and m == 'remove': out = [(st, some(('item', root, site)))]
        if out is None and m in ('push_back', 'push_front', 'insert', 'clear', 'truncate', 'extend', 'append', 'retain', 'resize'): out = [(st, UNIT)]
        if out is None and m in ('index', 'index_mut'): out = [(st, ('ref', (('V', ('item', root, site)), ())))]
        return out

    def position(self, sim, st, a):
        a = strip(a)
        if a[0] == 'ref':
            x = strip(sim.read(st, a[1]))
            a = x if x[0] != 'init' else a
        for _ in range(4):
            b = a[1][0] if a[0] == 'init' and not a[1][1] else a
            if b[0] in ('V', 'deref', 'pure'): b = strip(b[1])
            if b[0] == 'ref' and b[1][0][0] == 'V' and not b[1][1]: b = strip(b[1][0][1])
            if b is a: break
            if b[0] == 'member': return b
            if b[0] not in ('init', 'V', 'deref', 'pure', 'ref'): break
            a = b
        p = self.prepared(a)
        if p and p[0] == 'one': return ('prepared', p[1])
        return a

    # -- letters of a text
    def text(self, sim, st, v):
        v = strip(v)
        if v[0] == 'ref': v = strip(sim.read(st, v[1]))
        if v[0] == 'iter': v = strip(v[1])
        return v if v[0] == 'letters' else None

    def on_letters(self, sim, st, cx, callee, args, site):
        m = callee.method
        if m == 'graphemes':
            return [(st, ('letters', self.target(sim, st, args[0]), deepread(sim, st, args[1]) if len(args) > 1 else None))]
        x = self.text(sim, st, args[0])
        if x is None:
            if m == 'nth' and letters(callee): self.bad('letters', 'letters are taken from an unknown text')
            return None
        if m == 'count': return [(st, ('qlen', x, None, 0))]
        if m in ('nth', 'nth_back'):
            self.covered.add((cx.fn.id, site[-1] if isinstance(site, tuple) else site))
            self.c.count('uses of a position')
            why = self.proved(st, x, self.position(sim, st, args[1]), 0, site)
            if why is None:
                self.good.add((self.where, m))
                return [(st, some(('item', x, site)))]
            no = st.copy(); self.flag(no, ('absent', m))
            self.why = why
            return [(st, some(('item', x, site))), (no, NONE)]
    why = None
    good = ()

    def on_assert(self, sim, st, cx, kind):
        super().on_assert(sim, st, cx, kind)
        if kind == 'unwrap':
            ab = [f[1] for f in st.rs[2] if f[0] == 'absent']
            if ab: self.bad(f'absent:{ab[-1]}', f'`{ab[-1]}` may find nothing and is unwrapped' + (f' ({self.why})' if self.why else ''))


class StepLists(Lists, StepRule):
    def __init__(self, prog, variant):
        StepRule.__init__(self, prog, variant)
        self.variant_name = variant
        self.where = f'instruction {variant}'
    init_rs = ((), (), ())
    def inline(self, sim, fn):
        if fn.id in self.prep: return False
        if fn.id in self.carry: return True
        return StepRule.inline(self, sim, fn)
    carry = ()


class FnLists(Lists, Plain):
    def __init__(self, prog, f):
        Plain.__init__(self, prog)
        self.where = f'`{f.path}`'
        self.loc = f.loc()
        self.root = f
    def inline(self, sim, fn): return fn.id in self.carry
    carry = ()


# ------------------------------------------------------------------ preparation functions

def ok_type(t):
    m = re.match(r'^(?:core|std)::(?:result::Result|option::Option)<(.*)$', t)
    if m: t = m.group(1)
    if re.match(r'^usize\b', t): return 'one'
    if any(t.startswith(s) for s in SETS): return 'set'


def candidates(p):
    for f in p.fns:
        if f.promoted or f.kind == 'Closure' or f.derived or '/test' in f.file or not (f.file.endswith('process.rs') or f.file.endswith('runtime.rs')): continue
        k = ok_type(f.locals[0])
        if not k or not ('Result<' in f.locals[0] or 'Option<' in f.locals[0] or k == 'set'): continue
        ls = [i for i in range(f.nargs) if f.locals[i + 1] == 'usize']
        if len(ls) == 1 and 'Result<' in f.locals[0]: yield f, k, ls[0]


class Contract(Lists, Plain):
    """One preparation function, its length parameter named LEN."""
    all_cons = True
    LEN = ('arg', 'LEN')
    lens = (LEN,)
    def __init__(self, prog, f, k, prep):
        Plain.__init__(self, prog)
        self.where = f'`{f.path}`'; self.loc = f.loc()
        self.f, self.k, self.prep, self.self_id = f, k, prep, f.id
        self.inserted = []
        self.covered = set()
        self.bads = []
    def inline(self, sim, fn):
        return fn.file == self.f.file and fn.id not in self.prep and (not fn.selfadt)
    def bad(self, key, msg): self.bads.append((key, msg))
    def on_call(self, sim, st, cx, callee, args, site):
        m = callee.method if callee is not None else None
        if m in ('as_number', 'get') and args and len(args) == 1 and callee.crate not in ('alloc', 'core', 'std'):
            return [(st, sim.fresh(st, ('call', callee.rpath, site, (deepread(sim, st, args[0]),))))]
        if m in ('insert', 'push', 'extend') and callee.args and callee.args[0] == 'usize' and len(args) > 1:
            self.inserted.append((st.rs, self.position(sim, st, args[1])))
            return [(st, ('hav', site))]
        if callee is not None and callee.local and callee.local in [self.prog.by_id[x].id for x in cx.stack] + [cx.fn.id]:
            # recursion: the same length and the same destination
            g = self.prog.by_id[callee.local]
            for i in range(g.nargs):
                if g.locals[i + 1] == 'usize' and num(args[i]) != {self.LEN: 1}: self.bad('recursion', 'nested positions are checked against another length')
            return [(st, sim.fresh(st, ('call', callee.rpath, site, ())))]
        return Lists.on_call(self, sim, st, cx, callee, args, site)


def below(rule, rs, i, n):
    i = strip(i)
    if i[0] == 'prepared': return dict(i[1]) == n
    L = num(i)
    return le0(ladd(ladd(L, n, -1), {'': 1}), rs[1]) and le0(ladd({}, L, -1), rs[1])


def contract(c, p, f, kind, k, prep):
    """Does every success of f stay below its length parameter?"""
    rule = Contract(p, f, k, prep)
    rule.c = c
    rule.good = set()
    sim = Sim(p, rule, 20000); sim.argdepth = 12
    args = tuple(Contract.LEN if i == k else ('ref', (('V', ('arg', f'a{i}')), ())) if f.locals[i + 1].startswith('&') else ('arg', f'a{i}') for i in range(f.nargs))
    n = {Contract.LEN: 1}
    ok, oks, errs = True, [], []
    for st, ret in sim.run(f, args, St({}, {}, Lists.init_rs)):
        c.count('paths of preparation functions')
        ret = deepread(sim, st, ret)
        if ret[0] == 'agg' and ret[2] in ('Err', 'None'): errs.append((st, ret)); continue
        v = strip(ret[3][0]) if ret[0] == 'agg' and ret[2] in ('Ok', 'Some') else ret
        oks.append((st, v))
        if kind == 'one' and not below(rule, st.rs, rule.position(sim, st, v), n): ok = False
        if kind == 'set':
            q = rule.prepared(v)
            if q and q != ('set', (((Contract.LEN), 1),)): ok = False
    if kind == 'set':
        if not rule.inserted and not any(rule.prepared(v) for _, v in oks): ok = False
        for rs, i in rule.inserted:
            if not below(rule, rs, i, n): ok = False
    return ok and bool(oks) and not rule.bads, oks, errs, rule


def exact(c, p, f, oks, errs, k):
    """The position a script asked for: one-based, whole, and refused with the right error otherwise."""
    scripted = any('Value' in f.locals[i + 1] for i in range(f.nargs))
    for st, v in oks:
        L = num(v)
        ts = [t for t in L if t != '']
        if not scripted: continue
        if len(ts) != 1 or L[ts[0]] != 1 or L.get('', 0) != -1:
            c.violation(f'{f.path}:base', f'`{f.path}` does not turn position k into place k - 1', f.loc()); continue
        x = strip(ts[0])
        if not (x[0] == 'cast' and x[2] == 'f64'): c.violation(f'{f.path}:source', f'`{f.path}` yields a position that is not the number it was given', f.loc()); continue
        if not mentions(x, lambda t: len(t) > 3 and t[0] == 'call' and str(t[1]).endswith('as_number')): c.violation(f'{f.path}:source', f'`{f.path}` yields a position that is not the number it was given', f.loc())
        if not whole(st.rs[1], x): c.violation(f'{f.path}:fraction', f'`{f.path}` accepts a position that is not a whole number', f.loc())
        c.count('position mappings')


def whole(cons, x):
    raw = strip(x[1])
    for d in cons:
        ts = [t for t, _ in d if t != '']
        if len(ts) == 2 and not any(k == '' for k, _ in d):
            for a, b in ((ts[0], ts[1]), (ts[1], ts[0])):
                a, b = strip(a), strip(b)
                if b == raw and (a == ('cast', x, x[3], 'f64') or a[0] == 'call' and str(a[1]).rsplit('::', 1)[-1] in ('trunc', 'floor', 'round', 'ceil')): return True
        if len(ts) == 1 and strip(ts[0])[0] == 'call' and str(strip(ts[0])[1]).endswith('fract'): return True
    return False


# ------------------------------------------------------------------ the check

def sites(p):
    out = {}
    for f in p.fns:
        if f.promoted or f.derived or '/test' in f.file or not (f.file.endswith('process.rs') or f.file.endswith('runtime.rs')): continue
        for b, cl in f.callees.items():
            if f.blocks[b].cleanup or b not in f.reachable: continue
            if (listcall(cl) and (cl.method in TAKES or cl.method in ('get', 'get_mut'))) or letters(cl) and cl.method.startswith('nth'): out[(f.id, b)] = (f, cl)
    return out


def check(c):
    p = c.p
    c.rule('every preparation function (a function from a script value or the host\'s random source and a length to a position or set of positions) yields only whole, one-based positions below its length argument, and refuses everything else')
    prep = {}
    todo = list(candidates(p))
    for _ in range(3):
        for f, kind, k in todo:
            if f.id in prep: continue
            ok, oks, errs, rule = contract(c, p, f, kind, k, prep)
            if ok:
                prep[f.id] = (kind, k)
                c.sample(f'{f.path}: every success is below its length argument')
                if kind == 'one' and not (len(oks) == 1 and rule.prepared(oks[0][1])): exact_or_random(c, p, f, oks, errs, k)
    for f, kind, k in todo:
        if f.id not in prep: c.sample(f'{f.path}: not a bounded position')
    c.count('preparation functions', len(prep))
    c.floor('preparation functions', 3); c.floor('position mappings', 1)

    c.rule('in every instruction and operator: each position used on a script list or on the letters of a text is below the length of that list as it is at that moment (one more for insertion), and an element that may be absent leads to an error, never to a panic')
    covered, good = set(), set()
    all_sites = sites(p)
    has = {f.id for f, cl in all_sites.values() if cl.method in TAKES}
    carry = {i for i in has if len(p.by_id[i].blocks) < 200 and p.by_id[i].kind != 'Closure' and i not in p.reach(p.callgraph.get(i, ()))}
    for f in p.fns:
        if f.promoted or f.kind == 'Closure' or not f.file.endswith('process.rs') or len(f.blocks) > 120 or f.id in prep: continue
        if any(cl.local in prep or cl.local in carry for cl in f.callees.values() if cl.local) and f.id not in p.reach(p.callgraph.get(f.id, ())) and not f.selfadt: carry.add(f.id)
    import p03
    loc = p03.rule_src(p)
    for v in p.variants(INS):
        rule = StepLists(p, v)
        rule.c, rule.prep, rule.covered, rule.good, rule.loc, rule.carry = c, prep, covered, good, loc, carry
        c.count('instruction variants')
        _, sim, ex = run_variant(p, c, v, rule=rule)
        jump = any(t and 'usize' in t for n, t in p.fields(INS, v) if n not in ('args', 'len'))
        for st, ret in ex:
            ret = deepread(sim, st, ret)
            fail = ret[0] == 'agg' and ret[2] == 'Err'
            if fail and ('changed',) in st.rs[2]: c.violation(f'{v}:changed-then-failed', f'instruction {v} may change the list and then fail', loc)
            if not fail and not jump and any(x[0] == 'absent' and x[1] in ('get', 'get_mut', 'nth', 'nth_back') for x in st.rs[2]): c.violation(f'{v}:absent', f'instruction {v} goes on when there is no element at the position', loc)
    rest = {}
    for (fid, b), (f, cl) in all_sites.items():
        if (fid, b) not in covered and fid not in prep: rest.setdefault(fid, f)
    for f in rest.values():
        rule = FnLists(p, f)
        rule.c, rule.prep, rule.covered, rule.good, rule.carry = c, prep, covered, good, carry
        c.count('operators and helpers')
        sim = Sim(p, rule, 30000); sim.argdepth = 12
        for st, ret in sim.run(f, tuple(('ref', (('V', ('arg', f'a{i}')), ())) if f.locals[i + 1].startswith('&') else ('arg', f'a{i}') for i in range(f.nargs)), St({}, {}, Lists.init_rs)):
            ret = deepread(sim, st, ret)
            if not (ret[0] == 'agg' and ret[2] == 'Err') and any(x[0] == 'unchecked' or x[0] == 'absent' and x[1].startswith('nth') for x in st.rs[2]): rule.bad('absent', f'yields something when there is no element at the position ({rule.why})')
    for (fid, b), (f, cl) in all_sites.items():
        if (fid, b) not in covered and fid not in prep: c.violation(f'{f.path}:unseen:{cl.method}', f'`{f.path}` uses a position on a list where this rule cannot follow it', f.loc())
    for w, m in sorted(good): c.sample(f'{w}: {m} within the length of its list')
    c.count('uses shown in bounds', len(good))
    c.floor('instruction variants', 90); c.floor('uses shown in bounds', 7); c.floor('uses of a position', 10)


def touches(st): return True


def exact_or_random(c, p, f, oks, errs, k):
    if any(mentions(v, lambda t: len(t) > 2 and t[0] == 'call' and str(t[1]).endswith('System::rand')) for _, v in oks):
        for st, v in oks:
            v = strip(v)
            r = v[3][0] if v[0] == 'call' and len(v) > 3 and v[3] else None
            if r is None or num(r[3][0]) != {} or num(r[3][1]) != {Contract.LEN: 1}: c.violation(f'{f.path}:range', f'`{f.path}` does not draw from every position of the list', f.loc())
            c.count('position mappings')
        return
    exact(c, p, f, oks, errs, k)

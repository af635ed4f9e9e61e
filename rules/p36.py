"""P36: numbers supplied by scripts are range-checked or clamped before they become bounded integers, and arithmetic on the result cannot wrap."""
from stepm import *
from h import Plain, deepread
from base import Missing
from mir import strip_generics
import p03, math

BITS = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'usize': (0, 64), 'u128': (0, 128), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'isize': (1, 64), 'i128': (1, 128)}
RANGE = {t: (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1) for t, (s, b) in BITS.items()}
CODEC = ('bytecode.rs', 'slotmap.rs', 'vecmap.rs')          # encodings and containers of the machine itself (P01, P13, P29, P30)
CLAMPS = ('saturating_', 'checked_', 'to_be_bytes', 'to_le_bytes', 'to_ne_bytes', 'try_from', 'try_into', 'clamp', 'min', 'max', 'to_compact_string', 'to_string', 'fmt', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'clone', 'new_display', 'new_debug', 'new_lower_hex')
CARRY = ('checked_', 'saturating_', 'min', 'max', 'clamp', 'abs', 'unsigned_abs', 'rem_euclid', 'div_euclid', 'pow', 'unwrap_or', 'try_from', 'try_into', 'from', 'into', 'wrapping_', 'overflowing_')
WRAPS = ('wrapping_', 'overflowing_', 'unchecked_', 'to_int_unchecked', 'pow', 'transmute')
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}


def known(v):
    """v with the limits of the integer types as numbers."""
    v = strip(v)
    if v[0] == 'c' and v[1] in ('def', 'txt') and isinstance(v[2], str):
        for t, (lo, hi) in RANGE.items():
            if v[2].endswith(f'<impl {t}>::MIN') or v[2].endswith(f' {t}::MIN') or v[2] == f'{t}::MIN': return ('c', 'i', str(lo), t)
            if v[2].endswith(f'<impl {t}>::MAX') or v[2].endswith(f' {t}::MAX') or v[2] == f'{t}::MAX': return ('c', 'i', str(hi), t)
    return v


def lin36(v):
    """v as a linear form over the reals; exact conversions are looked through."""
    v = known(v)
    if v[0] == 'c' and v[1] == 'i': return {'': int(v[2])} if int(v[2]) else {}
    if v[0] == 'c' and v[1] == 'f':
        try: x = float(str(v[2]).replace('f64', '').replace('f32', '').rstrip('_'))
        except ValueError: return {v: 1}
        return ({'': int(x) if x == int(x) else x} if x else {}) if math.isfinite(x) else {v: 1}
    if v[0] == 'cast' and len(v) > 3:
        s, t = v[2], v[3]
        if s in RANGE and t in RANGE and RANGE[t][0] <= RANGE[s][0] and RANGE[t][1] >= RANGE[s][1]: return lin36(v[1])
        if s in RANGE and t in ('f64', 'f32'):
            x = known(v[1])
            if x[0] == 'c' and x[1] == 'i': f = float(int(x[2])); return {'': int(f)} if f else {}
        return {v: 1}
    if v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
        return ladd(lin36(v[2]), lin36(v[3]), 1 if v[1].startswith('Add') else -1)
    if v[0] == 'un' and v[1] == 'Neg': return {k: -c for k, c in lin36(v[2]).items()}
    if v[0] == 'bin' and v[1] == 'BitOr':
        return {v: 1}
    return {v: 1}


def entails(goal, strict, cons):
    """goal <= 0 (or < 0) follows from at most two of the known inequalities (each (linear form, strict))."""
    def triv(d, s): return set(d) <= {''} and (d.get('', 0) < 0 or d.get('', 0) == 0 and (s or not strict))
    if triv(goal, False): return True
    cs = [(dict(d), s) for d, s in cons]
    for d1, s1 in cs:
        g = ladd(goal, d1, -1)
        if triv(g, s1): return True
        for d2, s2 in cs:
            if triv(ladd(g, d2, -1), s1 or s2): return True
    return False


def starts(m, names): return any(m == n or n.endswith('_') and m.startswith(n) for n in names)


def source(v):
    return v[0] == 'cast' and len(v) > 3 and v[2] == 'f64' and v[3] in RANGE and strip(v[1])[0] != 'c' or v[0] == 'parsed'


def tainted(v, d=0):
    """Made from a script's number; results of unrelated calls are not."""
    if not isinstance(v, tuple) or not v or d > 40: return False
    if isinstance(v[0], str):
        if source(v): return True
        if v[0] == 'call': return len(v) > 3 and starts(str(v[1]).rsplit('::', 1)[-1], CARRY) and any(tainted(x, d + 1) for x in v[3] if isinstance(x, tuple))
        if v[0] in ('cast', 'len'): return tainted(v[1], d + 1) if v[0] == 'cast' and v[3] in RANGE else False
        if v[0] in ('c', 'clo', 'fn', 'init', 'ref'): return False
    return any(tainted(x, d + 1) for x in v if isinstance(x, tuple))


def floats(v, out, d=0):
    """The float-to-integer conversions a value is made of (not looking into rejected values or the original numbers)."""
    if not isinstance(v, tuple) or not v or d > 40: return
    if isinstance(v[0], str):
        if v[0] == 'cast' and source(v): out.add(v); return
        if v[0] == 'cast' and len(v) > 3 and v[3] not in RANGE: return
        if v[0] == 'call':
            if len(v) > 3 and starts(str(v[1]).rsplit('::', 1)[-1], CLAMPS): return
            for x in v[3] if len(v) > 3 else (): floats(x, out, d + 1)
            return
        if v[0] in ('c', 'fn', 'clo'): return
        if v[0] == 'agg' and v[2] == 'Err': return
    for x in v:
        if isinstance(x, tuple): floats(x, out, d + 1)


class Sim36(Sim):
    argdepth = 14
    def rvalue(self, st, cx, r):
        v = Sim.rvalue(self, st, cx, r)
        if r[0] in ('cast', 'bin', 'un'): self.rule.on_op(self, st, cx, r, v)
        if r[0] == 'bin' and r[1][:3] in ('Add', 'Sub') and (r[2][0] == 'c') != (r[3][0] == 'c'):
            # counters: not followed from one round of a loop to the next
            x = self.operand(st, cx, r[2] if r[2][0] != 'c' else r[3])
            if x[0] == 'c' and x[1] == 'i' or x[0] == 'cnt':
                n = ('cnt', site_of(cx))
                v = ('agg', '()', '', (n, ('ovf', site_of(cx))), ('0', '1')) if r[1].endswith('WithOverflow') else n
        return v


class Num:
    """Comparisons known on the path, and the obligations of integer operations."""
    init_rs = ((), frozenset())
    c = None
    where = ''

    def setup(self, c, where, loc):
        self.c, self.where, self.loc = c, where, loc
        self.tally = {}
    def bad(self, cx, key, msg):
        w = self.where
        self.c.violation(f'{w}:{key}', f'{w}: {msg}', cx.loc if cx is not None else self.loc, [cx.fn.path] if cx is not None else None)

    def know(self, st, d, strict):
        t = (tuple(sorted(((k, x) for k, x in d.items() if x), key=repr)), strict)
        if t[0] and t not in st.rs[0] and len(st.rs[0]) < 16: st.rs = (st.rs[0] + (t,), st.rs[1])

    def on_branch(self, sim, st, cx, v, choice):
        super().on_branch(sim, st, cx, v, choice)
        t = choice[1] if isinstance(choice, tuple) and choice[0] == 'is' else choice if isinstance(choice, str) else None
        if isinstance(choice, tuple) and choice[0] == 'not' and isinstance(v, tuple) and v[0] in ('bin', 'un', 'call') and '0' in choice[1]: t = '1'
        if t is None or t not in ('0', '1', 'true', 'false'): return
        t = t in ('1', 'true')
        v = strip(v)
        while v[0] == 'un' and v[1] == 'Not': v, t = strip(v[2]), not t
        if v[0] == 'within':
            if t: self.within(v)(st)
            return
        if v[0] != 'bin' or v[1] not in NEG: return
        op = v[1] if t else NEG[v[1]]
        a, b = strip(v[2]), strip(v[3])
        A, B = lin36(a), lin36(b)
        d = ladd(A, B, -1)
        whole = any(x[0] == 'c' and x[1] == 'i' or x[0] == 'cast' and x[3] in RANGE or x[0] == 'parsed' for x in (a, b))
        if whole and op in ('Lt', 'Gt'):
            self.know(st, ladd(d if op == 'Lt' else ladd(B, A, -1), {'': 1}), False)
        elif op == 'Lt': self.know(st, d, True)
        elif op == 'Le': self.know(st, d, False)
        elif op == 'Gt': self.know(st, ladd(B, A, -1), True)
        elif op == 'Ge': self.know(st, ladd(B, A, -1), False)
        elif op == 'Eq':
            self.know(st, d, False); self.know(st, ladd(B, A, -1), False)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'cast' and x[3] == 'f64' and strip(x[1])[0] == 'cast' and source(strip(x[1])) and strip(strip(x[1])[1]) == y:
                    st.rs = (st.rs[0], st.rs[1] | {strip(x[1])})

    def within(self, v):
        _, lo, hi, x, incl = v
        whole = any(y[0] == 'c' and y[1] == 'i' or y[0] == 'cast' and y[3] in RANGE or y[0] == 'parsed' for y in (strip(lo), strip(hi), strip(x)))
        L, H, X = lin36(lo), lin36(hi), lin36(x)
        def go(st):
            self.know(st, ladd(L, X, -1), False)
            up = ladd(X, H, -1)
            self.know(st, ladd(up, {'': 1}) if whole and not incl else up, not incl and not whole)
        return go

    # -- proofs
    def bytype(self, v):
        """Type bounds of the atoms of a linear form, as inequalities."""
        out = []
        for k in lin36(v):
            if k == '': continue
            t = self.intty(k)
            if t:
                lo, hi = RANGE[t]
                out.append((tuple(sorted({k: -1, '': lo}.items(), key=repr)), False)); out.append((tuple(sorted({k: 1, '': -hi}.items(), key=repr)), False))
            if k[0] == 'bin' and k[1] == 'BitAnd':
                for x in (strip(k[2]), strip(k[3])):
                    if x[0] == 'c' and x[1] == 'i' and int(x[2]) >= 0: out.append((tuple(sorted({k: 1, '': -int(x[2])}.items(), key=repr)), False)); out.append((((k, -1),), False))
            if k[0] == 'bin' and k[1] == 'Rem':
                x = strip(k[3])
                if x[0] == 'c' and x[1] == 'i' and int(x[2]) > 0: out.append((tuple(sorted({k: 1, '': 1 - int(x[2])}.items(), key=repr)), False)); out.append((tuple(sorted({k: -1, '': 1 - int(x[2])}.items(), key=repr)), False))
            if k[0] == 'call' and len(k) > 3:
                m = str(k[1]).rsplit('::', 1)[-1]
                xs = [lin36(x) for x in k[3]]
                if m == 'min' and len(xs) == 2: out += [self.le({k: 1}, xs[0]), self.le({k: 1}, xs[1])]
                if m == 'max' and len(xs) == 2: out += [self.le(xs[0], {k: 1}), self.le(xs[1], {k: 1})]
                if m == 'clamp' and len(xs) == 3: out += [self.le(xs[1], {k: 1}), self.le({k: 1}, xs[2])]
        return out
    def le(self, a, b): return (tuple(sorted(ladd(a, b, -1).items(), key=repr)), False)
    def intty(self, k):
        if k[0] == 'cast' and len(k) > 3: return k[3] if k[3] in RANGE else None
        if k[0] == 'parsed': return k[2]
        return self.types.get(k) if hasattr(self, 'types') else None
    def proves(self, st, v, lo, hi, openhi=False):
        """lo <= v <= hi (or v < hi)."""
        cons = list(st.rs[0]) + self.bytype(v)
        for d in list(cons): 
            for k, _ in d[0]:
                if k != '' and k not in lin36(v): cons += [x for x in self.bytype(k) if x not in cons]
        L = self.expand(st, lin36(v))
        for k in {k for k in L if k != '' and k[0] == 'cast' and source(k)}:
            x = lin36(k[1])
            if k in st.rs[1]: cons += [self.le({k: 1}, x), self.le(x, {k: 1})]
            if entails({a: -b for a, b in x.items()}, False, cons): cons.append((((k, -1),), False))
        return entails(ladd({'': lo} if lo else {}, L, -1), False, cons) and entails(ladd(L, {'': hi} if hi else {}, -1), openhi, cons)

    def expand(self, st, L, d=0):
        """Conversions shown to be exact are looked through."""
        out = {}
        for k, c in L.items():
            if k != '' and k[0] == 'cast' and len(k) > 3 and k[2] in RANGE and k[3] in RANGE and d < 4 and self.proves(st, k[1], *RANGE[k[3]]):
                out = ladd(out, {a: b * c for a, b in self.expand(st, lin36(k[1]), d + 1).items()})
            else: out = ladd(out, {k: c})
        return out

    def settled(self, st, v):
        """A float-to-integer conversion known to have been exact or in range on this path."""
        if v in st.rs[1]: return True
        lo, hi = RANGE[v[3]]
        return self.proves(st, v[1], lo, hi + 1, True) or self.proves(st, v[1], lo, hi)

    # -- obligations
    def on_op(self, sim, st, cx, r, v):
        if cx.fn.file.endswith(CODEC): return
        k = r[0]
        if k == 'cast' and v[0] == 'cast' and len(v) > 3:
            s, t = v[2], v[3]
            if source(v): self.count('conversions of script numbers to integers', cx, ('f', cx.fn.id, cx.block, t))
            if s in RANGE and t in RANGE and tainted(v[1]) and not (RANGE[t][0] <= RANGE[s][0] and RANGE[t][1] >= RANGE[s][1]):
                self.count('narrowing conversions', cx, ('n', cx.fn.id, cx.block, t))
                if not self.proves(st, v[1], *RANGE[t]): self.bad(cx, f'narrow:{s}:{t}', f'a number taken from a script is converted from {s} to {t} without showing that it fits')
        if k == 'bin':
            op = r[1].replace('WithOverflow', '').replace('Unchecked', '')
            if op not in ('Add', 'Sub', 'Mul', 'Shl'): return
            a, b = sim.operand(st, cx, r[2]), sim.operand(st, cx, r[3])
            t = self.optype(cx.fn, r[2]) or self.optype(cx.fn, r[3])
            if t not in RANGE or not (tainted(a) or tainted(b)): return
            self.count('arithmetic on script integers', cx, ('a', cx.fn.id, cx.block, op))
            x = ('bin', op, a, b)
            if op == 'Shl' or not self.proves(st, x, *RANGE[t]):
                if op == 'Mul' and self.product(st, a, b, t): return
                self.bad(cx, f'{op}:{t}', f'{op} on an integer taken from a script may overflow')
        if k == 'un' and r[1] == 'Neg':
            a = sim.operand(st, cx, r[2])
            t = self.optype(cx.fn, r[2])
            if t in RANGE and tainted(a):
                self.count('arithmetic on script integers', cx, ('a', cx.fn.id, cx.block, 'Neg'))
                if not self.proves(st, a, RANGE[t][0] + 1, RANGE[t][1]): self.bad(cx, f'Neg:{t}', 'negating an integer taken from a script may overflow')

    def product(self, st, a, b, t):
        for x, y in ((a, b), (b, a)):
            y = strip(y)
            if y[0] == 'c' and y[1] == 'i' and int(y[2]) > 0:
                n = int(y[2])
                return self.proves(st, x, -(-RANGE[t][0] // n) if RANGE[t][0] >= 0 else -((-RANGE[t][0]) // n), RANGE[t][1] // n)
        return False

    def optype(self, f, o):
        if o[0] == 'c': return o[1].get('ty') if isinstance(o[1], dict) else None
        if len(o[1]) == 1: return f.locals[o[1][0]].strip()
        last = o[1][-1]
        return last[4] if isinstance(last, list) and len(last) > 4 else None

    def count(self, what, cx, key):
        if key not in self.tally:
            self.tally[key] = what
            if key not in SEEN: SEEN.add(key); self.c.count(what)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and not cx.fn.file.endswith(CODEC):
            m = callee.method
            if m in ('parse', 'from_str', 'from_str_radix', 'from_ascii'):
                t = (callee.args[0] if callee.args and callee.args[0] in RANGE else None) or next((x for x in RANGE if f'<impl {x}>' in callee.rpath), None)
                if t:
                    self.count('integers parsed from text', cx, ('p', cx.fn.id, cx.block))
                    x = ('parsed', site, t)
                    s2 = st.copy()
                    sim.fresh(st, x)
                    return [(st, ok(x)), (s2, err(('call', callee.rpath, site)))]
            ds = [deepread(sim, st, a) for a in args]
            if m == 'contains' and len(ds) == 2 and 'ange' in callee.rpath:
                r = strip(ds[0])
                if r[0] == 'call' and str(r[1]).endswith('RangeInclusive::new') or r[0] == 'call' and 'RangeInclusive' in str(r[1]) and len(r) > 3 and len(r[3]) == 2:
                    return [(st, ('within', r[3][0], r[3][1], ds[1], True))]
                if r[0] == 'agg' and len(r[3]) >= 2 and 'Range' in r[1]: return [(st, ('within', r[3][0], r[3][1], ds[1], 'Inclusive' in r[1]))]
            inty = 'num::<impl ' in callee.rpath or 'core::num' in callee.rpath
            if starts(m, WRAPS) and inty and any(tainted(d) for d in ds):
                self.bad(cx, f'{m}', f'`{m}` on an integer taken from a script may wrap around')
            if m in ('unwrap', 'expect', 'unwrap_unchecked') and any(mentions(d, lambda y: y[:1] == ('call',) and len(y) > 3 and str(y[1]).rsplit('::', 1)[-1].startswith(('try_from', 'try_into', 'checked_')) and tainted(y)) for d in ds):
                if st.facts.get(ds[0], ('',))[0] != 'is': self.bad(cx, f'{m}', 'a checked conversion of a number taken from a script is unwrapped')
            follows = callee.local and self.prog.by_id.get(callee.local) is not None and self.inline(sim, self.prog.by_id[callee.local])
            if not starts(m, CLAMPS) and not follows and not self.internal(callee):
                out = set()
                for d in ds: floats(d, out)
                for v in out:
                    self.count('uses of converted numbers', cx, ('u', cx.fn.id, cx.block))
                    if not self.settled(st, v): self.bad(cx, f'unchecked:{v[3]}', f'a number taken from a script is used as {v[3]} (by `{m}`) without a range check')
        return super().on_call(sim, st, cx, callee, args, site)

    def internal(self, callee):
        """Plumbing that only moves its arguments around."""
        return callee.method in ('branch', 'from_residual', 'into', 'ok', 'and_then', 'map', 'ok_or', 'ok_or_else', 'map_err', 'unwrap', 'drop', 'deref', 'as_ref', 'borrow')

    def on_agg(self, sim, st, cx, val):
        super().on_agg(sim, st, cx, val)
        if val[1].endswith('runtime::Note') and len(val[3]) == 1:
            self.count('notes built', cx, ('note', cx.fn.id, cx.block))
            x = strip(val[3][0])
            parts = [strip(x[2]), strip(x[3])] if x[0] == 'bin' and x[1] in ('BitOr', 'BitXor', 'Add') else [x]
            flag = False
            for y in parts:
                if y[0] == 'c' and y[1] == 'i' and int(y[2]) in (0, 0x80): flag = True; continue
                self.types = {y: 'u8'}
                if not self.proves(st, y, 0, 0x7f): self.bad(cx, 'note', 'a note is built from a value that is not known to be below 128')


class Fn36(Num, Plain):
    def __init__(self, prog, f):
        Plain.__init__(self, prog)
        self.root = f
    def inline(self, sim, fn):
        return not fn.derived and not fn.file.endswith(CODEC) and len(fn.blocks) < 80 and not fn.trait and (fn.kind == 'Closure' or fn.file in (self.root.file,) or small(fn))


class Step36(Num, StepRule):
    def __init__(self, prog, variant): StepRule.__init__(self, prog, variant)
    def inline(self, sim, fn): return StepRule.inline(self, sim, fn) or small(fn)


def small(fn):
    return fn.kind != 'Closure' and not fn.derived and not fn.trait and len(fn.blocks) < 40 and any(t.strip() in RANGE or t.strip() == 'f64' for t in fn.locals[1:fn.nargs + 1]) and not fn.file.endswith(CODEC)


SEEN = set()


def roots(p):
    """Functions that turn numbers or text into integers, or build notes."""
    for f in p.fns:
        if f.promoted or f.derived or f.file.endswith(CODEC) or '/test' in f.file: continue
        hit = False
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            for s in b.stmts:
                if s[0] != '=': continue
                r = s[2]
                if r[0] == 'cast' and r[1] == 'FloatToInt' and r[3] == 'f64': hit = True
                if r[0] == 'agg' and isinstance(r[1], dict) and r[1].get('k') == 'adt' and strip_ty(r[1]['adt']).endswith('runtime::Note'): hit = True
            cl = f.callees.get(bi)
            if cl is not None and cl.method in ('parse', 'from_str', 'from_str_radix', 'try_from', 'try_into') and (any(a in RANGE for a in cl.args) or any(f'<impl {x}>' in cl.rpath for x in RANGE)): hit = True
            if cl is not None and cl.method == 'to_int_unchecked': hit = True
        if hit: yield f


def check(c):
    p = c.p
    SEEN.clear()
    stepf = entry_of(p, c)[1]
    c.rule('a float taken from a script that becomes an integer is compared back with the original, shown to be in range, or handed to a saturating operation before it is used')
    c.rule('narrowing or sign-changing conversions, additions, subtractions, multiplications, shifts and negations of such integers are shown to stay in range by the comparisons on the path, or use checked or saturating operations; wrapping operations and unwrapped checked conversions are not used on them')
    c.rule('a note is only built from a value shown to be below 128')
    n = 0
    for f in roots(p):
        if f.id == stepf.id: continue
        c.count('functions converting numbers')
        rule = Fn36(p, f)
        rule.setup(c, f'`{f.path}`', f.loc())
        sim = Sim36(p, rule, 60000)
        ex = sim.run(f, tuple(('arg', str(i)) for i in range(f.nargs)), St({}, {}, rule.init_rs))
        c.sample(f'{f.path}: {len(ex)} outcomes')
        for st, r in ex:
            out = set()
            floats(deepread(sim, st, r), out)
            for v in out:
                if not rule.settled(st, v): rule.bad(None, f'result:{v[3]}', f'reports a number taken from a script as {v[3]} without a range check')
    for v in p.variants(INS):
        rule = Step36(p, v)
        rule.setup(c, f'instruction {v}', p03.rule_src(p))
        c.count('instruction variants')
        sim = Sim36(p, rule, 400000)
        st, args = rule.start(sim, stepf)
        sim.run(stepf, args, st)
    lengths(c)
    c.floor('functions converting numbers', 7); c.floor('conversions of script numbers to integers', 7); c.floor('instruction variants', 90)
    c.floor('narrowing conversions', 1); c.floor('notes built', 1); c.floor('uses of converted numbers', 2); c.floor('integers parsed from text', 4)
    c.assume('script numbers are never NaN (the checked-float wrapper, P31)')


def lengths(c):
    """Sizes multiplied together: the product of list lengths is not bounded by memory."""
    p = c.p
    c.rule('integer products of run-time quantities are checked or saturating')
    n = 0
    for f in p.fns:
        if f.promoted or f.derived or f.file.endswith(CODEC) or '/test' in f.file: continue
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Mul', 'MulWithOverflow', 'MulUnchecked'):
                    a, o = s[2][2], s[2][3]
                    ty = next((t for t in (f.locals[x[1][0]].strip() if x[0] != 'c' and len(x[1]) == 1 else None for x in (a, o)) if t in RANGE), None)
                    if ty is None: continue
                    c.count('integer products')
                    if a[0] != 'c' and o[0] != 'c': c.violation(f'{f.path}:product', f'{f.path} multiplies two run-time integers without a check', f.loc(s[3]), [f.path])
            cl = f.callees.get(bi)
            if cl is None: continue
            if cl.method in ('saturating_mul', 'checked_mul'): c.count('integer products')
            if cl.method in ('product', 'pow', 'wrapping_mul', 'sum') and any(a in RANGE for a in cl.args): c.violation(f'{f.path}:{cl.method}', f'{f.path} multiplies run-time integers without a check', f.loc(b.term[-1]), [f.path])
    c.floor('integer products', 2)

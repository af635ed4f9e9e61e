"""Exact bit-level value domain for the small integer codecs: every integer is a vector of bits, each 0, 1 or a
(possibly negated) input bit.  Loops have constant bounds once the size of the number is fixed, so they unroll."""
from sim import *
from sim import Sim

W = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


def bv(bits, ty): return ('bv', tuple(bits), ty)
def sym(name, ty, n=None):
    n = W[ty] if n is None else n
    return bv([(name, k, False) for k in range(n)] + [0] * (W[ty] - n), ty)
def const(n, ty): return bv([(n >> k) & 1 for k in range(W[ty])], ty)
def neg(b): return 1 - b if b in (0, 1) else (b[0], b[1], not b[2])


def as_bv(v, ty=None):
    v = strip(v)
    if v[0] == 'bv': return v
    if v[0] == 'c' and v[1] == 'i':
        t = v[3] if len(v) > 3 and v[3] in W else ty
        return const(int(v[2]), t) if t else None
    return None


def num(v):
    v = strip(v)
    if v[0] == 'c' and v[1] == 'i': return int(v[2])
    if v[0] == 'bv' and all(b in (0, 1) for b in v[1]):
        n = sum(b << k for k, b in enumerate(v[1]))
        if v[2].startswith('i') and v[1][-1] == 1: n -= 1 << len(v[1])
        return n
    return None


def cast(v, ty):
    b = list(v[1]); w = W[ty]
    if w <= len(b): return bv(b[:w], ty)
    fill = b[-1] if v[2].startswith('i') else 0
    return bv(b + [fill] * (w - len(b)), ty)


def band(x, y):
    if x == 0 or y == 0: return 0
    if x == 1: return y
    if y == 1: return x
    if x == y: return x
    if x == neg(y): return 0
    return None


def bor(x, y):
    r = band(neg(x), neg(y))
    return None if r is None else neg(r)


def bxor(x, y):
    if x in (0, 1): return neg(y) if x else y
    if y in (0, 1): return neg(x) if y else x
    if x == y: return 0
    if x == neg(y): return 1
    return None


def binop(op, a, b):
    na, nb = num(a), num(b)
    if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked') and nb is not None:
        A = as_bv(a)
        if A is None: return None
        w = len(A[1])
        if op.startswith('Shl'): return bv(([0] * nb + list(A[1]))[:w], A[2])
        fill = A[1][-1] if A[2].startswith('i') else 0
        return bv(list(A[1][nb:]) + [fill] * min(nb, w), A[2])
    A, B = as_bv(a), as_bv(b)
    if A is None and B is not None: A = as_bv(a, B[2])
    if B is None and A is not None: B = as_bv(b, A[2])
    if A is None or B is None: return None
    f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}.get(op)
    if f:
        r = [f(x, y) for x, y in zip(A[1], B[1])]
        return None if any(x is None for x in r) else bv(r, A[2])
    if op in ('Eq', 'Ne'):
        d = [bxor(x, y) for x, y in zip(A[1], B[1])]
        if 1 in d: return ('c', 'b', op == 'Ne')
        d = [x for x in d if x != 0]
        if not d: return ('c', 'b', op == 'Eq')
        if len(d) == 1 and d[0] is not None: return ('bit', neg(d[0]) if op == 'Eq' else d[0])
        return None
    if op in ('Lt', 'Le', 'Gt', 'Ge') and not A[2].startswith('i'):
        lo = lambda v: sum((1 if x == 1 else 0) << k for k, x in enumerate(v[1]))
        hi = lambda v: sum((0 if x == 0 else 1) << k for k, x in enumerate(v[1]))
        if op in ('Gt', 'Ge'): A, B, op = B, A, {'Gt': 'Lt', 'Ge': 'Le'}[op]
        if op == 'Lt':
            if hi(A) < lo(B): return TRUE
            if lo(A) >= hi(B): return FALSE
        else:
            if hi(A) <= lo(B): return TRUE
            if lo(A) > hi(B): return FALSE
        return None
    if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and na is not None and nb is not None:
        if op in ('Div', 'Rem') and nb == 0: return None
        n = {'Add': lambda: na + nb, 'Sub': lambda: na - nb, 'Mul': lambda: na * nb, 'Div': lambda: na // nb, 'Rem': lambda: na % nb}[op]()
        return ('c', 'i', str(n), A[2])
    return None


def replace_bit(v, name, k, val):
    if not isinstance(v, tuple): return v
    if len(v) == 3 and v[0] == name and v[1] == k and isinstance(v[2], bool): return (1 - val) if v[2] else val
    return tuple(replace_bit(x, name, k, val) for x in v)


class BitSim(Sim):
    def project(self, v, pr):
        if v[0] == 'seq' and pr[0] == 'i' and num(pr[1]) is not None and 0 <= num(pr[1]) < len(v[1]): return v[1][num(pr[1])]
        return super().project(v, pr)

    def rvalue(self, st, cx, r):
        k = r[0]
        if k == 'cast':
            v = strip(self.operand(st, cx, r[2]))
            if r[4] in W:
                if v[0] == 'c' and v[1] == 'i' and r[3] in W: v = const(int(v[2]), r[3])
                if v[0] == 'bv':
                    x = cast(v, r[4])
                    n = num(x)
                    return ('c', 'i', str(n), r[4]) if n is not None else x
        if k == 'bin':
            a, b = self.operand(st, cx, r[2]), self.operand(st, cx, r[3])
            op = r[1]
            base = op[:-12] if op.endswith('WithOverflow') else op
            x = binop(base, a, b)
            if x is not None:
                if op.endswith('WithOverflow'):
                    n = num(x)
                    o = FALSE
                    if n is not None:
                        t = x[3] if x[0] == 'c' else x[2]
                        lim = (0, (1 << W[t]) - 1) if t.startswith('u') else (-(1 << (W[t] - 1)), (1 << (W[t] - 1)) - 1)
                        o = ('c', 'b', not lim[0] <= n <= lim[1])
                    return ('agg', '()', '', (x, o), ('0', '1'))
                return x
        if k == 'un':
            a = strip(self.operand(st, cx, r[2]))
            if r[1] == 'Not' and a[0] == 'bv': return bv([neg(b) for b in a[1]], a[2])
            if r[1] == 'Not' and a[0] == 'bit': return ('bit', neg(a[1]))
        return super().rvalue(st, cx, r)

    def switch(self, st, cx, v, ty, targets, other):
        if v[0] == 'bv' and num(v) is not None: v = ('c', 'i', str(num(v)), v[2])
        if v[0] == 'bit':
            name, k, ng = v[1]
            for val in (0, 1):
                s = st.copy()
                s.store = {replace_bit(kk, name, k, val): replace_bit(x, name, k, val) for kk, x in s.store.items()}
                s.rs = replace_bit(s.rs, name, k, val)
                s.rs = s.rs[:-1] + (s.rs[-1] + ((name, k, val),),)
                truth = val ^ int(ng)
                done = False
                for t, b in targets:
                    if t == str(truth): yield s, b; done = True
                if not done: yield s, other
            return
        yield from super().switch(st, cx, v, ty, targets, other)


class BitRule(Rule):
    """rs = (bytes written so far, facts about input bits)"""
    keep = True
    init_rs = ((), ())

    def __init__(self, prog, val=None): self.prog, self.val = prog, val

    def inline(self, sim, fn): return fn.file.endswith('bytecode.rs')

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, p = callee.method, callee.rpath
        if 'panicking' in p: return []
        if m == 'push' and 'Vec' in p:
            st.rs = (st.rs[0] + (strip(args[1]),),) + st.rs[1:]
            return [(st, UNIT)]
        if m in ('leading_zeros', 'ilog2'):
            v = as_bv(args[0])
            if v is None: return None
            out = []
            w = len(v[1])
            bits = v[1]
            if all(b in (0, 1) for b in bits[1:]) or (1 in bits):
                hi = max((k for k, b in enumerate(bits) if b == 1), default=None)
                if hi is not None and all(b == 0 for b in bits[hi + 1:]):
                    return [(st, ('c', 'i', str(w - 1 - hi if m == 'leading_zeros' else hi), 'u32'))]
                if hi is None and all(b == 0 for b in bits): return [(st, ('c', 'i', str(w), 'u32'))] if m == 'leading_zeros' else []
            return None
        if m in ('max', 'min') and len(args) == 2:
            a, b = num(args[0]), num(args[1])
            if a is not None and b is not None: return [(st, args[0] if (a >= b) == (m == 'max') else args[1])]
        if m == 'contains' and 'Range' in p:
            r, x = deref_all(sim, st, args[0]), num(deref_all(sim, st, args[1]))
            ns = [num(y) for y in r[3][:2]] if r[0] == 'agg' else []
            if r[0] == 'call' and 'RangeInclusive' in r[1]: ns = [num(y) for y in r[3][:2]]
            if len(ns) == 2 and None not in ns and x is not None:
                incl = 'Inclusive' in r[1]
                return [(st, ('c', 'b', ns[0] <= x and (x <= ns[1] if incl else x < ns[1])))]
        if m == 'div_ceil':
            a, b = num(args[0]), num(args[1])
            if a is not None and b: return [(st, ('c', 'i', str(-(-a // b)), 'usize'))]
        # byte sequences
        if m in ('index', 'get') and callee.trait and 'Index' in callee.trait:
            base = deref_all(sim, st, args[0])
            r = args[1]
            if base[0] == 'seq' and r[0] == 'agg':
                k = r[1].split('::')[-1]
                ns = [num(x) for x in r[3]]
                if None in ns: return None
                a, b = {'RangeFrom': lambda: (ns[0], None), 'Range': lambda: (ns[0], ns[1]), 'RangeTo': lambda: (0, ns[0]), 'RangeFull': lambda: (0, None)}[k]()
                items = base[1][a:b]
                return [(st, ('ref', (('V', ('pure', ('seq', items))), ())))]
        if m in ('iter', 'into_iter'):
            base = deref_all(sim, st, args[0])
            if base[0] == 'seq': return [(st, ('list', base[1]))]
            if base[0] == 'list': return [(st, base)]
        if m in ('rev', 'copied', 'cloned', 'enumerate', 'by_ref') and args and strip(args[0])[0] == 'list':
            xs = strip(args[0])[1]
            if m == 'rev': xs = xs[::-1]
            if m == 'enumerate': xs = tuple(('agg', '()', '', (('c', 'i', str(i), 'usize'), x), ('0', '1')) for i, x in enumerate(xs))
            return [(st, ('list', xs))]
        if m == 'next':
            lv = sim.deref(args[0])
            it = sim.read(st, lv)
            if it[0] == 'list':
                if not it[1]: return [(st, NONE)]
                x = it[1][0]
                if x == ('tail',): st.rs = (st.rs[0] + (('overrun',),),) + st.rs[1:]; return [(st, NONE)]
                sim.write(st, lv, ('list', it[1][1:]))
                return [(st, some(x if x[0] == 'agg' else ('ref', (('V', ('pure', x)), ()))))]
        return None


def deref_all(sim, st, v, d=0):
    v = strip(v)
    if v[0] == 'ref' and d < 5: return deref_all(sim, st, sim.read(st, v[1]), d + 1)
    return v


def varint(c, enc, dec):
    """Every u64, at every width the encoder is asked for, comes back: exact bits, exact length."""
    p = c.p
    start = 2
    n = 0
    for h in range(-1, 64):
        bits = [('x', k, False) for k in range(h)] + ([1] if h >= 0 else []) + [0] * (63 - max(h, -1))
        val = bv(bits[:64], 'u64')
        least = max(1, (h + 7) // 7)
        for width in [None] + list(range(least, 11)):
            rule = BitRule(p)
            sim = BitSim(p, rule, 20000)
            ob = NONE if width is None else some(('c', 'i', str(width), 'usize'))
            ex = sim.run(enc, (val, ('ref', (('V', ('arg', 'out')), ())), ob), St({}, {}, rule.init_rs))
            n += 1
            what = f'a number of {h + 1} bits' + (f' in {width} bytes' if width else '')
            if len(ex) != 1: c.violation('varint:encode', f'{enc.path}: encoding {what} has {len(ex)} outcomes instead of one', enc.loc()); continue
            out = ex[0][0].rs[0]
            if width and len(out) != width: c.violation('varint:width', f'{enc.path}: {what} takes {len(out)} bytes', enc.loc()); continue
            out = tuple(as_bv(x, 'u8') or x for x in out)
            data = ('seq', (('junk', 0), ('junk', 1)) + out + (('tail',),))
            rule = BitRule(p)
            sim = BitSim(p, rule, 20000)
            ex = sim.run(dec, (('ref', (('V', ('pure', data)), ())), ('c', 'i', str(start), 'usize')), St({}, {}, rule.init_rs))
            if len(ex) != 1: c.violation('varint:decode', f'{dec.path}: decoding {what} has {len(ex)} outcomes instead of one', dec.loc()); continue
            st, ret = ex[0]
            if ('overrun',) in st.rs[0]: c.violation('varint:overrun', f'{dec.path}: decoding {what} reads past the end of the number', dec.loc()); continue
            got, aft = ret[3]
            g = as_bv(got, 'u64')
            if g is None or g[1] != val[1]: c.violation('varint:value', f'{what} written by {enc.path} is not read back by {dec.path}', dec.loc())
            if num(aft) != start + len(out): c.violation('varint:length', f'{dec.path}: after {what} the next operand is looked for at the wrong place', dec.loc())
    c.count('varint shapes', n)


def through_u64(c, T, ty):
    """Types written as one u64: writer bits, then reader bits, give back the value (every path)."""
    p = c.p
    w, r = T.writers.get(ty), T.readers.get(ty)
    if w is None or r is None: return
    for sign in (0, 1): through(c, p, w, r, ty, replace_bit(sym('x', ty), 'x', W[ty] - 1, sign))


def through(c, p, w, r, ty, val):
    class WRule(BitRule):
        def on_call(self, sim, st, cx, callee, args, site):
            if callee and callee.method == 'append' and callee.trait and callee.trait.endswith('BinaryWrite'):
                st.rs = (st.rs[0] + (deref_all(sim, st, args[0]),),) + st.rs[1:]
                return [(st, UNIT)]
            return super().on_call(sim, st, cx, callee, args, site)
    rule = WRule(p)
    sim = BitSim(p, rule, 5000)
    lv = (('V', ('arg', 'val')), ())
    R = lambda n: ('ref', (('V', ('arg', n)), ()))
    paths = 0
    for st, _ in sim.run(w, (R('val'), R('code'), R('data'), R('reloc')), St({lv: val}, {}, rule.init_rs)):
        out, facts = st.rs[0], st.rs[-1]
        mine = val
        for n_, k, b in facts: mine = replace_bit(mine, n_, k, b)
        if len(out) != 1: c.violation(f'codec:{ty}', f'{ty} is not written as exactly one number', w.loc()); continue
        class RRule(BitRule):
            def on_call(self, sim, st, cx, callee, args, site):
                if callee and callee.method == 'read' and callee.trait and callee.trait.endswith('BinaryRead'):
                    return [(st, ('agg', '()', '', (out[0], ('after', 0)), ('0', '1')))]
                return super().on_call(sim, st, cx, callee, args, site)
        rr = RRule(p)
        s2 = BitSim(p, rr, 5000)
        ex = s2.run(r, (R('code'), R('data'), ('start',)), St({}, {}, rr.init_rs))
        for st2, ret in ex:
            paths += 1
            m2 = mine
            for n_, k, b in st2.rs[-1]: m2 = replace_bit(m2, n_, k, b)
            g = as_bv(ret[3][0], ty)
            if g is None or g[1] != m2[1]: c.violation(f'codec:{ty}', f'some {ty} does not come back as it was written', r.loc())
            if ret[3][1] != ('after', 0): c.violation(f'codec-end:{ty}', f'{ty}: the reader does not stop after the number', r.loc())
        if not ex: c.violation(f'codec:{ty}', f'some {ty} cannot be read back', r.loc())
    c.count('bit-exact codec paths', paths)

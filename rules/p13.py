"""P13: every number a script can observe is finite."""
import math, struct
from h import *
from base import Missing
import mir

NUM = 'CheckedFloat'
NEW = 'checked_float::CheckedFloat::new'
INTS = {f'{s}{b}': (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s == 'i' else (0, (1 << b) - 1) for s in 'iu' for b in (8, 16, 32, 64, 128)}
INTS.update(usize=INTS['u64'], isize=INTS['i64'], char=(0, 0x10ffff), bool=(0, 1))
PASS = {'map_err', 'and_then', 'map', 'branch', 'from_residual', 'transpose', 'into', 'from', 'ok_or', 'ok_or_else', 'zip', 'clone', 'copied', 'cloned', 'as_ref', 'eq', 'ne', 'cmp', 'partial_cmp', 'fmt', 'filter', 'flatten', 'collect'}
CRASH = {'unwrap', 'expect', 'unwrap_unchecked'}
REPLACE = {'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'or', 'or_else', 'map_or', 'map_or_else', 'is_ok_and', 'into_iter', 'iter', 'err', 'unwrap_err', 'map_or_default'}


# ------------------------------------------------------------ the checker's decision table

class Unknown(Exception): pass


def bits_of(x): return struct.unpack('<Q', struct.pack('<d', x))[0]


def from_bits(b): return struct.unpack('<d', struct.pack('<Q', b & (1 << 64) - 1))[0]


class CheckRule(Plain):
    def __init__(self, p):
        Plain.__init__(self, p)
        self.init_rs = ()
    def on_branch(self, sim, st, cx, v, choice):
        st.rs = st.rs + ((v, choice),)


def consts(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'c' and v[1] in 'fi': out.add(v)
        for x in v: consts(x, out)


def ev(v, x, depth=0):
    """The term v at the argument value x."""
    v = strip(v)
    if depth > 30: raise Unknown(str(v)[:80])
    e = lambda y: ev(y, x, depth + 1)
    if v == ('V', ('arg', 'x')) or v == ('arg', 'x'): return x
    if v[0] == 'c':
        if v[1] == 'f': return {'inf': math.inf, '-inf': -math.inf, 'NaN': math.nan}.get(v[2]) if v[2] in ('inf', '-inf', 'NaN') else float(str(v[2]).rstrip('f64_').rstrip('_'))
        if v[1] == 'i': return int(v[2])
        if v[1] == 'b': return bool(v[2])
        if v[1] == 'def':
            n = v[2].rsplit('::', 1)[-1]
            k = {'INFINITY': math.inf, 'NEG_INFINITY': -math.inf, 'NAN': math.nan, 'MAX': 1.7976931348623157e308, 'MIN': -1.7976931348623157e308, 'MIN_POSITIVE': 2.2250738585072014e-308, 'EPSILON': 2.220446049250313e-16}.get(n)
            if k is not None: return k
    if v[0] == 'bin':
        a, b = e(v[2]), e(v[3])
        op = v[1]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        if op in ('BitAnd', 'BitOr', 'BitXor') and type(a) is type(b) and not isinstance(a, float): return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        if op in ('Shl', 'Shr') and not isinstance(a, float): return (a << b) & (1 << 64) - 1 if op == 'Shl' else a >> b
        if isinstance(a, float):
            if op in ('Add', 'Sub', 'Mul'): return {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op]
    if v[0] == 'un':
        a = e(v[2])
        if v[1] == 'Not': return (not a) if isinstance(a, bool) else ~a & (1 << 64) - 1
        if v[1] == 'Neg': return -a
    if v[0] == 'call':
        n = str(v[1]).rsplit('::', 1)[-1]
        args = [e(y) for y in v[3]]
        if args and isinstance(args[0], float):
            a = args[0]
            s = math.copysign(1, a)
            r = {'is_nan': math.isnan(a), 'is_infinite': math.isinf(a), 'is_finite': math.isfinite(a), 'is_sign_negative': s < 0, 'is_sign_positive': s > 0, 'to_bits': bits_of(a), 'abs': abs(a),
                 'is_normal': math.isfinite(a) and abs(a) >= 2.2250738585072014e-308, 'is_subnormal': a != 0 and abs(a) < 2.2250738585072014e-308, 'signum': s if not math.isnan(a) else a, 'is_zero': a == 0, 'neg': -a}.get(n)
            if r is not None: return r
            if n == 'classify': return 'Nan' if math.isnan(a) else 'Infinite' if math.isinf(a) else 'Zero' if a == 0 else 'Subnormal' if abs(a) < 2.2250738585072014e-308 else 'Normal'
        if n == 'from_bits' and isinstance(args[0], int): return from_bits(args[0])
    if v[0] == 'discr' or v[0] == 'disc': return e(v[1])
    raise Unknown(str(v)[:120])


def took(val, choice):
    if isinstance(choice, tuple):
        k = choice[0]
        s = {'True': '1', 'False': '0'}.get(str(val), str(val))
        return (s == choice[1]) if k == 'is' else s not in choice[1]
    return {'True': '1', 'False': '0'}.get(str(val), str(val)) == str(choice)


def checker(c, p, f):
    rule = CheckRule(p)
    sim = Sim(p, rule, 20000)
    ex = list(sim.run(f, (obj('x'),), St({}, {}, rule.init_rs)))
    ks = set()
    for st, ret in ex:
        for v, ch in st.rs: consts(v, ks)
        consts(ret, ks)
    xs = {bits_of(y) for y in (math.nan, math.inf, -math.inf, 0.0, -0.0, 1.5, -1.5, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308)}
    xs |= {0x7ff0000000000001, 0xfff8000000000000, 0xffffffffffffffff}
    for k in ks:
        try: b = int(k[2]) if k[1] == 'i' else bits_of(ev(k, 0.0))
        except (ValueError, TypeError, Unknown): continue
        xs |= {(b + d) & (1 << 64) - 1 for d in (-1, 0, 1)} | {b ^ 1 << 63}
    for b in sorted(xs):
        x = from_bits(b)
        c.count('classes of floats decided')
        try: hit = [ret for st, ret in ex if all(took(ev(v, x), ch) for v, ch in st.rs)]
        except Unknown as u:
            c.violation(f'checker-shape:{f.path}', f'cannot tell what {f.path} accepts: {u}', f.loc()); return
        for ret in hit:
            ok = ret[0] == 'agg' and ret[2] == 'Ok'
            cls = 'not-a-number' if math.isnan(x) else 'infinity' if math.isinf(x) else 'a finite number'
            if ok != math.isfinite(x): c.violation(f'checker:{cls}', f'the number checker {"accepts" if ok else "rejects"} {cls} (like {x!r})', f.loc())
            elif ok:
                y = ev(ret[3][0], x)
                if y != x or (y == 0 and math.copysign(1, y) < 0): c.violation('checker:value', f'the number checker turns {x!r} into {y!r}', f.loc())
        if len(hit) != 1: c.violation('checker:paths', f'{f.path} has {len(hit)} outcomes for {x!r}', f.loc())


# ------------------------------------------------------------ values that cannot be rejected

TOP = (-math.inf, math.inf)


def defs(f, l):
    for bi in sorted(f.reachable):
        b = f.blocks[bi]
        if b.cleanup: continue
        for s in b.stmts:
            if s[0] == '=' and s[1] == [l]: yield 'st', bi, s[2]
            elif s[0] == '=' and s[1][0] == l: yield 'part', bi, s
        t = b.term
        if t[0] == 'call' and t[3][0] == l: yield ('call' if t[3] == [l] else 'part'), bi, t


class Ranges:
    """Interval of every f64/f32/integer expression that is a closed formula over bounded inputs; None when it has no finite bound."""
    def __init__(self, p, c): self.p, self.c, self.memo = p, c, {}

    def const(self, j):
        if 'f' in j:
            try: x = float(str(j['f']))
            except ValueError: return None
            return (x, x) if math.isfinite(x) else None
        if 'i' in j:
            try: x = int(j['i']); return (x, x)
            except ValueError: return None
        return None

    def op(self, f, o, d=0):
        if d > 40: return None
        if o[0] == 'c': return self.const(o[1])
        return self.place(f, o[1], d)

    def place(self, f, pl, d):
        # a value defined in terms of itself has no bound
        k = (f.id, str(pl))
        if k in self.memo: return self.memo[k]
        self.memo[k] = self.bytype(f.locals[pl[0]]) if len(pl) == 1 else None
        r = self.memo[k] = self.place_(f, pl, d)
        return r

    def place_(self, f, pl, d):
        if len(pl) == 1:
            l = pl[0]
            if 1 <= l <= f.nargs: return self.param(f, l, d)
            ds = list(defs(f, l))
            if any(k == 'part' for k, _, _ in ds) or not ds: return self.bytype(f.locals[l])
            rs = [self.rv(f, x, f.locals[l], d + 1) if k == 'st' else self.call(f, bi, x, d + 1) for k, bi, x in ds]
            if any(r is None for r in rs): return self.bytype(f.locals[l])
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        last = pl[-1]
        if isinstance(last, list) and last[0] == 'f':
            ty = self.fieldty(f, pl)
            r = self.bytype(ty) if ty else None
            if r: return r
            # a component of the tuple some local function returns
            if len(pl) == 2 and not (1 <= pl[0] <= f.nargs):
                ds = list(defs(f, pl[0]))
                if len(ds) == 1 and ds[0][0] == 'call':
                    g = self.callee(f, ds[0][1])
                    if g is not None: return self.bounded(g)
        return None

    def fieldty(self, f, pl):
        last = pl[-1]
        if len(last) > 4: return last[4]
        a = self.p.adts.get(strip_ty(last[3] or '')) if len(last) > 3 else None
        if a:
            for v in a['vs']:
                for n, ty, _ in v[2]:
                    if n == last[2]: return ty
        return None

    def bytype(self, ty):
        r = INTS.get((ty or '').strip())
        return (float(r[0]), float(r[1])) if r else None

    def callee(self, f, bi):
        cl = f.callees.get(bi)
        return self.p.by_id.get(cl.local) if cl is not None and cl.local else None

    def param(self, f, l, d):
        ty = self.bytype(f.locals[l])
        if ty: return ty
        if f.kind == 'Closure' or f.trait or d > 12: return None
        rs = []
        for g in self.p.fns:
            if f.id not in self.p.callgraph.get(g.id, ()): continue
            n = 0
            for bi, cl in g.callees.items():
                if cl.local == f.id and not g.blocks[bi].cleanup:
                    n += 1
                    rs.append(self.op(g, g.blocks[bi].term[2][l - 1], d + 5))
            if not n: return None
        if f.j.get('pub') or not rs or any(r is None for r in rs): return None
        return (min(r[0] for r in rs), max(r[1] for r in rs))

    def rv(self, f, r, ty, d):
        k = r[0]
        if k == 'use': return self.op(f, r[1], d)
        if k == 'cast':
            a = self.op(f, r[2], d)
            if a is None and r[1] == 'IntToFloat': a = None
            b = self.bytype(ty)
            if b: return (max(a[0], b[0]), min(a[1], b[1])) if a and r[1] == 'IntToInt' and b[0] <= a[0] and a[1] <= b[1] else b
            return a
        if k == 'bin':
            a, b = self.op(f, r[2], d), self.op(f, r[3], d)
            if a is None or b is None: return self.bytype(ty)
            return self.arith(r[1], a, b) or self.bytype(ty)
        if k == 'un' and r[1] == 'Neg':
            a = self.op(f, r[2], d)
            return (-a[1], -a[0]) if a else None
        return self.bytype(ty)

    def arith(self, op, a, b):
        try:
            if op == 'Div' and b[0] <= 0 <= b[1]: return None
            fn = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y, 'Div': lambda x, y: x / y}.get(op)
            if fn is None: return None
            xs = [fn(float(x), float(y)) for x in a for y in b]
        except (OverflowError, ZeroDivisionError): return None
        return (min(xs), max(xs)) if all(map(math.isfinite, xs)) else None

    def call(self, f, bi, t, d):
        cl = f.callees.get(bi)
        if cl is None: return None
        n = cl.method
        a = [self.op(f, o, d) for o in t[2]]
        if n in ('from', 'into') and len(a) == 1 and (r := self.bytype(cl.args[0] if n == 'into' else (cl.args[-1] if cl.args else ''))): return a[0] or r
        if n in ('exp2', 'exp') and a and a[0] and a[0][1] < 700: return (0.0, (2.0 if n == 'exp2' else math.e) ** a[0][1] * 1.0001)
        if n in ('sin', 'cos', 'tanh', 'sinf', 'cosf') and a and a[0]: return (-1.0, 1.0)
        if n in ('round', 'floor', 'ceil', 'trunc', 'roundf') and a and a[0]: return (a[0][0] - 1, a[0][1] + 1)
        if n in ('abs', 'fabs', 'fabsf') and a and a[0]: return (0.0, max(abs(a[0][0]), abs(a[0][1])))
        if n == 'clamp' and len(a) == 3 and all(a): return (a[1][0], a[2][1])
        if n in ('min', 'max') and len(a) == 2 and all(a): return (min(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        if n in ('len', 'count'): return self.bytype('usize')
        # a number of a JSON document is finite by the document grammar
        if n in CRASH and t[2][0][0] in 'ym' and len(t[2][0][1]) == 1:
            for k, b2, x in defs(f, t[2][0][1][0]):
                c2 = f.callees.get(b2) if k == 'call' else None
                if c2 is not None and c2.rpath == 'serde_json::Number::as_f64': return (-1.7976931348623157e308, 1.7976931348623157e308)
        g = self.p.by_id.get(cl.local) if cl.local else None
        if g is not None:
            if len(g.locals) and '(' not in g.locals[0]:
                r = self.place(g, [0], d + 5)
                if r: return r
            return self.bounded(g)
        return self.bytype(f.locals[t[3][0]])

    def bounded(self, g):
        """Everything g computes comes from bounded integers and constants by operations that keep it finite, on every path."""
        if g.id in self.memo: return self.memo[g.id]
        self.memo[g.id] = None
        ok = closed(self.p, g)
        self.c.count('float functions shown closed')
        self.memo[g.id] = (-1e12, 1e12) if ok else None
        return self.memo[g.id]


class ClosedRule(Plain):
    """rs: (divisors seen, branch facts)."""
    def __init__(self, p):
        Plain.__init__(self, p)
        self.init_rs = ()
    def on_branch(self, sim, st, cx, v, choice):
        st.rs = st.rs + ((v, choice),)
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method == 'modulus' and len(args) == 2: return [(st, ('bin', 'Rem', args[0], args[1]))]


def closed(p, g):
    rule = ClosedRule(p)
    sim = Sim(p, rule, 60000)
    args = tuple(('V', ('arg', str(i))) for i in range(g.nargs))
    try: ex = list(sim.run(g, args, St({}, {}, ())))
    except Exception: return False
    for st, ret in ex:
        zero = set()
        for v, ch in st.rs:
            if v[0] == 'bin' and v[1] in ('Eq', 'Ne') and isflt0(v[3]):
                t = ch[1] if isinstance(ch, tuple) and ch[0] == 'is' else ch if not isinstance(ch, tuple) else ('0' if '1' in ch[1] else '1')
                if (v[1] == 'Eq') == (str(t) == '0'): zero.add(strip(v[2]))
        if not finite(ret, zero): return False
    return bool(ex)


def isflt0(v):
    v = strip(v)
    return v[0] == 'c' and v[1] == 'f' and float(str(v[2])) == 0


def finite(v, nonzero, d=0):
    v = strip(v)
    if d > 60: return False
    if v[0] == 'agg': return all(finite(x, nonzero, d + 1) for x in v[3])
    if v[0] == 'c': return v[1] in 'if' and (v[1] == 'i' or abs(float(str(v[2]))) < 1e3)
    if v[0] == 'bin' and v[1] in ('Add', 'Sub', 'Mul'): return finite(v[2], nonzero, d + 1) and finite(v[3], nonzero, d + 1)
    if v[0] == 'bin' and v[1] in ('Div', 'Rem'):
        b = strip(v[3])
        nz = b in nonzero or (b[0] == 'c' and b[1] in 'if' and float(str(b[2])) != 0)
        return nz and finite(v[2], nonzero, d + 1) and finite(v[3], nonzero, d + 1)
    if v[0] == 'call':
        n, a = str(v[1]).rsplit('::', 1)[-1], v[3]
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'modulus': 'Rem', 'rem_euclid': 'Rem'}.get(n)
        if op and len(a) == 2: return finite(('bin', op, a[0], a[1]), nonzero, d + 1)
        return n in ('abs', 'fabsf', 'min', 'max', 'clamp', 'roundf', 'floorf', 'ceilf') and all(finite(x, nonzero, d + 1) for x in a)
    if v[0] == 'cast': return v[2] in INTS or finite(v[1], nonzero, d + 1)
    return False


# ------------------------------------------------------------ what becomes of a rejected number

def numeric(ty): return NUM in ty


def err_arm(f, bi, tgt):
    """Every normal path from tgt to a return builds an error (or None), forwards one, or asks for it."""
    seen, todo = set(), [tgt]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        b = f.blocks[x]
        if b.cleanup: continue
        if any(s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('v') in ('Err', 'None', 'Break') for s in b.stmts): continue
        if b.term[0] == 'call':
            cl = f.callees.get(x)
            if cl is not None and cl.method in ('from_residual', 'map_err', 'from_output'): continue
            if b.term[4] is None: return False    # a panic
        if b.term[0] == 'return': return False
        todo.extend(f.succ(x))
    return True


def uses(f, l):
    """Does anything but a drop use local l?"""
    import json
    for bi in f.reachable:
        b = f.blocks[bi]
        if b.cleanup: continue
        def has(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('m', 'y') and isinstance(x[1], list) and x[1] and x[1][0] == l: return True
                if len(x) > 2 and x[0] == 'ref' and x[2] and x[2][0] == l: return True
                if len(x) > 1 and x[0] == 'discr' and x[1] and x[1][0] == l: return True
                return any(has(y) for y in x)
            return False
        for s in b.stmts:
            if s[0] == '=' and has(s[2]): return True
        t = b.term
        if t[0] == 'call' and any(has(o) for o in t[2]): return True
        if t[0] == 'switch' and has(t[1]): return True
    return l == 0


def consumption(c, p, ranges, cfg=''):
    for f in p.fns:
        if f.derived or f.promoted: continue
        root = p.by_id.get(f.root, f) if f.root else f
        parses = any(cl.method in ('parse', 'from_str_radix', 'from_str') for g in [root] + [x for x in p.fns if x.root == root.id] for cl in g.callees.values())
        name = f.path.replace('{', '').replace('}', '')
        for bi in sorted(f.reachable):
            b = f.blocks[bi]
            if b.cleanup: continue
            cl = f.callees.get(bi)
            if cl is not None:
                t = b.term
                made = cl.rpath.startswith('checked_float::CheckedFloat::') and f.locals[t[3][0]].startswith('core::result::Result<') and t[3] == [t[3][0]]
                if made:
                    c.count('checked constructions')
                    if not uses(f, t[3][0]): c.violation(f'dropped:{name}:{cl.method}', f'`{f.path}` ignores whether the result of `{cl.method}` was a number', f.loc(t[6]))
                arg = f.locals[t[2][0][1][0]] if t[2] and t[2][0][0] in 'ym' and len(t[2][0][1]) == 1 else ''
                arg = arg.lstrip('&')
                isres = re_head(arg, 'core::result::Result<')
                isopt = re_head(arg, 'core::option::Option<')
                if isres and numeric(mir.ty_args(arg)[0] if mir.ty_args(arg) else '') and cl.crate == 'core':
                    m = cl.method
                    if m in CRASH:
                        c.count('constructions taken as infallible')
                        src = construction(p, f, t[2][0])
                        r = None
                        if src is not None: r = ranges.op(src[0], src[1])
                        if r is None: c.violation(f'crash:{name}:{m}', f'`{f.path}` panics instead of raising a script error when the number is rejected', f.loc(t[6]))
                        else: c.sample(f'{f.loc(t[6])}: cannot be rejected, range [{r[0]:.6g}, {r[1]:.6g}]')
                    elif m == 'ok':
                        c.count('rejections read as "not a number"')
                        if not parses: c.violation(f'swallowed:{name}:ok', f'`{f.path}` forgets why a number was rejected', f.loc(t[6]))
                    elif m in REPLACE: c.violation(f'replaced:{name}:{m}', f'`{f.path}` carries on with something else when a number is rejected', f.loc(t[6]))
                    elif m in ('is_ok', 'is_err'):
                        c.violation(f'tested:{name}:{m}', f'`{f.path}` tests whether a number was rejected instead of raising the error', f.loc(t[6])) if not tested(f, bi, m) else c.count('rejections matched')
                    elif m in PASS: c.count('rejections passed on')
                    else: c.violation(f'other:{name}:{m}', f'`{f.path}` hands a possibly rejected number to `{m}`', f.loc(t[6]))
                elif isopt and numeric(mir.ty_args(arg)[0] if mir.ty_args(arg) else '') and cl.crate == 'core' and cl.method in REPLACE - {'or', 'or_else', 'map_or', 'map_or_else', 'into_iter', 'iter'}:
                    if fromok(f, t[2][0]): c.violation(f'replaced:{name}:{cl.method}', f'`{f.path}` carries on with something else when a number is rejected', f.loc(t[6]))
            # explicit matches
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'discr' and len(s[2][1]) == 1:
                    ty = f.locals[s[2][1][0]]
                    if re_head(ty, 'core::result::Result<') and numeric(mir.ty_args(ty)[0]) and b.term[0] == 'switch':
                        c.count('rejections matched')
                        arms = dict((str(x[0]), x[1]) for x in b.term[3])
                        tgt = arms.get('1', b.term[4])
                        if not err_arm(f, bi, tgt): c.violation(f'matched:{name}', f'`{f.path}` carries on when a number is rejected', f.loc(s[3]))


def re_head(ty, h): return ty.startswith(h)


def tested(f, bi, m):
    """is_ok/is_err followed by a branch whose rejected side ends in an error."""
    t = f.blocks[bi].term
    nb = f.blocks[t[4]]
    if nb.term[0] != 'switch': return False
    arms = dict((str(x[0]), x[1]) for x in nb.term[3])
    yes = [x for k, x in arms.items() if k == '1'] or [nb.term[4]]
    no = [x for k, x in arms.items() if k == '0'] or [nb.term[4]]
    return err_arm(f, bi, (no if m == 'is_ok' else yes)[0])


def construction(p, f, o, d=0):
    """The CheckedFloat::new behind an operand, through moves and error conversions: (function, its argument)."""
    if o[0] not in 'ym' or len(o[1]) != 1 or d > 8: return None
    ds = list(defs(f, o[1][0]))
    if len(ds) != 1: return None
    k, bi, x = ds[0]
    if k == 'st': return construction(p, f, x[1], d + 1) if x[0] == 'use' else None
    if k == 'call':
        cl = f.callees.get(bi)
        if cl is None: return None
        if cl.rpath == NEW: return f, x[2][0]
        if cl.method == 'map_err': return construction(p, f, x[2][0], d + 1)
    return None


def fromok(f, o):
    if o[0] not in 'ym' or len(o[1]) != 1: return False
    for k, bi, x in defs(f, o[1][0]):
        cl = f.callees.get(bi) if k == 'call' else None
        if cl is not None and cl.method == 'ok' and numeric(f.locals[x[2][0][1][0]]): return True
    return False

FINITE, SUM, RAW = 0, 1, 2
FORCE = {'clamp', 'min', 'max', 'minimum', 'maximum', 'fmin', 'fmax'}
TEST = {'is_finite', 'is_nan', 'is_infinite', 'is_normal', 'is_subnormal', 'classify'}


def origin(p, ranges, f, o, d=0, memo=None):
    """Whether a float may be something other than a finite number: never, only by overflow of a sum of two numbers, or in other ways."""
    if o[0] == 'c': return FINITE if ranges.op(f, o) else RAW
    if ranges.op(f, o): return FINITE
    pl = o[1]
    memo = {} if memo is None else memo
    for _ in range(9):
        # a reborrowed or copied reference
        ds = list(defs(f, pl[0])) if len(pl) > 1 and pl[0] > f.nargs else ()
        if len(ds) != 1 or ds[0][0] != 'st': break
        k, x = ds[0][2][0], ds[0][2]
        if k == 'ref' and pl[1] == '*': pl = x[2] + pl[2:]
        elif k == 'use' and x[1][0] in 'ym' and pl[1] == '*': pl = x[1][1] + pl[1:]
        else: break
        if ranges.op(f, ['y', pl]): return FINITE
    if len(pl) != 1 or 1 <= pl[0] <= f.nargs:
        # captured or destructured from a tuple built here
        if len(pl) == 2 and isinstance(pl[1], list) and pl[1][0] == 'f' and not (1 <= pl[0] <= f.nargs):
            ds = list(defs(f, pl[0]))
            if ds and all(k == 'st' and x[0] == 'agg' for k, _, x in ds): return max(origin(p, ranges, f, x[2][pl[1][1]], d + 1, memo) for _, _, x in ds)
        return max([outside(p, ranges, *q, d, memo) for q in supplied(p, f, pl)], default=RAW)
    if (f.id, pl[0]) in memo: return memo[f.id, pl[0]]
    memo[f.id, pl[0]] = FINITE
    r = memo[f.id, pl[0]] = origin_(p, ranges, f, pl, d, memo)
    return r


def outside(p, ranges, g, o, d, memo):
    if o is None: return RAW
    if o[0] in 'ym' and len(o[1]) == 1:
        ds = list(defs(g, o[1][0]))
        if len(ds) == 1 and ds[0][0] == 'st' and ds[0][2][0] == 'ref': return origin(p, ranges, g, ['y', ds[0][2][2]], d + 1, memo)
    return origin(p, ranges, g, o, d + 1, memo)


def supplied(p, f, pl):
    """What the callers of f (or the creators of the closure f) supply for one of its parameters (or captures): (function, operand)."""
    if not 1 <= pl[0] <= f.nargs: return
    if f.kind == 'Closure':
        fs = [x for x in pl[1:] if isinstance(x, list) and x[0] == 'f']
        if pl[0] != 1 or len(fs) != 1: return
        for g in p.fns:
            if f.id not in p.callgraph.get(g.id, ()): continue
            for b in g.blocks:
                for s in b.stmts:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('id') == f.id: yield g, s[2][2][fs[0][1]]
    elif not f.trait and all(x == '*' for x in pl[1:]):
        for g in p.fns:
            if f.id not in p.callgraph.get(g.id, ()): continue
            n = 0
            for bi, cl in g.callees.items():
                if cl.local == f.id and not g.blocks[bi].cleanup: n += 1; yield g, g.blocks[bi].term[2][pl[0] - 1]
            if not n: yield g, None


def origin_(p, ranges, f, pl, d, memo):
    out = FINITE
    for k, bi, x in defs(f, pl[0]):
        if k == 'part': return RAW
        if k == 'call':
            cl = f.callees.get(bi)
            if cl is None: return RAW
            if cl.rpath.startswith('checked_float::CheckedFloat::') and cl.method == 'get': continue
            if cl.method in FORCE | {'round', 'floor', 'ceil', 'trunc', 'abs', 'fabs', 'deref', 'clone', 'neg', 'copysign'} and x[2]:
                out = max([out] + [origin(p, ranges, f, a, d + 1, memo) for a in x[2]]); continue
            g = p.by_id.get(cl.local) if cl.local else None
            if g is None or g.trait or g.kind == 'Closure': return RAW
            out = max(out, origin(p, ranges, g, ['y', [0]], d + 1, memo)); continue
        if x[0] == 'cast' and x[4] != 'f64': return RAW
        if x[0] == 'use' or x[0] == 'cast': out = max(out, origin(p, ranges, f, x[1] if x[0] == 'use' else x[2], d + 1, memo))
        elif x[0] == 'un': out = max(out, origin(p, ranges, f, x[2], d + 1, memo))
        elif x[0] == 'bin':
            ab = [origin(p, ranges, f, q, d + 1, memo) for q in (x[2], x[3])]
            # adding less than half the gap below the next power of two to the largest number leaves it unchanged
            r = ranges.op(f, x[3])
            if x[1] in ('Add', 'Sub') and max(ab) == FINITE: out = max(out, FINITE if r and max(abs(r[0]), abs(r[1])) < 1e290 else SUM)
            elif x[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): pass
            else: return RAW
        else: return RAW
    return out


def forced(c, p, ranges):
    """No float that may not be a number is brought (back) into range before it is checked."""
    for f in p.fns:
        if f.promoted or f.derived or (f.trait or '').endswith('FloatChecker'): continue
        name = (f.path.split("::{closure")[0])
        for bi, b in enumerate(f.blocks):
            if b.cleanup or bi not in f.reachable: continue
            cl = f.callees.get(bi)
            t = b.term
            if cl is not None and cl.method in FORCE | TEST and t[2] and cl.crate in ('core', 'std', 'libm'):
                o = t[2][0]
                ty = f.locals[o[1][0]] if o[0] in 'ym' and len(o[1]) == 1 else ('f64' if o[0] == 'c' and 'f' in o[1] else '')
                if ty.lstrip('&') != 'f64': continue
                c.count('places where a float is limited or classified')
                k = origin(p, ranges, f, o)
                if cl.method in FORCE:
                    if k == RAW: c.violation(f'forced:{name}:{cl.method}', f'`{f.path}` limits a float that may not be a number (`{cl.method}`) before it is checked: another number takes its place', f.loc(t[6]))
                    elif k == SUM:
                        lim = [ranges.op(f, a) for a in t[2][1:]]
                        if any(r is None or max(abs(r[0]), abs(r[1])) > 1e15 for r in lim): c.violation(f'forced:{name}:{cl.method}', f'`{f.path}` limits a sum that may have overflowed (`{cl.method}`) before it is checked: another number takes its place', f.loc(t[6]))
                elif k != FINITE and not (f.blocks[t[4]].term[0] == 'switch' and any(err_arm(f, t[4], x) for x in [y[1] for y in f.blocks[t[4]].term[3]] + [f.blocks[t[4]].term[4]])):
                    c.violation(f'classified:{name}:{cl.method}', f'`{f.path}` looks at whether a float is a number (`{cl.method}`) and goes on without the checker', f.loc(t[6]))
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and s[2][4] == 'f64':
                    for x, y in ((s[2][2], s[2][3]), (s[2][3], s[2][2])):
                        if y[0] != 'c' or x[0] == 'c': continue
                        r = ranges.op(f, y)
                        if r and max(abs(r[0]), abs(r[1])) < 1e290: continue
                        c.count('places where a float is limited or classified')
                        if origin(p, ranges, f, x) != FINITE and not (t[0] == 'switch' and any(err_arm(f, bi, q) for q in [z[1] for z in t[3]] + [t[4]])):
                            c.violation(f'compared:{name}', f'`{f.path}` compares a float that may not be a number with the largest numbers and goes on without the checker', f.loc(s[3]))
            if cl is not None and cl.rpath == NEW: through_int(c, p, ranges, f, t[2][0], name, set())


def through_int(c, p, ranges, f, o, name, seen):
    """A number made from an integer that was itself made from a float."""
    if o[0] not in 'ym' or len(o[1]) != 1 or o[1][0] in seen: return
    seen.add(o[1][0])
    for k, bi, x in defs(f, o[1][0]):
        ops = []
        if k == 'call': ops = x[2]
        elif k == 'st':
            if x[0] == 'cast' and x[1] == 'FloatToInt' and x[3] == 'f64':
                c.count('places where a float is limited or classified')
                if origin(p, ranges, f, x[2]) == RAW: c.violation(f'saturated:{name}:{x[4]}', f'`{f.path}` makes a number of a float that may not be one by way of {x[4]} (where it saturates)', f.loc())
            ops = {'use': x[1:2], 'cast': x[2:3], 'bin': x[2:4], 'un': x[2:3]}.get(x[0], [])
        for q in ops: through_int(c, p, ranges, f, q, name, seen)


def check(c):
    p = c.p
    c.rule('each type a number has inside a value, a literal or a property is the checked float with a checker of this crate')
    checkers = set()
    for adt, a in p.adts.items():
        short = adt.rsplit('::', 1)[-1]
        for v in a['vs']:
            for n, ty, _ in v[2]:
                if v[0] == 'Number' and adt in ('runtime::Value', 'runtime::SimpleValue', 'bytecode::InitValue'):
                    c.count('number payloads')
                    if not ty.startswith('checked_float::CheckedFloat<f64'): c.violation(f'payload:{short}', f'{short}::Number holds {ty}, not a checked number', p.fns[0].file)
                if ty.startswith('checked_float::CheckedFloat<'): checkers.add(strip_ty(mir.ty_args(ty)[1])); c.count('checked fields')
    c.floor('number payloads', 3); c.floor('checked fields', 15)
    c.rule('decision table of the checker over all classes of floats (not-a-number with any payload, both infinities, both zeros, subnormal, normal, and the neighbours of each constant it compares with): rejects exactly what is not finite, keeps every other value, and stores negative zero as zero')
    fs = [f for f in p.fns if (f.trait or '').endswith('FloatChecker') and f.method == 'check']
    if len(checkers) != 1 or len(fs) != len(checkers): c.violation('checker:one', f'numbers are checked by {sorted(checkers)} with {len(fs)} implementations', fs[0].loc() if fs else '')
    for f in fs: checker(c, p, f)
    c.floor('classes of floats decided', 12)
    c.rule('each checked construction and operation: its rejection is propagated (?, map_err, and_then, a match whose rejected arm ends in an error), read as "not a number" only while parsing text, or it is unwrapped where interval analysis shows that the value is finite')
    consumption(c, p, Ranges(p, c))
    c.floor('checked constructions', 80); c.floor('rejections passed on', 120); c.floor('constructions taken as infallible', 12)
    c.rule('each f64 clamp/min/max, float-to-integer cast and is_finite-like test: what it is applied to is known to be finite (a checked number, a bounded formula), or is the sum of two checked numbers limited by small bounds (only an overflow could make it infinite, and the ranges of the properties concerned exclude it), or the test ends in an error')
    forced(c, p, Ranges(p, c))
    c.floor('places where a float is limited or classified', 12)
    c.rule('no code outside derived implementations deserialises a number')
    for f in p.fns:
        if f.derived or f.promoted: continue
        for bi, cl in f.callees.items():
            if f.blocks[bi].cleanup: continue
            if cl.method in ('deserialize', 'from_value') and any(numeric(a) for a in cl.args) and cl.trait and 'Deserialize' in cl.trait:
                c.violation(f'deserialize:{f.path}', f'`{f.path}` builds a number without the check', f.loc(f.blocks[bi].term[6]))
    c.assume('the checked-float crate keeps its field private and checks in every operation (its only bypass is its derived Deserialize: previously serialised bytecode is trusted)')
    c.assume('serde_json numbers are finite')

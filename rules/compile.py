"""Compile-time templates: what the block compiler emits for one block kind.

The builder's entry method for an expression / statement is explored path by path for one variant of
the parsed block (its inputs symbolic); every instruction pushed, reserved position, patch, nested
compilation and token is recorded in order.  Loops over a block's own inputs are recorded as regions.
`effects` derives what each emitted instruction does to the operand stack from the interpreter itself.
"""
from h import *
from sim import *
from stepm import *
import models

AST = 'netsblox_ast::'
EXPR, STMT, AVAL = AST + 'Expr', AST + 'Stmt', AST + 'Value'


def builder_adt(p):
    """(builder ADT, {role: field}, internal instruction enum)"""
    for a, d in p.adts.items():
        if not a.startswith('bytecode::') or d['kind'] != 'struct': continue
        for n, t in p.fields(a):
            if strip_ty(t).endswith('Vec') and ty_args(t):
                e = strip_ty(ty_args(t)[0])
                if e in p.adts and p.adts[e]['kind'] == 'enum' and e != INS and any(strip_ty(ft) == INS for v in p.variants(e) for _, ft in p.fields(e, v)):
                    return a, n, e
    raise Missing('bytecode builder (a struct holding the list of instructions being built)')


def ptype(t):
    """Type behind references."""
    t = t.strip()
    while t.startswith('&'):
        t = t[1:].strip()
        if t.startswith("'"): t = t.split(' ', 1)[1].strip() if ' ' in t else t
        if t.startswith('mut '): t = t[4:].strip()
    return t


class Builder:
    """The block compiler, found by shape."""

    def __init__(self, p):
        self.p = p
        self.adt, self.insf, self.internal = builder_adt(p)
        self.valid = [v for v in p.variants(self.internal) if any(strip_ty(t) == INS for _, t in p.fields(self.internal, v))][0]
        self.holes = [n for n, t in p.fields(self.adt) if strip_ty(t).rsplit('::', 1)[-1] in ('Vec', 'VecDeque') and n != self.insf]
        self.entry = {}
        for ty in (EXPR, STMT, AVAL):
            c = []
            for f in p.fns:
                if f.kind == 'Closure' or f.promoted or f.nargs < 2 or not f.file.endswith('bytecode.rs'): continue
                ts = [strip_ty(ptype(f.locals[i + 1])) for i in range(f.nargs)]
                if self.adt in ts and ty in ts and 'Result' in f.locals[0].split('<')[0] and strip_ty(ty_args(f.locals[0])[0]) in ('()', ''):
                    c.append((len(f.blocks), f.id, f, ts.index(ty)))
            if not c: raise Missing(f'compiler of {ty}')
            c.sort()
            self.entry[ty] = (c[-1][2], c[-1][3])
        self.byid = {f.id: (ty, i) for ty, (f, i) in self.entry.items()}


def astpath(sim, st, v, d=0):
    """Field path of a value inside the block being compiled, or None."""
    v = strip(v)
    if d > 24: return None
    k = v[0]
    if k == 'ast': return v[1]
    if k in ('deref', 'box', 'as'): return astpath(sim, st, v[1], d + 1)
    if k == 'elem':
        b = astpath(sim, st, v[1], d + 1)
        return None if b is None else b + '[]'
    if k == 'idx': return None
    if k in ('iter',):
        return astpath(sim, st, v[1], d + 1)
    if k == 'cast': return astpath(sim, st, v[1], d + 1)
    if k == 'ref': return lvpath(sim, st, v[1], d + 1)
    if k == 'init': return lvpath(sim, st, v[1], d + 1, False)
    if k == 'p':
        b = astpath(sim, st, v[1], d + 1)
        return None if b is None else b + projpath((v[2],))
    if k == 'pure': return astpath(sim, st, v[1], d + 1)
    return None


def projpath(prs):
    s = ''
    for pr in prs:
        if pr[0] == 'f': s += '.' + str(pr[1])
        elif pr[0] == 'v': s += '.' + str(pr[1])
        elif pr[0] == 'i': s += '[' + (pr[1][2] if pr[1][0] == 'c' else '?') + ']'
        else: s += '.?'
    return s


def lvpath(sim, st, lv, d, follow=True):
    base, prs = lv
    if follow and st is not None:
        cur = sim.read(st, lv)
        if cur[0] != 'init' and cur[0] != 'top':
            r = astpath(sim, st, cur, d + 1)
            if r is not None: return r
    if base[0] == 'V':
        b = astpath(sim, st, base[1], d + 1)
        if b is not None: return b + projpath(prs)
    return None


class CompRule(Rule):
    keep = True
    init_rs = ()

    def __init__(self, b, root):
        self.b, self.p, self.prog = b, b.p, b.p
        self.root = root
        self.strange = []

    def inline(self, sim, fn):
        return fn.file.endswith('bytecode.rs') and fn.id not in self.b.byid or fn.file.endswith('runtime.rs') and fn.method.startswith('from') or fn.trait == 'std::convert::From'

    def emit(self, st, ev):
        st.rs = st.rs + (ev,)
        if len(st.rs) > 600: raise Budget('a path of the block compiler that never ends')

    # ---- the instruction list and the reserved positions
    def field_of(self, sim, st, v):
        v = strip(v)
        for _ in range(4):
            if v[0] != 'ref': return None
            base, prs = v[1]
            if base == obj('builder') and len(prs) == 1 and prs[0][0] == 'f': return prs[0][1]
            if base[0] == 'V' and base[1][0] in ('deref', 'as'):
                x = base[1][1]
                if x[0] == 'init' and x[1][0] == obj('builder') and len(x[1][1]) == 1: return x[1][1][0][1]
                if x[0] == 'ref': v = x; continue
            cur = sim.read(st, v[1])
            if cur[0] == 'ref': v = cur; continue
            return None
        return None

    def isbuilder(self, sim, st, a):
        a = strip(a)
        if a[0] != 'ref': return False
        if a[1] == (obj('builder'), ()): return True
        v = sim.read(st, a[1])
        return v[0] == 'agg' and v[1] == self.b.adt or v == ('init', (obj('builder'), ()))

    def insval(self, sim, st, v):
        """The instruction an element of the list holds ('hole' if reserved)."""
        v = strip(v)
        if v[0] == 'agg' and v[1] == self.b.internal:
            if v[2] == self.b.valid: return strip(v[3][0])
            return ('hole', v[2])
        if v[0] == 'agg' and v[1] == INS: return v
        return ('unknown', v)

    def on_write(self, sim, st, cx, lv, val):
        b = lv[0]
        if b[0] == 'V' and b[1][0] == 'insat' and not lv[1]:
            self.emit(st, ('patch', b[1][1], self.close(sim, st, self.insval(sim, st, val))))

    def on_branch(self, sim, st, cx, v, choice):
        # what the path learns about the number of inputs
        if isinstance(choice, tuple):
            if choice[0] == 'is': choice = choice[1]
            elif choice[0] == 'not' and v[0] == 'alen': return
            elif choice[0] == 'not': choice = '0' if '1' in choice[1] else '1'
        if v[0] == 'alen' and str(choice).isdigit(): self.emit(st, ('len', v[1], int(choice), True))
        elif v[0] == 'bin' and v[1] in ('Eq', 'Ne') and v[2][0] == 'alen' and v[3][0] == 'c': self.emit(st, ('len', v[2][1], int(v[3][2]), (choice in ('1', True)) == (v[1] == 'Eq')))

    def close(self, sim, st, v, d=0):
        """v with local references replaced: paths of the block become ('ast', path)."""
        v = strip(v)
        if d > 10: return TOP
        if v[0] in ('c', 'pos', 'alen', 'fnval', 'joined', 'hole', 'unknown'): return v
        a = astpath(sim, st, v)
        if a is not None: return ('ast', a)
        if v[0] == 'agg': return v[:3] + (tuple(self.close(sim, st, x, d + 1) for x in v[3]), v[4])
        if v[0] == 'ref':
            cur = sim.read(st, v[1])
            if cur[0] in ('agg', 'c', 'joined', 'ref', 'clone'): return self.close(sim, st, cur, d + 1)
            if v[1][0][0] == 'V' and not v[1][1] and v[1][0][1][0] in ('deref', 'pure', 'as'): return self.close(sim, st, v[1][0][1][1], d + 1)
            return v
        if v[0] in ('deref', 'as', 'conv', 'box'): return self.close(sim, st, v[1], d + 1)
        if v[0] == 'cast' : return ('cast', self.close(sim, st, v[1], d + 1)) + v[2:]
        if v[0] == 'bin': return v[:2] + tuple(self.close(sim, st, x, d + 1) for x in v[2:])
        if v[0] == 'init' and v[1][0][0] == 'V' and v[1][0][1][0] in ('deref', 'pure') and not v[1][1]: return self.close(sim, st, v[1][0][1][1], d + 1)
        return v

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m = callee.method
        # nested compilation
        if callee.local in self.b.byid:
            ty, i = self.b.byid[callee.local]
            path = astpath(sim, st, args[i])
            ent = [self.close(sim, st, a) for j, a in enumerate(args) if j != i and self.field_of(sim, st, a) is None and not self.isbuilder(sim, st, a)]
            out = []
            self.emit(st, ({EXPR: 'expr', STMT: 'stmt', AVAL: 'value'}[ty], path if path is not None else '?', tuple(ent)))
            bad = st.copy()
            self.emit(bad, ('failed', path))
            return [(st, ok(UNIT)), (bad, err(('childerr', path or '?')))]
        if args:
            fld = self.field_of(sim, st, args[0])
            if fld is not None:
                if fld == self.b.insf:
                    if m == 'push':
                        self.emit(st, ('ins', self.close(sim, st, self.insval(sim, st, args[1]))))
                        return [(st, UNIT)]
                    if m in ('extend', 'extend_from_slice', 'append'):
                        r = self.extend(sim, st, args[1])
                        if r: return [(st, UNIT)]
                    if m == 'len':
                        n = len(st.rs)
                        return [(st, ('pos', n))]
                    if m in ('deref', 'deref_mut', 'as_mut_slice', 'as_slice', 'as_mut', 'as_ref'): return [(st, args[0] if args[0][0] == 'ref' else args[0])]
                    if m in ('index_mut', 'get_mut', 'index', 'get'):
                        i = args[1]
                        if strip(i)[0] == 'ref': i = sim.read(st, strip(i)[1])
                        r = ('ref', (('V', ('insat', strip(i))), ()))
                        return [(st, some(r) if m.startswith('get') else r)]
                    self.strange.append((cx.loc, m))
                    self.emit(st, ('strange', m, cx.loc))
                    return None
                if fld in self.b.holes:
                    if m in ('push', 'push_back', 'push_front', 'extend'):
                        v = strip(args[1])
                        self.emit(st, ('later', fld, m, self.close(sim, st, v)))
                        return [(st, UNIT)]
                if m in ('deref', 'deref_mut'): return None
        # token lists
        f = self.p.by_id.get(callee.local) if callee.local else None
        if f is not None and f.selfadt and f.file.endswith('util.rs'):
            rt = strip_ty(f.locals[0])
            if f.nargs == 0 and rt == strip_ty(f.selfadt): return [(st, ('join', site))]
            if f.nargs == 2 and args[0][0] == 'ref':
                j = sim.read(st, args[0][1])
                if j[0] == 'join':
                    self.emit(st, ('tok', j, self.close(sim, st, args[1])))
                    return [(st, UNIT)]
            if f.nargs == 1 and args[0][0] == 'join': return [(st, ('joined', args[0]))]
        if m == 'alloc' and len(args) == 2: return [(st, ('ref', (('V', ('pure', args[1])), ())))]
        # loops over the block's inputs
        if m in ('len',) and args:
            a = astpath(sim, st, args[0])
            if a is not None: return [(st, ('alen', a))]
        if m == 'is_empty' and args:
            a = astpath(sim, st, args[0])
            if a is not None:
                v = ('bin', 'Eq', ('alen', a), ('c', 'i', '0', 'usize'))
                out = []
                for val in (True, False):
                    s = st.copy()
                    if sim.assume(s, v, val): self.emit(s, ('len', a, 0, val)); out.append((s, ('c', 'b', val)))
                return out
        if m in ('as_slice', 'as_deref', 'as_mut_slice') and args and callee.rpath.startswith(('std::vec', 'alloc::vec')): return [(st, args[0])]
        if m in ('index', 'get') and len(args) == 2:
            a = astpath(sim, st, args[0])
            i = strip(args[1])
            if a is not None and i[0] == 'idxof' and i[1] == a:
                r = ('ast', a + '[]')
                return [(st, ('ref', (('V', ('pure', r)), ())))]
            if a is not None and i[0] == 'c' and m == 'index':
                return [(st, ('ref', (('V', ('pure', ('ast', f'{a}[{i[2]}]'))), ())))]
        if callee.trait and callee.trait.endswith('iter::Iterator') and args:
            if m in ('rev', 'skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map', 'flat_map', 'peekable', 'chain', 'zip') and m != 'peekable':
                x = args[0]
                if self.asrc(sim, st, x) is not None: return [(st, ('iter', ('adapt', m, x)))]
            if m in ('next', 'next_back'):
                lv = sim.deref(args[0])
                r = self.step(sim, st, lv, sim.read(st, lv), site, m)
                if r is not None: return r
            if m in ('for_each', 'try_for_each', 'try_fold', 'fold', 'collect', 'all', 'any', 'count', 'sum', 'map') and m != 'map':
                r = self.consume(sim, st, cx, m, args, site)
                if r is not None: return r
        return None

    def asrc(self, sim, st, it):
        """What an iterator runs over: ('list', path), ('enum', path), ('range', path), ('arr', lv, i) or None."""
        it = strip(it)
        for _ in range(3):
            if it[0] == 'ref':
                cur = sim.read(st, it[1])
                if cur[0] in ('iter', 'itermap'): it = cur
                else: break
            else: break
        if it[0] != 'iter': return None
        x = it[1]
        if x[0] == 'iter': return self.asrc(sim, st, x)
        if x[0] == 'done': return x
        if x[0] == 'arrit': return x
        if x[0] == 'adapt': return ('adapt', x)
        if x[0] == 'enum':
            r = self.asrc(sim, st, x[1] if x[1][0] == 'iter' else ('iter', x[1]))
            return ('enum', r[1]) if r and r[0] == 'list' else None
        if x[0] == 'agg' and x[1].endswith('ops::Range'):
            a, b = x[3]
            if a[0] == 'c' and a[2] == '0' and b[0] == 'alen': return ('range', b[1])
            return None
        if x[0] == 'agg' and x[1] == '[]': return ('arr', x, 0)
        if x[0] == 'ref':
            cur = sim.read(st, x[1])
            if cur[0] == 'agg' and cur[1] == '[]': return ('arr', x, 0)
            if cur[0] == 'ref':
                c2 = sim.read(st, cur[1])
                if c2[0] == 'agg' and c2[1] == '[]': return ('arr', cur, 0)
        if x[0] in ('ref', 'init', 'p', 'ast', 'deref', 'clone'):
            if x[0] == 'ref' and x[1][0][0] == 'V' and x[1][0][1][0] == 'deref' and not x[1][1]:
                inner = x[1][0][1][1]
                if inner[0] == 'agg' and inner[1] == '[]': return ('arr', inner, 0)
            a = astpath(sim, st, x)
            if a is not None: return ('list', a)
        return None

    def step(self, sim, st, lv, it, site, m='next'):
        src = self.asrc(sim, st, it)
        if src is None: return None
        if src[0] == 'done':
            self.emit(st, ('end', src[1]))
            sim.write(st, lv, ('iter', ('over', src[1])))
            return [(st, NONE)]
        if src[0] in ('arr', 'arrit'):
            ref, i = src[1], src[2]
            arr = ref if ref[0] == 'agg' else sim.read(st, ref[1])
            if i >= len(arr[3]): return [(st, NONE)]
            sim.write(st, lv, ('iter', ('arrit', ref, i + 1)))
            e = arr[3][i]
            if ref[0] == 'ref': e = ('ref', (ref[1][0], ref[1][1] + (('i', ('c', 'i', str(i))),)))
            return [(st, some(e))]
        if src[0] == 'adapt':
            self.emit(st, ('strange', 'iterator ' + src[1][1], None))
            base = self.asrc(sim, st, src[1][2])
            while base is not None and base[0] == 'adapt': base = self.asrc(sim, st, base[1][2])
            if base is None or base[0] not in ('list', 'enum', 'range'): return None
            src = (base[0], base[1] + '~' + src[1][1])
        path = src[1]
        e = ('ref', (('V', ('pure', ('ast', path + '[]'))), ()))
        # the element's shape was last decided in an earlier loop: it is a generic element
        self.emit(st, ('for', path))
        sim.write(st, lv, ('iter', ('done', path)))
        if src[0] == 'enum': e = ('agg', '()', '', (('idxof', path), e), ('0', '1'))
        if src[0] == 'range': e = ('idxof', path)
        return [(st, some(e))]

    def consume(self, sim, st, cx, m, args, site):
        it = args[0]
        maps = []
        itv = strip(it)
        if itv[0] == 'ref': itv = sim.read(st, itv[1])
        while itv[0] == 'itermap':
            maps.append((itv[2], itv[3])); itv = itv[1]
        src = self.asrc(sim, st, itv)
        if src is None or any(k not in ('map', 'inspect') for k, _ in maps): return None
        if src[0] == 'arr':
            arr = src[1] if src[1][0] == 'agg' else sim.read(st, src[1][1])
            elems = [e if src[1][0] == 'agg' else ('ref', (src[1][1][0], src[1][1][1] + (('i', ('c', 'i', str(i))),))) for i, e in enumerate(arr[3])]
        elif src[0] == 'list': elems = [('ref', (('V', ('pure', ('ast', src[1] + '[]'))), ()))]
        elif src[0] == 'enum': elems = [('agg', '()', '', (('idxof', src[1]), ('ref', (('V', ('pure', ('ast', src[1] + '[]'))), ()))), ('0', '1'))]
        elif src[0] == 'range': elems = [('idxof', src[1])]
        else: return None
        region = src[0] != 'arr'
        if region: self.emit(st, ('for', src[1]))
        front, out = [(st, UNIT)], []
        clo = args[1] if m in ('for_each', 'try_for_each', 'all', 'any') else args[2] if m in ('try_fold', 'fold') else None
        bad = []
        for e in elems:
            nf = []
            for s, acc in front:
                vals = [(s, e)]
                for k, f in reversed(maps):
                    vals = [x for s1, v in vals for x in sim.invoke(s1, cx, f, (v,), (site, 'm'))]
                for s1, v in vals:
                    a = (v,) if m not in ('try_fold', 'fold') else (acc, v)
                    res = sim.invoke(s1, cx, clo, a, site) if clo is not None else [(s1, v)]
                    for s2, r in res:
                        r0 = strip(r)
                        if r0[0] == 'agg' and r0[2] == 'Err': bad.append((s2, r))
                        elif r0[0] == 'agg' and r0[2] == 'Ok': nf.append((s2, r0[3][0]))
                        else: nf.append((s2, r))
            front = nf
        for s, acc in front:
            if region: self.emit(s, ('end', src[1]))
            if m == 'for_each': out.append((s, UNIT))
            elif m in ('try_for_each',): out.append((s, ok(UNIT)))
            elif m == 'try_fold': out.append((s, ok(acc)))
            elif m == 'fold': out.append((s, acc))
            else: out.append((s, ok(('call', 'iter::' + m, site))) if bad else (s, ('call', 'iter::' + m, site)))
        return out + bad

    def extend(self, sim, st, v):
        v = strip(v)
        if v[0] == 'ref': v = strip(sim.read(st, v[1]))
        if v[0] == 'iter': v = strip(v[1])
        if v[0] == 'ref': v = strip(sim.read(st, v[1]))
        if v[0] == 'agg' and v[1] == '[]':
            for x in v[3]: self.emit(st, ('ins', self.close(sim, st, self.insval(sim, st, x))))
            return True
        return False


class Tmpl:
    """One path of the compiler for one block kind."""
    def __init__(self, kind, variant, st, ret, sim):
        self.kind, self.variant, self.events, self.ret, self.facts = kind, variant, st.rs, ret, st.facts
        self.sim, self.st = sim, st
        r = strip(ret)
        self.ok = r[0] == 'agg' and r[2] == 'Ok'
        self.err = r[3][0] if r[0] == 'agg' and r[2] == 'Err' else None
        self.failed = any(e[0] == 'failed' for e in self.events)

    @property
    def shape(self):
        return describe(self.facts)


def describe(facts):
    out = []
    for k, f in facts.items():
        if f[0] != 'is': continue
        p = astpath(None, None, k) if k[0] != 'sw' else None
        if p: out.append(f'{p}={f[1]}')
    return ','.join(sorted(out))


def templates(b, ty, variant, max_states=100000):
    """All paths of the compiler of `ty` for the block kind `variant`."""
    f, i = b.entry[ty]
    rule = CompRule(b, ty)
    sim = Sim(b.p, rule, max_states)
    st = St({}, {}, ())
    K = {EXPR: AST + 'ExprKind', STMT: AST + 'StmtKind', AVAL: AVAL}[ty]
    kv = ('agg', K, variant, tuple(('ast', n) for n, _ in b.p.fields(K, variant)), tuple(n for n, _ in b.p.fields(K, variant)))
    if ty == AVAL: st.store[(obj('root'), ())] = kv
    else: st.store[(obj('root'), (('f', 'kind'),))] = kv
    args = []
    for j in range(f.nargs):
        t = strip_ty(ptype(f.locals[j + 1]))
        if j == i: args.append(refto('root'))
        elif t == b.adt: args.append(refto('builder'))
        else: args.append(('arg', f'a{j}'))
    return rule, sim, [Tmpl(ty, variant, s, r, sim) for s, r in sim.run(f, tuple(args), st)]


# ------------------------------------------------------------------ effects of emitted instructions
def lt(d): return tuple(sorted(d.items(), key=repr))


def nonneg(d): return all(c >= 0 for c in d.values())


class EffRule(StepRule):
    """One emitted instruction with its actual operands; token lists are symbolic sequences."""

    def __init__(self, prog, variant=None, **kw):
        super().__init__(prog, variant, **kw)
        self.need = []
        self.roles = {}          # operand depth (linear form) -> what it is used as

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and args:
            m = callee.method
            for i, a in enumerate(args): self.role(sim, st, callee, i, a)
            a0 = strip(args[0])
            t = a0
            if t[0] == 'ref': t = sim.read(st, t[1])
            if t[0] == 'init' and t[1][0][0] == 'V' and not t[1][1]: t = t[1][0][1]
            if t[0] == 'tokens' and callee.local and len(args) == 1:
                return [(st, ('split', t[1], ()))]
            if m in ('next', 'take', 'collect', 'map', 'by_ref', 'count', 'into_iter', 'last', 'skip'):
                lv, it = None, a0
                if it[0] == 'ref': lv, it = it[1], sim.read(st, it[1])
                if it[0] == 'split':
                    n, k = dict(it[1]), dict(it[2])
                    if m == 'next' and lv is not None:
                        sim.write(st, lv, ('split', it[1], lt(ladd(k, {'': 1}))))
                        return [(st, some(('tok', it[2])))]
                    if m == 'skip' and lv is None: return [(st, ('split', it[1], lt(ladd(k, lin(args[1])))))]
                    if m == 'take':
                        return [(st, ('stake', lv, it, lt(lin(args[1]))))]
                    if m in ('map', 'by_ref', 'into_iter'): return [(st, args[0])]
                    if m == 'collect': return [(st, ('tokv', lt(ladd(n, k, -1)), it[2]))]
                if it[0] == 'stake':
                    if m in ('map', 'into_iter', 'by_ref'): return [(st, it)]
                    if m == 'collect':
                        src = sim.read(st, it[1]) if it[1] is not None else it[2]
                        if src[0] == 'split':
                            if it[1] is not None: sim.write(st, it[1], ('split', src[1], lt(ladd(dict(src[2]), dict(it[3])))))
                            return [(st, ('tokv', it[3], src[2]))]
            if m == 'len':
                v = sim.read(st, a0[1]) if a0[0] == 'ref' else a0
                v = strip(v)
                if v[0] == 'deref': v = v[1]
                if v[0] == 'tokv': return [(st, unlin(dict(v[1])))]
            if m in ('deref', 'as_slice') and a0[0] == 'ref':
                v = strip(sim.read(st, a0[1]))
                if v[0] == 'tokv': return [(st, args[0])]
            if callee.trait and callee.trait.endswith('runtime::System') and args[-1][0] == 'c' and args[-1][1] == 'b' and m == 'send_message':
                # the host's contract: a reply key exactly when a reply was asked for
                v = ('call', callee.trait + '::' + m, site)
                k = some(('p', v, ('f', 'key'))) if args[-1][2] else NONE
                return [(st, ok(k)), (st.copy(), err(v))]
            lv = self.stack_lv(sim, st, args[0]) if m in ('index', 'index_mut', 'swap', 'last', 'last_mut', 'get', 'get_mut') else None
            if lv is not None:
                s = self.get(sim, st, lv)
                if s[1] == 'value':
                    for i in (args[1:] if m not in ('last', 'last_mut') else ()):
                        if i[0] == 'agg': continue
                        dist = ladd(self.length(s), lin(i), -1)
                        base = ladd(self.length(s), {('len0', 'value'): -1})
                        self.need.append(ladd(dist, base, -1))
        return super().on_call(sim, st, cx, callee, args, site)


    def role(self, sim, st, callee, i, a):
        a = strip(a)
        if a[0] == 'ref': a = strip(sim.read(st, a[1]))
        if a[0] == 'deref': a = strip(a[1])
        if a[0] == 'in' and a[1] == 'value': d = a[2]
        elif a[0] == 'elem' and a[1][0] == 'iter' and a[1][1][0] == 'seg' and a[1][1][2] == 'value' and callee.method == 'as_closure':
            d = lt(ladd(ladd(dict(a[1][1][3]), dict(a[1][1][1])), {'': 1}, -1))
        else: return
        r = ROLE.get(callee.method) if i == 0 else None
        rs = {r} if r else param_roles(self.prog, callee, i)
        self.roles.setdefault(d, set()).update(rs)


ROLE = {'as_list': 'list', 'as_number': 'number', 'as_bool': 'bool', 'as_text': 'text', 'as_entity': 'entity', 'as_closure': 'closure', 'get_type': 'type'}
_pr = {}


def param_roles(p, callee, i, d=0):
    """What a local helper uses its i-th parameter as."""
    f = p.by_id.get(callee.local) if callee.local else None
    if f is None or f.trait or d > 3 or i >= f.nargs: return set()
    if (f.id, i) in _pr: return _pr[f.id, i]
    _pr[f.id, i] = out = set()
    mine = {i + 1}
    def src(op): return op[1][0] if op[0] in ('y', 'm') and not [e for e in op[1][1:] if e != '*'] else None
    for _ in range(6):
        n = len(mine)
        for bi in f.reachable:
            blk = f.blocks[bi]
            if blk.cleanup: continue
            for s in blk.stmts:
                if s[0] != '=' or len(s[1]) > 1: continue
                r = s[2]
                x = src(r[1]) if r[0] == 'use' else r[2][0] if r[0] == 'ref' and not [e for e in r[2][1:] if e != '*'] else None
                if x in mine: mine.add(s[1][0])
            t = blk.term
            if t[0] == 'call' and bi in f.callees and f.callees[bi].method in ('clone', 'deref', 'as_ref', 'borrow') and t[2] and src(t[2][0]) in mine: mine.add(t[3][0])
        if len(mine) == n: break
    for bi in f.reachable:
        t = f.blocks[bi].term
        if f.blocks[bi].cleanup or t[0] != 'call' or bi not in f.callees: continue
        cl = f.callees[bi]
        for j, a in enumerate(t[2]):
            if src(a) in mine:
                if j == 0 and cl.method in ROLE: out.add(ROLE[cl.method])
                elif cl.local: out.update(param_roles(p, cl, j, d + 1) - {'list'})
    return out


class Eff:
    """net: lin; need: list of lin; kind: 'next' | ('jump', pos) | 'end'; hnd, warp: ints"""
    __slots__ = ('kind', 'net', 'hnd', 'warp', 'target', 'how')

    def __init__(self, kind, net, hnd, warp, how=''): self.kind, self.net, self.hnd, self.warp, self.how = kind, net, hnd, warp, how
    def __repr__(self): return f'{self.kind}{self.net}h{self.hnd}w{self.warp}{self.how}'


def stackdelta(v, name):
    """(pushed - popped, popped) of a stack value, or None."""
    if v[0] == 'init': return {}, {}
    if v[0] != 'stk' or v[4] is not None: return None
    pushed = {}
    for it in v[3]: pushed = ladd(pushed, dict(it[1]) if it[0] == 'seg' else {'': 1})
    return ladd(pushed, dict(v[2]), -1), dict(v[2])


class Effects:
    def __init__(self, p, c):
        self.p, self.c, self.cache, self.dcache, self.roles = p, c, {}, {}, {}
        self.fields = {n: t for n, t in p.fields(PROC)}
        self.bad = {}

    def counters(self, sim, st):
        out = {}
        for n, t in self.fields.items():
            if t in ('usize', 'u32', 'u64', 'u16'):
                v = selfread(sim, st, n)
                d = ladd(lin(v), {('init', (SELF, (('f', n),))): 1}, -1)
                if d and set(d) == {''}: out[n] = d['']
        return out

    def resume(self, d):
        """Net pushes when the pending operation `d` completes."""
        key = (d[2], tuple(x[2] if x[0] == 'agg' else None for x in d[3]))
        if key in self.dcache: return self.dcache[key]
        dops = {n: x for n, x in zip(d[4], d[3]) if x[0] == 'agg'}
        dops = {n: ('agg', x[1], x[2], tuple(('dfld', n, y) for y in x[4]), x[4]) for n, x in dops.items()}
        rule, sim, ex = run_variant(self.p, self.c, None, rule=EffRule(self.p, None, defer=d[2], dops=dops))
        nets = set()
        for st, args in rule.decodes:
            dv = stackdelta(selfread(sim, st, rule.stacks['value']), 'value')
            nets.add(lt(dv[0]) if dv else None)
        self.dcache[key] = nets
        return nets

    def of(self, ins):
        """(effects, needs) of an emitted instruction; None operands stay symbolic."""
        if ins in self.cache: return self.cache[ins]
        self.cache[ins] = r = self.compute(ins)
        return r

    def compute(self, ins):
        ops = dict(zip(ins[4], ins[3]))
        rule, sim, ex = run_variant(self.p, self.c, ins[2], rule=EffRule(self.p, ins[2], operands=ops))
        self.roles[ins] = rule.roles
        effs, needs, seen = [], list(rule.need), set()
        posf = [n for n, t in self.fields.items() if n == 'pos'] or [None]
        posf = self.posfield()
        for st, ret in ex:
            if ret[0] == 'agg' and ret[2] == 'Err': continue
            vs = selfread(sim, st, rule.stacks['value'])
            hs = selfread(sim, st, rule.stacks['handler'])
            cs = selfread(sim, st, rule.stacks['call'])
            pos, dfr = selfread(sim, st, posf), selfread(sim, st, rule.f_defer())
            h = stackdelta(hs, 'handler')
            cnt = self.counters(sim, st)
            cnt.pop(posf, None)
            dv = stackdelta(vs, 'value')
            called = cs[0] == 'stk' and bool(cs[3])
            returned = cs[0] == 'stk' and bool(cs[2]) and not cs[3]
            pend = dfr[0] == 'agg' and dfr[2] == 'Some'
            if returned or (dv is None and not called):
                e = ('end', None, 0, 0)
            elif dv is None: e = ('bad', None, 0, 0)
            else:
                net, popped = dv
                needs.append(popped)
                hd = h[0].get('', 0) if h is not None and set(h[0]) <= {''} else 99
                w = tuple(sorted(cnt.items()))
                if called: e = ('next', lt(ladd(net, {'': 1})), 0, ())
                elif pend:
                    for n in self.resume(strip(dfr[3][0])):
                        e = ('next', lt(ladd(net, dict(n))) if n is not None else None, hd, w)
                        if e not in seen: seen.add(e); effs.append(Eff(*e))
                    continue
                elif pos == AFT: e = ('next', lt(net), hd, w)
                elif pos[0] == 'pos' or pos in ops.values() or pos[0] in ('op', 'bin'): e = (('jump', pos), lt(net), hd, w)
                elif pos == ('init', (SELF, (('f', posf),))): e = ('end', None, 0, ())
                else: e = ('bad', None, 0, ())
            if e not in seen: seen.add(e); effs.append(Eff(*e))
        return effs, needs

    def posfield(self):
        if not hasattr(self, '_pf'):
            rule, sim, ex = run_variant(self.p, self.c, self.p.variants(INS)[0])
            c = set()
            for st, ret in ex:
                for n, t in self.fields.items():
                    if t == 'usize' and selfread(sim, st, n) == AFT: c.add(n)
            if len(c) != 1: raise Missing('code position field of Process')
            self._pf = c.pop()
        return self._pf


def canon(b, ty, variant, path):
    """Path without the box indirections the compiler's derefs leave in it; and the type it ends at."""
    K = {EXPR: AST + 'ExprKind', STMT: AST + 'StmtKind', AVAL: AVAL}[ty]
    toks = path.replace('[', '.[').split('.')
    toks = [t for t in toks if t]
    cur = dict(b.p.fields(K, variant)).get(toks[0])
    out = [toks[0]]
    var = None
    i = 1
    while i < len(toks) and cur is not None:
        t = toks[i]
        st = strip_ty(cur)
        if st.rsplit('::', 1)[-1] in ('Box', 'Unique', 'NonNull') and t in ('0', 'pointer'):
            if st.endswith('Box'): cur = ty_args(cur)[0]
            i += 1
            continue
        if st.rsplit('::', 1)[-1] == 'Box':
            cur = ty_args(cur)[0]
            continue
        if t.startswith('['):
            out.append(t)
            if st.endswith('Vec'): cur = ty_args(cur)[0]
            i += 1
            continue
        if st.endswith('Option') and t == 'Some':
            out.append(t)
            if i + 1 < len(toks) and toks[i + 1] == '0': i += 1
            cur = ty_args(cur)[0]
            i += 1
            continue
        if cur.startswith('('):
            parts = ty_args('X<' + cur[1:-1] + '>')
            out.append(t)
            cur = parts[int(t)] if t.isdigit() and int(t) < len(parts) else None
            i += 1
            continue
        a = b.p.adts.get(st)
        if a is None: break
        out.append(t)
        if a['kind'] == 'enum':
            if t in b.p.variants(st): var = (st, t); i += 1; cur = cur; 
            else: cur = None; i += 1; continue
            if i < len(toks):
                f = dict(b.p.fields(st, t)).get(toks[i])
                out.append(toks[i]); cur = f; i += 1
            continue
        cur = dict(b.p.fields(st, a['vs'][0][0] if a.get('vs') else '')).get(t) if False else dict(b.p.fields(st)).get(t)
        i += 1
    out += toks[i:]
    while cur is not None and strip_ty(cur).rsplit('::', 1)[-1] == 'Box': cur = ty_args(cur)[0]
    s = out[0]
    for t in out[1:]: s += t if t.startswith('[') else '.' + t
    return s, cur


def unique(ts, shapes=False):
    """Templates without those that differ only in what they record about locations (`shapes`: nor in
    what they know about the block)."""
    seen, out = set(), []
    for t in ts:
        k = (t.ok, t.events, t.err if not t.ok else None, t.shape if shapes else None)
        if k in seen: continue
        seen.add(k); out.append(t)
    return out


class Node:
    __slots__ = ('i', 'ev', 'ins')


def layout(t):
    """The instruction stream of one template after its patches: list of (event index, item) where an
    item is ('ins', agg) | ('child', kind, path) | ('for', path, [items]) | ('hole', later-field or None).
    Returns (items, problems)."""
    probs = []
    ev = t.events
    final = {}
    later = {}
    for i, e in enumerate(ev):
        if e[0] == 'patch':
            if e[1][0] == 'ast': continue
            k = resolve(ev, e[1])
            if k is None: probs.append(('patch', f'a reserved position is computed in a way that does not name an instruction ({e[1]})')); continue
            if k >= len(ev) or ev[k][0] != 'ins': probs.append(('patch', f'the position patched with {e[2][2] if e[2][0] == "agg" else e[2]} is not an instruction of this block')); continue
            if k in final: probs.append(('patch', 'a reserved position is filled twice'))
            final[k] = e[2]
        if e[0] == 'later':
            tup = e[3]
            if tup[0] == 'agg':
                ps = [x for x in tup[3] if x[0] == 'pos' or x[0] == 'bin']
                for x in ps:
                    k = resolve(ev, x)
                    if k is None or k >= len(ev) or ev[k][0] != 'ins' or ev[k][1][0] != 'hole': probs.append(('later', f'a position handed to {e[1]} is not a reserved one'))
                    else: later[k] = (e[1], tup)
    def build(i, end):
        items = []
        while i < end:
            e = ev[i]
            if e[0] == 'ins':
                v = final.get(i, e[1])
                if v[0] == 'hole':
                    items.append((i, ('hole', later.get(i))))
                    if i not in later: probs.append(('hole', 'a reserved position is never filled in'))
                elif v[0] == 'agg' and v[1] == INS:
                    if i in final and e[1][0] != 'hole': probs.append(('patch', f'the instruction {e[1][2]} already emitted is overwritten by {v[2]}'))
                    items.append((i, ('ins', v)))
                else: probs.append(('ins', f'an emitted instruction cannot be determined ({str(v)[:80]})'))
            elif e[0] in ('expr', 'stmt', 'value'): items.append((i, ('child', e[0], e[1])))
            elif e[0] == 'for':
                d, j = 1, i + 1
                while j < end and d:
                    if ev[j][0] == 'for': d += 1
                    elif ev[j][0] == 'end': d -= 1
                    j += 1
                if d: probs.append(('for', f'a loop over {e[1]} can be left early')); return items
                items.append((i, ('for', e[1], build(i + 1, j - 1))))
                i = j
                continue
            elif e[0] == 'strange': probs.append(('strange', f'unrecognised use of the instruction list or of an input ({e[1]})'))
            i += 1
        return items
    return build(0, len(ev)), probs


def resolve(ev, pos):
    """Event index a position value names."""
    if pos[0] == 'pos': return pos[1]
    if pos[0] == 'bin' and pos[1] in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked') and pos[3][0] == 'c':
        k = resolve(ev, pos[2])
        if k is None: return None
        n = int(pos[3][2])
        emitting = ('ins', 'expr', 'stmt', 'value', 'for', 'end')
        if pos[1].startswith('Add'):
            while n:
                while k < len(ev) and ev[k][0] not in emitting: k += 1
                if k >= len(ev) or ev[k][0] != 'ins': return None
                k += 1; n -= 1
            return k
        while n:
            k -= 1
            while k >= 0 and ev[k][0] not in emitting: k -= 1
            if k < 0 or ev[k][0] != 'ins': return None
            n -= 1
        return k
    return None


def flat(items):
    for i, it in items:
        yield i, it
        if it[0] == 'for': yield from flat(it[2])

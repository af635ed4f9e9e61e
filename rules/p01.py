"""P01: every encoded instruction decodes to the same instruction and operands.

The writer (`BinaryWrite::append`) and the reader (`BinaryRead::read`) of every type that has both are turned
into tables by following every path of their MIR: what bytes / nested operands are emitted in which order under
which constraints, and what is rebuilt from which position.  The reader table is then applied to each writer row.
"""
from sim import *
from mir import strip_ty
from base import Missing
from h import *
import models, bits

INS = 'bytecode::Instruction'
WR, RD = 'BinaryWrite', 'BinaryRead'


def tyname(s):
    """Self type of '<T as Trait>::m'."""
    if not s.startswith('<'): return None
    d = 0
    for i, ch in enumerate(s):
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        if d == 1 and s[i:i + 4] == ' as ': return norm_str(s[1:i])
    return None


def norm_str(t):
    t = t.strip()
    if t.startswith('&') and t.split()[-1].endswith('str'): return '&str'
    return strip_ty(t)


def is_trait(f, name): return f and f.split('::')[-1] == name


def is_encode(f):
    """A varint writer: (u64, &mut Vec<u8>, Option<usize>) -> ()."""
    i = f.inputs or []
    return f.kind != 'Closure' and not f.trait and not f.promoted and len(i) == 3 and i[0] == 'u64' and 'Vec<u8' in i[1] and 'Option<usize>' in i[2]


def is_decode(f):
    """A varint reader: (&[u8], usize) -> (u64, usize)."""
    i = f.inputs or []
    return f.kind != 'Closure' and not f.trait and not f.promoted and len(i) == 2 and i[0].endswith('[u8]') and i[1] == 'usize' and f.out == '(u64, usize)'


class Codec(Rule):
    keep = True
    init_rs = ((), ())        # constraints, events

    def __init__(self, prog, root): self.prog, self.root = prog, root

    def inline(self, sim, fn): return fn.file.endswith('bytecode.rs') and not fn.trait and not is_encode(fn) and not is_decode(fn) and not fn.derived

    def ev(self, st, e): st.rs = (st.rs[0], st.rs[1] + (e,))

    def on_branch(self, sim, st, cx, v, choice):
        if v[0] in ('ovf',): return
        st.rs = (st.rs[0] + ((v, choice),), st.rs[1])

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, p = callee.method, callee.rpath
        if p.startswith('core::panicking') or 'panic' in p: return []
        if is_trait(callee.trait, WR) and m == 'append':
            self.ev(st, ('w', tyname(p), deepread(sim, st, args[0])))
            return [(st, UNIT)]
        if is_trait(callee.trait, RD) and m == 'read':
            k = len([e for e in st.rs[1] if e[0] == 'rd'])
            self.ev(st, ('rd', tyname(p), args[2]))
            return [(st, ('agg', '()', '', (('got', k), ('after', k)), ('0', '1')))]
        f = self.prog.by_id.get(callee.local) if callee.local else None
        if f is not None and is_encode(f):
            self.ev(st, ('var', args[0], args[2]))
            return [(st, UNIT)]
        if f is not None and is_decode(f):
            k = len([e for e in st.rs[1] if e[0] == 'rd'])
            self.ev(st, ('rd', 'varint', args[1]))
            return [(st, ('agg', '()', '', (('got', k), ('after', k)), ('0', '1')))]
        if m == 'push' and 'Vec' in p:
            tgt = sim.deref(args[0])
            if tgt == obj_lv('code'): self.ev(st, ('b', args[1])); return [(st, UNIT)]
            if tgt == obj_lv('reloc'):
                v = strip(args[1])
                if v[0] == 'agg': self.ev(st, ('rel', v[2], v[3][0]))
                else: self.ev(st, ('rel', '?', v))
                return [(st, UNIT)]
            return None
        if m == 'extend_from_slice':
            v = deepread(sim, st, args[1])
            if sim.deref(args[0]) == obj_lv('code') and v[0] == 'agg':
                for x in v[3]: self.ev(st, ('b', x))
                return [(st, UNIT)]
            return None
        if m == 'len' and args:
            if sim.deref(args[0]) == obj_lv('code'): return [(st, ('at', len([e for e in st.rs[1] if e[0] in ('b', 'w', 'var')])))]
            return [(st, ('strlen', deepread(sim, st, args[0])))]
        if m == 'as_bytes': return [(st, ('bytes', deepread(sim, st, args[0])))]
        if m == 'add' and 'BinPool' in p: return [(st, ('pool', strip(args[1])))]
        if m in ('eq', 'ne') and callee.trait and callee.trait.endswith('PartialEq'):
            a, b = deepread(sim, st, args[0]), deepread(sim, st, args[1])
            if b[0] != 'c': a, b = b, a
            v = ('bin', 'Eq', a, b)
            return [(st, v if m == 'eq' else ('un', 'Not', v))]
        if m in ('swap_bytes', 'to_bits', 'from_bits', 'to_be', 'to_le', 'reverse_bits'): return [(st, ('fnx', m, args[0]))]
        if m in ('to_be_bytes', 'to_le_bytes', 'from_be_bytes', 'from_le_bytes'): return [(st, ('fnx', m, args[0]))]
        if m in ('from_u8',) and callee.trait and callee.trait.endswith('FromPrimitive'):
            return [(st, ('fromu8', tyname(p), args[0]))]
        if callee.trait in ('core::ops::Add', 'core::ops::Sub', 'core::ops::Mul') and not callee.local and len(args) == 2:
            return [(st, ('bin', {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[m], deepread(sim, st, args[0]), deepread(sim, st, args[1])))]
        if m in ('unwrap', 'expect') and args and args[0][0] == 'fromu8': return [(st, args[0])]
        if m == 'copy_from_slice':
            src = deepread(sim, st, args[1])
            st2 = st
            lv = sim.deref(args[0])
            n = 4
            sim.write(st2, lv, ('slice', src))
            return [(st2, UNIT)]
        if m in ('index', 'index_mut') and callee.trait and 'Index' in callee.trait:
            r = args[1]
            base = sim.deref(args[0])
            if r[0] == 'agg' and r[1].endswith('RangeFull'): return [(st, ('ref', base))]
            if r[0] == 'agg': return [(st, ('ref', (('V', ('sub', base, r)), ())))]
            return [(st, ('ref', (base[0], base[1] + (('i', r),))))]
        if m == 'from_utf8': return [(st, ok(('utf8', deref_sub(args[0]))))]
        return None


def deref_sub(v):
    v = strip(v)
    return v[1][0][1] if v[0] == 'ref' and v[1][0][0] == 'V' else v


def obj_lv(n): return (obj(n), ())


def choice_of(ch, boolean=False):
    """('is', x) or ('not', set) of a branch record."""
    if isinstance(ch, tuple): return ch
    return ('is', ch)


def cval(v):
    if v[0] == 'c' and v[1] == 'i': return int(v[2])
    if v[0] == 'c' and v[1] == 'b': return int(v[2])
    return None


def simp(v):
    """Normal form of a decoded expression."""
    if not isinstance(v, tuple) or not v: return v
    v = tuple(simp(x) if isinstance(x, tuple) else x for x in v)
    if v[0] == 'init' and v[1][0][0] == 'V' and not v[1][1] and v[1][0][1][0] in ('fld', 'sym', 'c'): return v[1][0][1]
    if v[0] == 'ref' and v[1][0][0] == 'V' and not v[1][1] and v[1][0][1][0] == 'c': return v[1][0][1]
    if v[0] == 'fnx':
        inv = {'swap_bytes': 'swap_bytes', 'from_bits': 'to_bits', 'to_bits': 'from_bits', 'to_be': 'to_be', 'to_le': 'to_le', 'reverse_bits': 'reverse_bits',
               'from_be_bytes': 'to_be_bytes', 'from_le_bytes': 'to_le_bytes'}
        if v[2][0] == 'fnx' and inv.get(v[1]) == v[2][1]: return v[2][2]
    if v[0] == 'cast' and v[1][0] == 'cast' and v[2] == v[1][3] and v[3] == v[1][2]:
        wide = {'u64': 64, 'usize': 64, 'u32': 32, 'u8': 8, 'u16': 16, 'i64': 64}
        if wide.get(v[2], 0) >= wide.get(v[3], 99): return v[1][1]
    if v[0] == 'cast' and v[1][0] == 'c' and v[1][1] in ('i', 'b'): return ('c', 'i', str(cval(v[1])), v[3])
    if v[0] == 'bin' and v[1] in ('Add', 'Sub') and v[3][0] == 'c':
        a, k = v[2], cval(v[3])
        if k is not None:
            k = k if v[1] == 'Add' else -k
            if a[0] == 'plus': a, k = a[1], k + a[2]
            if cval(a) is not None and k is not None: return ('c', 'i', str(cval(a) + k), a[3] if len(a) > 3 else '')
            return a if k == 0 else ('plus', a, k)
    if v[0] == 'fromu8' and v[2][0] == 'cast' and v[2][1][0] == 'discr': return v[2][1][1]
    if v[0] == 'fromu8' and v[2][0] == 'discr': return v[2][1]
    if v[0] == 'bin' and v[1] in ('Ne', 'Eq', 'Gt', 'Lt', 'Ge', 'Le') and v[2][0] == 'plus' and v[2][2] > 0 and cval(v[3]) is not None and cval(v[3]) < v[2][2]:
        return ('c', 'b', v[1] in ('Ne', 'Gt', 'Ge'))            # n + k of an unsigned n is above any smaller constant
    if v[0] == 'bin' and v[1] in ('Ne', 'Eq') and v[2][0] == 'c' and v[3][0] == 'c' and cval(v[2]) is not None and cval(v[3]) is not None:
        return ('c', 'b', (cval(v[2]) != cval(v[3])) == (v[1] == 'Ne'))
    return v


def subst(v, m):
    if not isinstance(v, tuple): return v
    if v in m: return m[v]
    return tuple(subst(x, m) for x in v)


class Tables:
    def __init__(self, c):
        self.c, self.p = c, c.p
        p = c.p
        self.writers = {tyname(f.path): f for f in p.fns if is_trait(f.trait, WR) and f.method == 'append' and not f.promoted}
        self.readers = {tyname(f.path): f for f in p.fns if is_trait(f.trait, RD) and f.method == 'read' and not f.promoted}
        self.w, self.r = {}, {}

    def enum(self, ty):
        a = self.p.adts.get(ty)
        return a and a['kind'] == 'enum'

    def fieldless(self, ty): return self.enum(ty) and all(not self.p.fields(ty, v) for v in self.p.variants(ty))

    def writer(self, ty):
        """[(value written, constraints, events)] over every path of the writer."""
        if ty in self.w: return self.w[ty]
        f = self.writers.get(ty)
        if f is None: self.c.violation(f'no-writer:{ty}', f'{ty} is written but has no BinaryWrite implementation'); self.w[ty] = []; return []
        rows = []
        vals = [mkvariant(self.p, ty, v) for v in self.p.variants(ty)] if self.enum(ty) and not self.fieldless(ty) else [self.symbol(ty)]
        for v in vals:
            sim, ex = runfn(self.p, f, (refto('val'), refto('code'), refto('data'), refto('reloc')), Codec(self.p, f), store={obj_lv('val'): v})
            if not ex: self.c.count('unencodable variants')
            for st, _ in ex: rows.append((v, st.rs[0], st.rs[1]))
        self.w[ty] = rows
        return rows

    def symbol(self, ty):
        a = self.p.adts.get(ty)
        if a and a['kind'] == 'struct': return mkvariant(self.p, ty, None)
        return ('sym', ty)

    def reader(self, ty):
        """[(constraints, events, value, end position)]"""
        if ty in self.r: return self.r[ty]
        f = self.readers.get(ty)
        if f is None: self.c.violation(f'no-reader:{ty}', f'{ty} is written but has no BinaryRead implementation'); self.r[ty] = []; return []
        sim, ex = runfn(self.p, f, (refto('code'), refto('data'), ('start',)), Codec(self.p, f))
        rows = []
        for st, ret in ex:
            ret = strip(ret)
            if ret[0] != 'agg': raise Missing(f'{ty}: reader result')
            rows.append((st.rs[0], st.rs[1], deepread(sim, st, ret[3][0]), ret[3][1]))
        self.r[ty] = rows
        return rows

    # ---- positions: byte k of the encoding, or the operand after nested read j
    def poskey(self, v):
        """Position as (anchor, offset): anchor None = start, k = after nested read k."""
        off = 0
        v = simp(v)
        while True:
            if v[0] == 'plus': off += v[2]; v = v[1]; continue
            if v[0] == 'bin' and v[1] == 'Add' and cval(v[3]) is not None: off += cval(v[3]); v = v[2]; continue
            if v[0] == 'bin' and v[1] == 'Add' and cval(v[2]) is not None: off += cval(v[2]); v = v[3]; continue
            break
        if v == ('start',): return (None, off)
        if v[0] == 'after': return (v[1], off)
        return None


def item_list(events):
    """Bytes / nested operands in emission order, each with its relocation mark."""
    out, rel = [], None
    n = 0
    for e in events:
        if e[0] == 'rel':
            if e[2] != ('at', n): return None
            rel = e[1]
            continue
        out.append((e, rel)); rel = None
        n += 1
    return out if rel is None else None


def locate(items, reads, pos, T):
    """Index of the item at a reader position."""
    a, off = pos
    if a is None: i = 0
    else:
        pk = T.poskey(reads[a][2])
        if pk is None: return None
        j = locate(items, reads, pk, T)
        if j is None: return None
        i = j + 1
    for _ in range(off):
        if i >= len(items) or items[i][0][0] != 'b': return None
        i += 1
    return i


def written_at(e):
    """(type, value) a nested operand was written with."""
    if e[0] == 'w': return e[1], e[2]
    if e[0] == 'var': return 'varint', e[1]
    return 'byte', e[1]


COMPAT = {('usize', 'varint'), ('u64', 'varint')}


def code_index(v):
    """position of a `code[..]` byte read, or None"""
    if v and v[0] == 'init' and v[1][0] == obj('code') and len(v[1][1]) == 1 and v[1][1][0][0] == 'i': return v[1][1][0][1]
    return None


def sub_byte(v):
    """byte k of a copied `code[a..b]`"""
    s = v[1][1]
    if s[0] == 'init' and s[1][0][0] == 'V' and s[1][0][1][0] == 'sub' and s[1][0][1][1] == obj_lv('code'):
        r = s[1][0][1][2]
        k = cval(v[2][1])
        if r[0] == 'agg' and k >= 0: return ('init', (obj('code'), (('i', ('plus', r[3][0], k) if k else r[3][0]),)))
    return v


def decode(T, items, row):
    """Applies a reader row to written items: ('no',) if its branches exclude it, ('bad', why), or ('ok', value, end)."""
    cons, reads_ev, val, end = row
    reads = [e for e in reads_ev if e[0] == 'rd']
    env = {}
    used = []
    # nested operands
    for k, e in enumerate(reads):
        pk = T.poskey(e[2])
        i = locate(items, reads, pk, T) if pk else None
        if i is None or i >= len(items): env[('got', k)] = ('unread', k); continue
        wty, wv = written_at(items[i][0])
        if e[1] == wty: env[('got', k)] = wv
        elif (e[1], wty) in COMPAT: env[('got', k)] = wv if e[1] == 'u64' else ('cast', wv, 'u64', e[1])
        elif e[1] == '&str':
            # pool address + length
            rel = items[i][1]
            ok_ = wty == 'varint' and rel == 'Data' and wv[0] in ('cast', 'pool') and i + 1 < len(items) and items[i + 1][0][0] == 'w' and items[i + 1][0][1] == 'usize'
            s = strip_pool(wv)
            ok_ = ok_ and s is not None and simp(items[i + 1][0][2]) == ('strlen', s)
            env[('got', k)] = s if ok_ else ('badstr',)
            if ok_: items[i + 1:i + 2] = []
        else: env[('got', k)] = ('mistyped', e[1], wty)
    def bytes_(v):
        if not isinstance(v, tuple): return v
        if v and v[0] == 'p' and v[1][0] == 'slice' and v[2][0] == 'i' and cval(v[2][1]) is not None: v = sub_byte(v)
        ix = code_index(v)
        if ix is not None:
            pk = T.poskey(ix)
            i = locate(items, reads, pk, T) if pk else None
            if i is not None and i < len(items) and items[i][0][0] == 'b': return items[i][0][1]
            return ('unread',)
        return tuple(bytes_(x) for x in v)
    res = lambda v: simp(subst(bytes_(v), env))
    for v, ch in cons:
        x = res(v)
        k, want = choice_of(ch)
        n = cval(x)
        if n is not None:
            if k == 'is' and str(n) != str(want): return ('no',)
            if k == 'not' and str(n) in want: return ('no',)
        elif x[0] == 'plus' and x[2] > 0:           # n + k of an unsigned n is never below k
            if k == 'is' and str(want).isdigit() and int(want) < x[2]: return ('no',)
    pk = T.poskey(end)
    i = locate(items, reads, pk, T) if pk else None
    if i != len(items): return ('bad', 'the reader does not stop where the encoding ends')
    return ('ok', res(val))


def strip_pool(v):
    v = simp(v)
    while v[0] == 'cast': v = v[1]
    if v[0] == 'pool':
        x = v[1]
        if x[0] == 'bytes': return x[1]
    return None


def constrained(v, cons):
    """Field values fixed by the writer path: {symbol: constant}."""
    m, nots = {}, {}
    for x, ch in cons:
        x = simp(x)
        k, want = choice_of(ch)
        if x[0] in ('fld', 'sym'):
            if k == 'is': m[x] = want
            else: nots.setdefault(x, set()).update(want)
        elif x[0] == 'bin' and x[1] == 'Eq' and x[2][0] in ('fld', 'sym') and x[3][0] == 'c':
            t = (k == 'is' and want == '1') or (k == 'not' and '0' in want)
            if t: m[x[2]] = '' if x[3][2] == '""' else x[3][2]
    return m, nots


def same(got, want, fixed):
    if got == want: return True
    if want in fixed:
        g = got
        if g[0] == 'ref' and g[1][0][0] == 'V' and not g[1][1] and g[1][0][1][0] == 'c': g = g[1][0][1]
        if g[0] == 'agg' and not g[3]: return g[2] == fixed[want]
        if g[0] == 'c': return str(g[2]) == str(fixed[want]) or (g[1] == 'b' and str(int(g[2])) == str(fixed[want]))
    return False


def check_type(c, T, ty, done, addr):
    if ty in done: return
    done.add(ty)
    p = c.p
    if ty in ('varint',): return
    if ty in ('i32', 'i64', 'u32', 'u16', 'i16'):
        bits.through_u64(c, T, ty)
        c.count('codec types')
        check_type(c, T, 'u64', done, addr)
        return
    rows = T.writer(ty)
    rrows = T.reader(ty) if rows or ty != '&str' else []
    c.count('codec types')
    wanted = set(p.variants(ty)) if ty == INS else set()
    for val, cons, events in rows:
        c.count('encodings')
        label = f'{ty.split("::")[-1]}' + (f'::{val[2]}' if val[0] == 'agg' and val[2] else '')
        fixed, nots = constrained(val, cons)
        if any(str(x) in nots.get(k, ()) for k, x in fixed.items()): continue
        items = item_list(events)
        if items is None:
            c.violation(f'relocation:{label}', f'{label}: an address operand is marked for relocation at another position than the one it is written to', T.writers[ty].loc()); continue
        # which operands are relocatable
        if ty == INS:
            wanted.discard(val[2])
            for (e, rel) in items:
                wty, wv = written_at(e)
                src = [s for s in subvalues(wv) if s and s[0] == 'fld' and len(s) == 2] if wty != 'byte' else []
                for s in src:
                    need = None
                    fty = dict(p.fields(INS, val[2])).get(s[1], '')
                    if (val[2], s[1]) in addr: need = 'Code'
                    elif norm_str(fty) == '&str' and not mentions(wv, lambda x: x[0] == 'strlen'): need = 'Data'
                    c.count('operands written')
                    if need == 'Code': c.count('code address operands')
                    if need == 'Data': c.count('data address operands')
                    if rel != need:
                        c.violation(f'relocatable:{label}.{s[1]}', f'{label}: operand `{s[1]}` is {"an address that moves with the code" if need == "Code" else "an address into the data section" if need else "not an address"}, but is written {"as a plain value" if not rel else "as a relocatable " + rel.lower() + " address"}', T.writers[ty].loc())
                    if rel and e[0] == 'var':
                        o = strip(e[2])
                        if not (o[0] == 'agg' and o[2] == 'Some'): c.violation(f'width:{label}.{s[1]}', f'{label}: relocatable operand `{s[1]}` is written without a fixed width', T.writers[ty].loc())
                if rel and e[0] != 'var': c.violation(f'width:{label}', f'{label}: a relocatable operand is written without a fixed width', T.writers[ty].loc())
        for e, _ in items:
            if e[0] == 'w': check_type(c, T, e[1], done, addr)
        outs = []
        for row in rrows:
            r = decode(T, list(items), row)
            if r[0] == 'no': continue
            outs.append(r)
        if not outs:
            c.violation(f'undecodable:{label}', f'{label}: no reader path accepts what the writer emits', T.writers[ty].loc()); continue
        for r in outs:
            if r[0] == 'bad': c.violation(f'length:{label}', f'{label}: {r[1]}', T.readers[ty].loc()); continue
            got = r[1]
            if val[0] == 'agg' and val[2] or (val[0] == 'agg' and got[0] == 'agg'):
                if got[0] != 'agg' or got[2] != val[2]:
                    c.violation(f'kind:{label}', f'{label}: written form decodes to {got[2] if got[0] == "agg" else got}', T.readers[ty].loc()); continue
                gf = fields_of(got)
                for n, x in fields_of(val).items():
                    if n not in gf or not same(gf[n], x, fixed):
                        c.violation(f'operand:{label}.{n}', f'{label}: operand `{n}` does not come back (decoded as {str(gf.get(n))[:120]})', T.readers[ty].loc())
            elif not same(got, val, fixed):
                c.violation(f'value:{label}', f'{label}: decoded as {str(got)[:160]}', T.readers[ty].loc())
        if ty == INS: c.count('instruction encodings')
        if len(c.samples) < 8 and ty == INS and len(items) > 1: c.sample(f'{label} {dict((k[-1], v) for k, v in fixed.items())} -> {len(items)} items -> decoded equal')
    if ty == INS:
        for v in wanted: c.violation(f'unencodable:{v}', f'instruction {v} has no encoding at all', T.writers[ty].loc())
    if ty == INS:
        c.counts['opcodes'] = len({cval(i[0][0][1]) for _, _, e in rows for i in [item_list(e)] if i and i[0][0][0] == 'b'})


def addr_from_types(c):
    """Operands of type usize that the interpreter uses as positions (step's value flow)."""
    import stepm, p03
    p = c.p
    out = set()
    for v in p.variants(INS):
        names = [n for n, t in p.fields(INS, v) if t == 'usize']
        if not names: continue
        found = set()
        class AR(stepm.StepRule):
            def on_write(self, sim, st, cx, lv, val):
                super().on_write(sim, st, cx, lv, val)
                if lv[1] and lv[1][-1] == ('f', 'pos'): found.add(strip(val))
            def on_agg(self, sim, st, cx, val):
                super().on_agg(sim, st, cx, val)
                for n, x in fields_of(val).items():
                    if n.endswith('pos'): found.add(strip(x))
        rule, sim, ex = stepm.run_variant(p, c, v, rule=AR(p, v))
        for n in names:
            if any(x == stepm_operand(v, n) for x in found): out.add((v, n))
    return out


def stepm_operand(v, n):
    import stepm
    return ('op', n)


def check(c):
    p = c.p
    c.rule('for every variant and operand shape of Instruction: the sequence of bytes and nested operands every writer path emits, fed to every reader path it can take, rebuilds the same variant with every operand equal and stops at the end of the encoding; operands used as code positions (value flow in the interpreter step) and text operands are relocatable and fixed-width, nothing else is')
    T = Tables(c)
    if INS not in T.writers or INS not in T.readers: raise Missing('Instruction codec')
    addr = addr_from_types(c)
    for a in sorted(addr): c.count('address operands known to the interpreter')
    check_type(c, T, INS, set(), addr)
    encs = [f for f in p.fns if is_encode(f)]
    decs = [f for f in p.fns if is_decode(f)]
    c.rule('exact bit-vector domain over the variable-length integer codec and the signed/float encodings built on it: every magnitude class of u64 at every width it can be asked for comes back bit for bit and with the right length')
    if len(encs) != 1 or len(decs) != 1: raise Missing('variable-length integer codec')
    bits.varint(c, encs[0], decs[0])
    c.floor('instruction encodings', 140); c.floor('opcodes', 140); c.floor('codec types', 14); c.floor('operands written', 60)
    c.floor('code address operands', 6); c.floor('data address operands', 15); c.floor('varint shapes', 300); c.floor('bit-exact codec paths', 2)


"""P44: every call into the machine comes to an end: no loop can run forever, and recursion over projects and plain values only goes into smaller parts."""
import re, sys
from h import *
import mir

sys.setrecursionlimit(100000)
ENDLESS = re.compile(r'core::iter::(Repeat|RepeatWith|Cycle|Successors|FromFn|OnceWith_)\b|core::ops::RangeFrom\b|core::iter::(sources|adapters)::\w+::(Repeat|RepeatWith|Cycle|Successors|FromFn)\b')
LAZY = {'map', 'filter', 'filter_map', 'enumerate', 'zip', 'take', 'skip', 'peekable', 'by_ref', 'into_iter', 'iter', 'rev', 'chain', 'step_by', 'take_while', 'map_while', 'skip_while', 'scan', 'inspect', 'fuse', 'cloned', 'copied', 'flat_map', 'flatten', 'size_hint', 'next', 'next_back', 'nth', 'peek', 'peek_mut', 'next_if', 'next_if_eq', 'clone', 'cycle', 'fmt', 'index', 'index_mut', 'get', 'get_mut', 'drain', 'contains', 'start_bound', 'end_bound', 'eq', 'ne', 'drop', 'map_windows', 'array_chunks', 'is_char_boundary', 'split_off', 'range', 'range_mut', 'replace_range', 'copy_within', 'extend_from_within', 'get_unchecked', 'slice', 'from', 'into', 'borrow', 'borrow_mut', 'as_ref', 'as_mut', 'advance_by', 'get_disjoint_mut'}
DRAW = {'next', 'next_back', 'next_if', 'next_if_eq', 'peek', 'nth', 'pop', 'pop_front', 'pop_back', 'pop_first', 'pop_last', 'recv', 'try_recv'}
POPS = {'pop', 'pop_front', 'pop_back', 'pop_first', 'pop_last'}
SHRINK = POPS | {'remove', 'swap_remove', 'retain', 'retain_mut', 'truncate', 'clear', 'drain', 'get_mut', 'iter_mut', 'last_mut', 'first_mut', 'front_mut', 'back_mut', 'peek_mut', 'swap', 'deref_mut', 'as_mut', 'index_mut', 'values_mut'}
KEEPS_OPTION = {'map', 'copied', 'cloned', 'as_ref', 'as_mut', 'and_then', 'filter', 'branch', 'as_deref', 'as_deref_mut', 'inspect', 'zip', 'flatten', 'ok'}
CMP = {'Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'}
FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
NOT = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}


def sccs(f, nodes):
    """Strongly connected parts of the given blocks that contain a cycle."""
    idx, low, st, on, out, ctr = {}, {}, [], set(), [], [0]
    def go(v):
        idx[v] = low[v] = ctr[0]; ctr[0] += 1; st.append(v); on.add(v)
        for w in f.succ(v):
            if w not in nodes: continue
            if w not in idx: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = set()
            while True:
                w = st.pop(); on.discard(w); c.add(w)
                if w == v: break
            if len(c) > 1 or v in f.succ(v): out.append(c)
    for v in sorted(nodes):
        if v not in idx: go(v)
    return out


def cyclic(f, nodes): return set().union(*sccs(f, nodes)) if nodes else set()


def endless(ty):
    ty = ty.strip().lstrip('&').replace('mut ', '', 1) if ty.strip().startswith('&') else ty.strip()
    if not ENDLESS.search(ty): return False
    head = mir.strip_ty(ty)
    args = mir.ty_args(ty)
    last = head.rsplit('::', 1)[-1]
    if ENDLESS.match(head): return True
    if last == 'Take': return False
    if last == 'Zip': return all(endless(a) for a in args)
    return any(endless(a) for a in args)


ADD = {'push', 'push_back', 'push_front', 'extend', 'append', 'insert', 'resize', 'resize_with', 'extend_from_slice', 'splice', 'entry', 'replace', 'swap', 'clone_from'}


def norm(ty): return re.sub(r"'\w+,? ?", '', ty.replace('&mut ', '').replace('&', '')).split('<')[0:2]


def key(pl):
    if len(pl) == 1: return (pl[0],)
    if len(pl) == 2 and isinstance(pl[1], list) and pl[1][0] == 'f': return (pl[0], pl[1][1])
    return None


class Loop:
    def __init__(self, p, f, S):
        self.p, self.f, self.S = p, f, S
        self.d = {}
        for bi in S:
            for s in f.blocks[bi].stmts:
                if s[0] == '=': self.d.setdefault(s[1][0], []).append(('st' if len(s[1]) == 1 else 'part', bi, s[2], s[1]))
            t = f.blocks[bi].term
            if t[0] == 'call' and t[3]: self.d.setdefault(t[3][0], []).append(('call' if len(t[3]) == 1 else 'part', bi, t, t[3]))

    def leaves(self, bi): return bi not in self.S

    def place(self, o, n=0):
        """The place behind a (reborrowed, copied) reference or value, resolved through definitions inside the loop, and through the unique definition outside it."""
        pl = o[1] if o and o[0] in 'ym' else o
        while n < 20 and isinstance(pl, list):
            n += 1
            if pl[0] <= self.f.nargs: return pl
            ds = self.d.get(pl[0]) or [(k, bi, x, None) for k, bi, x in alldefs(self.f, pl[0])]
            ds = [x for x in ds if x[0] != 'part' or not x[3] or len(x[3]) == 1]
            if len(ds) != 1: return pl
            if ds[0][0] == 'call':
                # what deref hands out belongs to its argument
                cl = self.f.callees.get(ds[0][1])
                if cl is not None and cl.method in ('deref', 'deref_mut', 'as_slice', 'as_mut', 'as_ref', 'borrow', 'borrow_mut') and len(pl) > 1 and pl[1] == '*':
                    a = ds[0][2][2][0]
                    if a[0] in 'ym': pl = self.place(a, n) + pl[2:] if False else (a[1] + ['*'] + pl[2:]); continue
                return pl
            k, x = ds[0][2][0], ds[0][2]
            if k == 'ref' and (len(pl) == 1 or pl[1] == '*'): pl = x[2] + pl[2:]
            elif k == 'use' and x[1][0] in 'ym': pl = x[1][1] + pl[1:]
            else: return pl
        return pl

    def assigned(self, pl):
        """Whether the place (or something it is part of, or a reference it goes through) is replaced inside the loop."""
        for k, bi, x, dst in self.d.get(pl[0], ()):
            dst = dst or [pl[0]]
            n = min(len(dst), len(pl))
            if [str(q) for q in dst[:n]] == [str(q) for q in pl[:n]]: return True
        return False

    def flow(self, l):
        """Places (local, or component of a tuple) that hold the option drawn into l, or something made of it that is absent when it is."""
        out, work = {(l,)}, [(l,)]
        def add(k):
            if k not in out: out.add(k); work.append(k)
        while work:
            v = work.pop()
            for w, ds in self.d.items():
                for k, bi, x, dst in ds:
                    if dst is not None and len(dst) > 1: continue
                    if k == 'st' and x[0] == 'use' and x[1][0] in 'ym' and key(x[1][1]) == v: add((w,))
                    elif k == 'st' and x[0] == 'ref' and key(x[2]) == v: add((w,))
                    elif k == 'st' and x[0] == 'agg' and x[1].get('k') == 'tuple':
                        for j, o in enumerate(x[2]):
                            if o[0] in 'ym' and key(o[1]) == v: add((w, j))
                    elif k == 'call' and x[2] and x[2][0][0] in 'ym' and key(x[2][0][1]) == v and self.f.callees.get(bi) is not None and self.f.callees[bi].method in KEEPS_OPTION: add((w,))
        return out

    def stay_if_present(self, drawn, at):
        """Blocks that leave the loop (or panic) when the drawn value is absent, and that are only met again after another draw at block `at`."""
        fl = self.flow(drawn)
        rest = cyclic(self.f, self.S - {at})
        for bi in sorted(self.S - rest):
            t = self.f.blocks[bi].term
            if t[0] == 'call' and self.f.callees.get(bi) is not None and self.f.callees[bi].method in ('unwrap', 'expect') and t[2][0][0] in 'ym' and key(t[2][0][1]) in fl: yield bi
            if t[0] != 'switch' or t[1][0] not in 'ym' or len(t[1][1]) != 1: continue
            arms = {str(a[0]): a[1] for a in t[3]}
            for k, b2, x, dst in self.d.get(t[1][1][0], ()):
                if k == 'st' and x[0] == 'discr' and key(x[1]) in fl:
                    ty = self.f.locals[x[1][0]] if len(x[1]) == 1 else ''
                    absent = '1' if 'ControlFlow' in ty.split('<')[0] else '1' if ty.startswith('core::result::Result<') else '0'
                    if self.leaves(arms.get(absent, t[4])): yield bi
                elif k == 'call' and self.f.callees.get(b2) is not None and self.f.callees[b2].method in ('is_some', 'is_none') and x[2][0][0] in 'ym' and key(x[2][0][1]) in fl:
                    absent = '0' if self.f.callees[b2].method == 'is_some' else '1'
                    if self.leaves(arms.get(absent, t[4])): yield bi

    # ---- draws from an iterator or a collection

    def draws(self, c):
        f = self.f
        for bi in sorted(self.S):
            cl = f.callees.get(bi)
            if cl is None or cl.method not in DRAW or not f.blocks[bi].term[2]: continue
            t = f.blocks[bi].term
            if len(t[3]) != 1: continue
            pl = self.place(t[2][0])
            if pl is None: continue
            self_ty = self.type_of(cl, t)
            if cl.method in POPS:
                if self.grows(pl, bi) and not self.smaller(c, t): continue
            elif cl.method in ('nth', 'recv', 'try_recv', 'next_if', 'next_if_eq'): continue
            else:
                if endless(self_ty) or self.reset(pl): continue
                if cl.method == 'peek':
                    # looking ahead, and drawing on every round
                    ds = {b for b in self.S if f.callees.get(b) is not None and f.callees[b].method == 'next' and f.blocks[b].term[2] and [str(q) for q in self.place(f.blocks[b].term[2][0])] == [str(q) for q in pl]}
                    for w in self.stay_if_present(t[3][0], bi):
                        if w not in cyclic(f, self.S - ds): yield w, 'a finite iterator'
                    continue
            for w in self.stay_if_present(t[3][0], bi): yield w, ('takes from a collection that only shrinks' if cl.method in POPS else 'a finite iterator')

    def type_of(self, cl, t):
        o = t[2][0]
        ty = self.f.locals[o[1][0]] if o[0] in 'ym' and len(o[1]) == 1 else ''
        return ty.lstrip('&').replace('mut ', '', 1) if ty else (cl.args[0] if cl.args else '')

    def reset(self, pl):
        if pl[0] <= self.f.nargs and len(pl) == 1: return False
        if self.assigned(pl): return True
        # the whole iterator handed out mutably to something other than a draw
        return False

    def grows(self, pl, at):
        if self.assigned(pl): return True
        f = self.f
        key = [str(q) for q in pl]
        for bi in self.S:
            if bi == at: continue
            cl = f.callees.get(bi)
            t = f.blocks[bi].term
            if cl is None: continue
            for o in t[2]:
                if o[0] not in 'ym': continue
                ty = f.locals[o[1][0]]
                if not ty.startswith('&mut') and not ('&mut' in ty and 'closure' not in ty): continue
                q = [str(x) for x in self.place(o)]
                n = min(len(q), len(key))
                if q[:n] != key[:n]: continue
                if cl.method in SHRINK and len(q) >= len(key): continue
                if len(q) < len(key) and self.spares(cl, pl): continue
                return True
        return False

    def spares(self, cl, pl):
        """A function of the crate that gets the owner of the collection, but neither it nor anything it calls adds to a collection of that type."""
        ty = field_ty(self.p, pl)
        if not cl.local or not ty: return False
        for i in self.p.reach({cl.local}):
            g = self.p.by_id[i]
            for bi, q in g.callees.items():
                b = g.blocks[bi]
                if b.cleanup or q.method not in ADD or not b.term[2] or b.term[2][0][0] not in 'ym': continue
                if norm(g.locals[b.term[2][0][1][0]]) == norm(ty): return False
        return True

    # ---- counters

    def var(self, o, n=0):
        """The variable (local defined several times, or outside the loop) an operand is a copy of."""
        if o[0] not in 'ym': return None
        pl = o[1]
        while len(pl) == 1 and n < 20:
            n += 1
            ds = self.d.get(pl[0], [])
            if len(ds) == 1 and ds[0][0] == 'st' and ds[0][2][0] == 'use' and ds[0][2][1][0] in 'ym' and len(ds[0][2][1][1]) == 1: pl = ds[0][2][1][1]
            else: return pl[0]
        return None

    def sumof(self, o, n=0):
        """(variable, constant) when the operand is variable + constant."""
        if o[0] not in 'ym' or n > 20: return None
        pl = o[1]
        ds = self.d.get(pl[0], [])
        if len(ds) != 1 or ds[0][0] != 'st': return None
        x = ds[0][2]
        if len(pl) == 2 and isinstance(pl[1], list) and pl[1][0] == 'f' and pl[1][1] == 0 and x[0] == 'bin' and x[1].endswith('WithOverflow'): return self.binsum(x)
        if len(pl) != 1: return None
        if x[0] == 'use': return self.sumof(x[1], n + 1)
        if x[0] == 'bin': return self.binsum(x)
        return None

    def binsum(self, x):
        k = x[1].replace('WithOverflow', '').replace('Unchecked', '')
        if k not in ('Add', 'Sub') or x[3][0] != 'c': return None
        j = x[3][1]
        try: v = float(j['f']) if 'f' in j else int(j['i'])
        except (KeyError, ValueError): return None
        i = self.var(x[2])
        return (i, v if k == 'Add' else -v) if i is not None else None

    def steps(self, i):
        """How a variable changes inside the loop: {block: constant}; None when it is also changed in other ways."""
        out = {}
        for k, bi, x, dst in self.d.get(i, ()):
            if k != 'st': return None
            s = self.sumof(x[1]) if x[0] == 'use' else self.binsum(x) if x[0] == 'bin' else None
            if s is None or s[0] != i: return None
            out[bi] = s[1]
        return out

    def guards(self):
        """Branches that stay in the loop only while a comparison holds: (block, relation while staying, left, right, type)."""
        f = self.f
        for bi in sorted(self.S):
            t = f.blocks[bi].term
            if t[0] == 'switch' and t[1][0] in 'ym' and len(t[1][1]) == 1:
                arms = {str(a[0]): a[1] for a in t[3]}
                no, yes = arms.get('0', t[4]), (arms.get('1') if '1' in arms else t[4])
                stays = [w for w, tgt in ((True, yes), (False, no)) if not self.leaves(tgt)]
                if len(stays) != 1: continue
                want, o = stays[0], t[1]
            elif t[0] == 'assert': want, o = bool(t[2]), t[1]
            else: continue
            for k, b2, x, dst in self.d.get(o[1][0], ()):
                if k == 'st' and x[0] == 'bin' and x[1] in CMP: yield bi, (x[1] if want else NOT[x[1]]), x[2], x[3], x[4]

    def counters(self, c):
        f = self.f
        gs = list(self.guards())
        for w, rel, a, b, ty in gs:
            for rel2, x, y in ((rel, a, b), (FLIP[rel], b, a)):
                i = self.var(x)
                if i is None or i not in self.d: continue
                st = self.steps(i)
                if not st: continue
                sign = {v > 0 for v in st.values()}
                if len(sign) != 1 or 0 in st.values(): continue
                up = sign == {True}
                if rel2 not in (('Lt', 'Le', 'Ne') if up else ('Gt', 'Ge', 'Ne')): continue
                if rel2 == 'Ne' and any(abs(v) != 1 for v in st.values()): continue
                if not self.fixed(y): continue
                # met again only after a step
                if w in cyclic(f, self.S - set(st)): continue
                if ty in ('f64', 'f32'):
                    for w2, rel3, p, q, _ in gs:
                        if rel3 != 'Ne': continue
                        for m, n in ((p, q), (q, p)):
                            s = self.sumof(m)
                            if s and s[0] == i and self.var(n) == i and (s[1] > 0) == up and all(abs(v) >= abs(s[1]) for v in st.values()) and w2 not in cyclic(f, self.S - set(st)) and w not in cyclic(f, self.S - {w2}): yield w, 'a number that is shown to change on every round and to be bounded'
                else: yield w, 'a counter with a bound'

    def smaller(self, c, t):
        """A work list of parts of the project: whatever is put on it is a strict part of what the function putting it there was given."""
        ty = self.place_type(t[2][0])
        if 'netsblox_ast::' not in ty and 'ast::' not in ty: return False
        n = 0
        for g in self.p.fns:
            for bi, cl in g.callees.items():
                b = g.blocks[bi]
                if b.cleanup or cl.method not in ('push', 'push_back', 'push_front', 'extend', 'append', 'insert') or not b.term[2] or b.term[2][0][0] not in 'ym': continue
                if g.locals[b.term[2][0][1][0]].replace('&mut ', '') != ty: continue
                n += 1
                if cl.method in ('extend', 'append'): return False
                if not any(handed(g, m, b.term[2][1]) == STRICT for m in range(1, g.nargs + 1)): return False
        if n: c.count('work lists of project parts'); c.count('places that add to a work list', n)
        return n > 0

    def place_type(self, o): return self.f.locals[o[1][0]].replace('&mut ', '') if o[0] in 'ym' and len(o[1]) == 1 else ''

    def fixed(self, o):
        if o[0] == 'c': return True
        pl = o[1]
        ds = self.d.get(pl[0], [])
        if not ds: return True
        if len(ds) != 1 or len(pl) != 1: return False
        k, bi, x, dst = ds[0]
        if k == 'st': return x[0] == 'use' and self.fixed(x[1]) or x[0] in ('len',) or x[0] == 'un' and x[1] == 'PtrMetadata'
        cl = self.f.callees.get(bi)
        if k == 'call' and cl is not None and cl.method == 'len': return not self.grows(self.place(x[2][0]), bi)
        return False

    # ---- cursors moved by a decoding function

    def cursors(self, c):
        f = self.f
        for bi in sorted(self.S):
            cl = f.callees.get(bi)
            g = self.p.by_id.get(cl.local) if cl is not None and cl.local else None
            t = f.blocks[bi].term
            if g is None or len(t[3]) != 1: continue
            if (g.trait or '').endswith('BinaryRead') and (g.selfadt or '').endswith('bytecode::Instruction'): yield bi, 'a cursor that moves on every round'; continue
            r = t[3][0]
            for n, o in enumerate(t[2]):
                i = self.var(o)
                if i is None or i not in self.d: continue
                ks = set()
                for k, b2, x, dst in self.d[i]:
                    pl = self.place(x[1]) if k == 'st' and x[0] == 'use' and x[1][0] in 'ym' else None
                    ks.add(pl[1][1] if pl and len(pl) == 2 and pl[0] == r and isinstance(pl[1], list) else None)
                if len(ks) != 1 or None in ks: continue
                k = ks.pop()
                sites = {b2 for _, b2, _, _ in self.d[i]}
                adv = advance(g, n + 1, k)
                c.count('cursor functions analysed')
                if adv is None or bi in cyclic(f, self.S - sites): continue
                if adv is True: yield bi, 'a cursor that moves on every round'; continue
                # stays put only when the decoded value is zero: the loop must end then
                for w, rel, a, b, ty in self.guards():
                    for x, y in ((a, b), (b, a)):
                        pl = self.place(x) if x[0] in 'ym' else None
                        if rel == 'Ne' and y[0] == 'c' and y[1].get('i') == '0' and pl and pl[0] == r and len(pl) == 2 and pl[1][1] == adv and bi not in cyclic(f, self.S - {w}): yield w, 'a cursor that moves on every round'


def alldefs(f, l):
    for bi in sorted(f.reachable):
        b = f.blocks[bi]
        if b.cleanup: continue
        for s in b.stmts:
            if s[0] == '=' and s[1][0] == l: yield ('st' if len(s[1]) == 1 else 'part'), bi, s[2]
        t = b.term
        if t[0] == 'call' and t[3] and t[3][0] == l: yield ('call' if len(t[3]) == 1 else 'part'), bi, t


def advance(g, n, k):
    """Component k of what g returns is past its parameter n: True when always, the index of a component that is zero otherwise, None when not shown. g reads its data at the parameter, so the parameter cannot pass its end."""
    comps = None
    for kind, bi, x in alldefs(g, 0):
        if kind != 'st' or x[0] != 'agg' or x[1].get('k') != 'tuple' or comps is not None: return None
        comps = x[2]
    if not comps or k >= len(comps): return None
    L = Loop(None, g, {b for b in g.reachable if not g.blocks[b].cleanup})
    def root(o):
        while o[0] in 'ym' and len(o[1]) == 1:
            ds = L.d.get(o[1][0], [])
            if len(ds) == 1 and ds[0][0] == 'st' and ds[0][2][0] == 'use' and ds[0][2][1][0] in 'ym' and len(ds[0][2][1][1]) == 1 and o[1][0] > g.nargs: o = ds[0][2][1]
            else: return o[1][0]
        return None
    aft = root(comps[k])
    if aft is None: return None
    incs = set()
    def start(o, d=0):
        if o[0] not in 'ym' or d > 9: return False
        pl = o[1]
        if pl == [n]: return True
        if len(pl) == 2 and isinstance(pl[1], list):
            ds = L.d.get(pl[0], [])
            return len(ds) == 1 and ds[0][2][0] == 'agg' and start(ds[0][2][2][pl[1][1]], d + 1)
        ds = L.d.get(pl[0], [])
        return len(pl) == 1 and len(ds) == 1 and ds[0][0] == 'st' and ds[0][2][0] == 'use' and start(ds[0][2][1], d + 1)
    for kind, bi, x, dst in L.d.get(aft, ()):
        if kind != 'st': return None
        s = L.sumof(x[1]) if x[0] == 'use' else L.binsum(x) if x[0] == 'bin' else None
        if s and s[0] == aft and s[1] > 0: incs.add(bi)
        elif not (x[0] == 'use' and start(x[1])): return None
    # the data are read at the parameter on every path
    reads = set()
    for bi in L.S:
        cl = g.callees.get(bi)
        if cl is not None and cl.method == 'index':
            for o in g.blocks[bi].term[2][1:]:
                ds = L.d.get(o[1][0], []) if o[0] in 'ym' else []
                if len(ds) == 1 and ds[0][0] == 'st' and ds[0][2][0] == 'agg' and start(ds[0][2][2][0]): reads.add(bi)
        if g.blocks[bi].term[0] == 'assert' and 'ound' in str(g.blocks[bi].term[3]): reads.add(bi)
    def avoid(block):
        seen, work = set(), [0]
        while work:
            v = work.pop()
            if v in seen or v in block: continue
            seen.add(v)
            if g.blocks[v].term[0] == 'return': return True
            work += [w for w in g.succ(v) if w in L.S]
        return False
    if not reads or avoid(reads): return None
    if not avoid(incs): return True
    # the other component is zero unless a loop over data[parameter..aft] changes it
    for j, o in enumerate(comps):
        v = root(o) if j != k else None
        if v is None: continue
        good = True
        for kind, bi, x, dst in L.d.get(v, ()):
            zero = kind == 'st' and x[0] == 'use' and (x[1][0] == 'c' and x[1][1].get('i') == '0' or x[1][0] in 'ym' and len(x[1][1]) == 2 and len(L.d.get(x[1][1][0], ())) == 1 and L.d[x[1][1][0]][0][2][0] == 'agg' and (q := L.d[x[1][1][0]][0][2][2][x[1][1][1][1]])[0] == 'c' and q[1].get('i') == '0')
            if zero: continue
            inside = False
            for S in sccs(g, L.S):
                if bi not in S: continue
                for b2 in S:
                    cl = g.callees.get(b2)
                    if cl is not None and cl.method in ('next', 'next_back') and bi not in cyclic(g, S - {b2}) and spans(g, L, g.blocks[b2].term[2][0], n, aft, start): inside = True
            if not inside: good = False
        if good and L.d.get(v): return j
    return None


def spans(g, L, o, n, aft, start, d=0):
    """The iterator runs over data[parameter..aft]."""
    if o[0] not in 'ym' or d > 20: return False
    ds = L.d.get(o[1][0], [])
    if len(ds) != 1: return False
    k, bi, x, dst = ds[0]
    if k == 'st':
        if x[0] == 'ref': return spans(g, L, ['y', x[2]], n, aft, start, d + 1)
        if x[0] == 'use': return spans(g, L, x[1], n, aft, start, d + 1)
        return False
    cl = g.callees.get(bi)
    if cl is None: return False
    if cl.method == 'index':
        q = x[2][1]
        dd = L.d.get(q[1][0], []) if q[0] in 'ym' else []
        if len(dd) != 1 or dd[0][2][0] != 'agg' or len(dd[0][2][2]) != 2: return False
        a, b = dd[0][2][2]
        return start(a) and L.var(b) == aft
    if cl.method in ('iter', 'into_iter', 'rev', 'copied', 'cloned', 'enumerate', 'deref') and x[2]: return spans(g, L, x[2][0], n, aft, start, d + 1)
    return False


def settle(c, p, f, S, why):
    """Blocks left in cycles after removing everything that can happen only finitely often; None when all cycles are settled."""
    L = Loop(p, f, S)
    gone = {}
    for gen in (L.draws, L.counters, L.cursors):
        for w, r in gen(c): gone.setdefault(w, r)
    if not gone: return S
    for r in gone.values(): why[r] = why.get(r, 0) + 1
    for T in sccs(f, S - set(gone)):
        r = settle(c, p, f, T, why)
        if r is not None: return r
    return None


def outside(f):
    """Parts that run beside the machine: the command line tool and the host's own threads and tasks."""
    return f.file.endswith('cli.rs') or f.file.endswith('main.rs') or f.coroutine


def check(c):
    p = c.p
    hosts = {f.id for f in p.fns if outside(f)}
    fns = [f for f in p.fns if f.id not in hosts and not f.promoted and f.kind not in ('Const', 'Static') and '/test' not in f.file and not f.derived and not (f.trait or '').startswith('serde::de::Visitor')
           and not any(g.id in hosts and (f.rawpath or f.path).startswith((g.rawpath or g.path) + '::') for g in p.fns if g.id in hosts)]
    c.rule('each loop (strongly connected part of a control-flow graph): what happens finitely often is removed (drawing from a finite iterator or a collection that only shrinks, with the loop left when nothing is left; a counter with a fixed bound; a float counter shown to change on every round; a cursor that moves through data it indexes), and no cycle remains')
    c.count('functions analysed', len(fns))
    why = {}
    for f in fns:
        for S in sccs(f, {b for b in f.reachable if not f.blocks[b].cleanup}):
            c.count('loops')
            left = settle(c, p, f, S, why)
            if left is not None:
                at = next((f.blocks[b].term[-1] for b in sorted(left) if f.blocks[b].term[0] in ('switch', 'call', 'assert')), None)
                if f.blocks[min(left)].term[0] == 'call': at = f.blocks[min(left)].term[6]
                calls = sorted({f.callees[b].method for b in left if b in f.callees})
                c.violation(f'loop:{f.path}', f'`{f.path}` has a loop that nothing is shown to end (in it: {", ".join(calls[:6]) or "no calls"})', f.loc(at) if at else f.loc())
    for r, n in sorted(why.items()): c.count('loops ended by ' + r, n)
    c.floor('loops', 90); c.floor('functions analysed', 400)
    c.rule('each call that consumes an iterator: the iterator is not endless (repeat, cycle, an open range, successors, from_fn), unless it is zipped with a finite one or limited by take')
    for f in fns:
        for bi, cl in f.callees.items():
            b = f.blocks[bi]
            if b.cleanup or bi not in f.reachable: continue
            tr = cl.trait or ''
            if tr.endswith('::Iterator') or cl.method in ('extend', 'from_iter', 'collect'):
                c.count('iterator calls')
                if cl.method in LAZY: continue
                for a in (cl.args or [])[:2]:
                    if endless(a): c.violation(f'endless:{f.path}:{cl.method}', f'`{f.path}` consumes an endless iterator with `{cl.method}`', f.loc(b.term[6]))
    c.floor('iterator calls', 200)
    c.rule('each iterator defined in the crate: every path that hands out an item draws one from an inner iterator, or replaces its remaining input by what a split of it leaves and changes state')
    for f in fns:
        if not ((f.trait or '').endswith('::Iterator') and f.method == 'next') or f.derived: continue
        c.count('iterators of the crate')
        drawn = {bi for bi, cl in f.callees.items() if cl.method in DRAW | {'find', 'find_map', 'nth', 'position'} and (cl.trait or '').endswith('Iterator') and f.blocks[bi].term[2] and (q := Loop(p, f, set(f.reachable)).place(f.blocks[bi].term[2][0])) and q[0] == 1}
        L = Loop(p, f, {b for b in f.reachable if not f.blocks[b].cleanup})
        some = {bi for k, bi, x in alldefs(f, 0) if k == 'st' and x[0] == 'agg' and x[1].get('v') == 'Some'}
        other = [bi for k, bi, x in alldefs(f, 0) if not (k == 'st' and x[0] == 'agg')]
        def pathless(block, to):
            seen, work = set(), [0]
            while work:
                v = work.pop()
                if v in seen: continue
                if v in block and v not in to: continue
                seen.add(v)
                if v in to and v not in block: return True
                if v in block: continue
                work += [w for w in f.succ(v) if w in L.S]
            return False
        if drawn and not pathless(drawn, some) and not pathless(drawn, {b for b in other} - drawn): continue
        cut = set()
        states = set()
        for l, ds in L.d.items():
            for k, bi, x, dst in ds:
                if dst and dst[0] == 1 and len(dst) > 1:
                    ty = field_ty(p, dst)
                    if ty == 'bool' or k == 'st' and x[0] in ('un', 'bin'): states.add(bi)
                    else: cut.add(bi)
        splits = {bi for bi, cl in f.callees.items() if cl.method in ('split_at', 'split_once', 'strip_prefix', 'get', 'index', 'split_first', 'split_at_checked')}
        if cut and splits and not pathless(cut, some) and states and not pathless(states, some): continue
        c.violation(f'iterator:{f.path}', f'`{f.path}` may hand out items forever: not every path that returns one consumes input', f.loc())
    c.floor('iterators of the crate', 5)
    recursion(c, p, fns)


def field_ty(p, pl):
    last = pl[-1]
    if not isinstance(last, list) or last[0] != 'f' or len(last) < 4: return None
    a = p.adts.get(strip_ty(last[3] or ''))
    for v in (a or {'vs': []})['vs']:
        for n, ty, _ in v[2]:
            if n == last[2]: return ty
    return None


NONE, EQUAL, STRICT = 0, 1, 2
ELEMENT = {'next', 'next_back', 'get', 'first', 'last', 'split_first', 'split_last', 'index', 'pop', 'pop_front', 'pop_back', 'nth', 'values', 'keys', 'remove', 'find', 'get_mut', 'as_array', 'as_object'}


def handed(f, m, o, memo={}):
    """How what the operand holds relates to parameter m of f: a strict part of it, (at most) the same, or something else."""
    k = (id(f), m)
    if k not in memo: memo[k] = levels(f, m)
    return level(memo[k], f, o)


def level(lv, f, o):
    if o[0] not in 'ym': return STRICT if '; 0]' in str(o[1].get('ty', '')) else NONE # an empty list has no parts at all
    return proj(lv, f, o[1])


def proj(lv, f, pl):
    l = lv.get(pl[0], NONE)
    return STRICT if l and any(isinstance(x, list) and x[0] == 'f' and not (len(x) > 3 and ('core::option' in str(x[3]) or 'core::result' in str(x[3]) or 'ControlFlow' in str(x[3]) or 'Box' in str(x[3]) or 'NonNull' in str(x[3]) or 'Unique' in str(x[3]) or x[3] == '')) or x == 'i' or isinstance(x, list) and x[0] in ('i', 'ci', 'sub') for x in pl[1:]) else l


def levels(f, m):
    lv = {l: STRICT for l in range(len(f.locals))}
    for l in range(1, f.nargs + 1): lv[l] = EQUAL if l == m else NONE
    defs = {}
    for bi in f.reachable:
        b = f.blocks[bi]
        if b.cleanup: continue
        for s in b.stmts:
            if s[0] == '=': defs.setdefault(s[1][0], []).append((s[2], None))
        t = b.term
        if t[0] == 'call' and t[3]: defs.setdefault(t[3][0], []).append((t, f.callees.get(bi)))
    for l in lv:
        if l > f.nargs and l not in defs: lv[l] = NONE
    changed = True
    while changed:
        changed = False
        for l, ds in defs.items():
            if l <= f.nargs: continue
            new = STRICT
            for x, cl in ds:
                if cl is not None or x[0] == 'call':
                    a = [level(lv, f, o) for o in x[2]]
                    r = max(a[:1], default=NONE)
                    if cl is None or cl.local: r = NONE
                    elif r and cl.method in ELEMENT: r = STRICT
                elif x[0] == 'use': r = level(lv, f, x[1])
                elif x[0] == 'ref': r = proj(lv, f, x[2])
                elif x[0] == 'cast': r = level(lv, f, x[2])
                elif x[0] == 'agg' and not x[2]: r = STRICT
                elif x[0] == 'agg':
                    # a bundle counts as the largest of the parts of the input in it
                    a = [q for q in (level(lv, f, o) for o in x[2]) if q]
                    r = min(a, default=NONE)
                    # the element of a list made of the input itself is the input
                    if r == EQUAL and x[1].get('k') != 'tuple' and not str(x[1].get('adt', '')).startswith(('core::option', 'core::result')): r = NONE
                else: r = NONE
                new = min(new, r)
            if new < lv[l]: lv[l] = new; changed = True
    return lv


def recursion(c, p, fns):
    c.rule('each set of functions that call one another: one parameter of each is handed on as a (strict) part of itself at every such call, and no cycle of calls hands on the same thing; functions over script values are decided by P11')
    ids = {f.id: f for f in fns}
    g = {i: [x for x in p.callgraph.get(i, ()) if x in ids] for i in ids}
    comps = tarjan(g)
    for comp in comps:
        fs = [ids[i] for i in comp]
        if any('Gc<' in f.locals[l] or 'runtime::Value<' in f.locals[l] for f in fs if f.kind != 'Closure' for l in range(1, f.nargs + 1) if not (l > 1 and False)) and not all(any('SimpleValue' in f.locals[l] for l in range(1, f.nargs + 1)) for f in fs if f.kind != 'Closure'): c.count('recursive groups over script values (decided by P11)'); continue
        if any((f.trait or '').startswith('serde::') or f.derived for f in fs): continue
        c.count('recursive groups')
        edges = []
        names = ', '.join(sorted(f.path for f in fs)[:4])
        good = None
        for pick in choices(fs):
            ok, edges, n = True, {}, 0
            for f in fs:
                for bi, cl in f.callees.items():
                    if f.blocks[bi].cleanup or bi not in f.reachable: continue
                    # a function of the group applied to the elements of something
                    for o in f.blocks[bi].term[2][1:]:
                        l = o[1].get('fn', {}).get('l') if o[0] == 'c' else None
                        if l in comp:
                            q = handed(f, pick[f.id], f.blocks[bi].term[2][0])
                            n += 1
                            if not q or pick[l] != 1: ok = False
                            edges[f.id, l] = min(edges.get((f.id, l), STRICT), STRICT if (cl.trait or '').endswith('Iterator') else q)
                    if cl.local in comp and ids[cl.local].kind != 'Closure':
                        h = ids[cl.local]
                        n += 1
                        lv = handed(f, pick[f.id], f.blocks[bi].term[2][pick[h.id] - 1]) if pick[h.id] - 1 < len(f.blocks[bi].term[2]) else NONE
                        if lv == NONE: ok = False
                        edges[f.id, h.id] = min(edges.get((f.id, h.id), STRICT), lv)
                for b in f.blocks:
                    if b.cleanup: continue
                    for s in b.stmts:
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('id') in comp:
                            h = ids[s[2][1]['id']]
                            # the closure is applied to the elements of what the adaptor it is given to runs over
                            lv = NONE
                            for bi, cl in f.callees.items():
                                t = f.blocks[bi].term
                                if len(t[2]) > 1 and any(o[0] in 'ym' and o[1] == s[1] for o in t[2][1:]):
                                    q = handed(f, pick[f.id], t[2][0])
                                    lv = STRICT if q and (cl.trait or '').endswith('Iterator') else q
                            n += 1
                            if lv == NONE: ok = False
                            edges[f.id, h.id] = min(edges.get((f.id, h.id), STRICT), lv)
            if ok and n:
                eq = {}
                for (a, b), lv in edges.items():
                    if lv != STRICT: eq.setdefault(a, []).append(b)
                if not tarjan({i: eq.get(i, []) for i in comp}): good = n; break
        if good: c.count('recursive calls shown to go into a smaller part', good)
        else: c.violation(f'recursion:{names}', f'{names}: recursion is not shown to go into smaller parts of what it was given', fs[0].loc())
    c.floor('recursive groups', 6); c.floor('recursive calls shown to go into a smaller part', 60)


def choices(fs):
    """Assignments of one parameter to each function, those with trees or slices first."""
    import itertools
    opts = []
    for f in fs:
        ps = list(range(1, f.nargs + 1)) if f.kind != 'Closure' else [l for l in range(2, f.nargs + 1)] or [1]
        ps = [l for l in ps if not f.locals[l].startswith('&mut') and f.locals[l] not in ('usize', 'bool', 'u64')] or ps
        opts.append([(f.id, l) for l in ps])
    for n, pick in enumerate(itertools.product(*opts)):
        if n > 4000: return
        yield dict(pick)


def tarjan(g):
    idx, low, st, on, ctr, out = {}, {}, [], set(), [0], []
    def go(v):
        idx[v] = low[v] = ctr[0]; ctr[0] += 1; st.append(v); on.add(v)
        for w in g.get(v, ()):
            if w not in g: continue
            if w not in idx: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            k = []
            while True:
                w = st.pop(); on.discard(w); k.append(w)
                if w == v: break
            if len(k) > 1 or v in g.get(v, ()): out.append(set(k))
    for v in g:
        if v not in idx: go(v)
    return out

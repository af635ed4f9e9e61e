"""Loads the facts dumped by /verif/driver and offers a resolved view of the program.

Everything here is derived from the compiler's own type-checked, name-resolved MIR: functions,
control-flow graphs, callees, places with field names, variants, and types.
"""
import json, functools, sys


def strip_generics(p):
    """Drops generic arguments from a rustc path ("a::B::<'gc, C>::f" -> "a::B::f")."""
    out, depth, i, n = [], 0, 0, len(p)
    # a leading "<T as Trait>::f" is kept as a bracket, its insides are stripped
    while i < n:
        c = p[i]
        if c == '<':
            qualified = (i == 0) or (depth == 0 and (out == [] or ''.join(out[-2:]) in ('& ',)))
            if qualified:
                # find matching '>'
                d, j = 0, i
                while j < n:
                    if p[j] == '<': d += 1
                    elif p[j] == '>' and p[j - 1] != '-':
                        d -= 1
                        if d == 0: break
                    j += 1
                inner = p[i + 1:j]
                out.append('<' + _strip_as(inner) + '>')
                i = j + 1
                continue
            d, j = 0, i
            while j < n:
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            if ''.join(out[-2:]) == '::':
                inner = p[i + 1:j]
                if inner.startswith('impl '):   # "mod::<impl Trait for T>::f"
                    out.append('<' + inner + '>')
                    i = j + 1
                    continue
                out.pop(); out.pop() if out and out[-1] == ':' else None
                if out and out[-1] == ':': out.pop()
            i = j + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def _split_top(s, sep):
    d = 0
    for i in range(len(s) - len(sep) + 1):
        c = s[i]
        if c in '<([': d += 1
        elif c in ')]' or (c == '>' and s[i - 1] != '-'): d -= 1
        elif d == 0 and s[i:i + len(sep)] == sep: return s[:i], s[i + len(sep):]
    return None


def _strip_as(inner):
    sp = _split_top(inner, ' as ')
    if sp is None: return strip_ty(inner)
    return strip_ty(sp[0]) + ' as ' + strip_ty(sp[1])


def strip_ty(t):
    """Head of a type, generics removed; references and slices kept as prefixes."""
    t = t.strip()
    if t.startswith("&"):
        u = t[1:].lstrip()
        if u.startswith("'"):
            u = u.split(' ', 1)[1] if ' ' in u else u
        if u.startswith('mut '): return '&mut ' + strip_ty(u[4:])
        return '&' + strip_ty(u)
    i = t.find('<')
    return t if i < 0 or t.startswith('<') or t.startswith('(') or t.startswith('[') else t[:i].rstrip(':')


def ty_args(t):
    """Top-level generic arguments of a type string (lifetimes dropped)."""
    i = t.find('<')
    if i < 0: return []
    d, j = 0, i
    while j < len(t):
        if t[j] in '<([': d += 1
        elif t[j] in ')]' or (t[j] == '>' and t[j - 1] != '-'):
            d -= 1
            if d == 0: break
        j += 1
    s, out, d, cur = t[i + 1:j], [], 0, ''
    for k, c in enumerate(s):
        if c in '<([': d += 1
        elif c in ')]' or (c == '>' and s[k - 1] != '-'): d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


class Callee:
    __slots__ = ('path', 'rpath', 'local', 'trait', 'method', 'args', 'rargs', 'implty', 'kind', 'crate', 'unsafe')

    def __init__(self, j):
        self.crate = j.get('rcr') or j.get('cr')
        self.unsafe = j.get('u', False)
        self.path = strip_generics(j['d'])
        self.rpath = strip_generics(j['r']) if 'r' in j else self.path
        self.local = j.get('l')
        self.trait = strip_ty(j['tr']) if 'tr' in j else None
        self.method = j.get('m') or self.path.rsplit('::', 1)[-1]
        self.args = j.get('a', [])
        self.rargs = j.get('ra', self.args)
        self.implty = j.get('ia')
        self.kind = j.get('k')

    def __repr__(self): return self.rpath


class Block:
    __slots__ = ('cleanup', 'stmts', 'term')

    def __init__(self, j):
        self.cleanup, self.stmts, self.term = j['c'], j['s'], j['t']


class Fn:
    def __init__(self, j):
        self.j = j
        self.id = j['id']
        self.rawpath = j['path']
        self.path = strip_generics(j['path'])
        if '::promoted[' in self.id: self.path += self.id[self.id.rindex('::promoted['):]
        self.kind = j['kind']
        self.file, self.line = j['file'], j['line']
        self.nargs = j['args']
        self.locals = j['locals']
        self.root = j.get('root')
        self.trait = j.get('trait')
        self.traitref = j.get('traitref')
        self.selfty = j.get('self')
        self.selfadt = j.get('selfadt')
        self.method = j.get('m')
        self.pub = j.get('pub', False)
        self.derived = j.get('derived', False) or bool(j.get('mac'))
        self.coroutine = j.get('coroutine', False)
        self.promoted = j.get('promoted', False)
        self.out = j.get('out')
        self.inputs = j.get('in')
        self.blocks = [Block(b) for b in j['blocks']]
        self._succ = self._live = None
        self.callees = {}
        for bi, b in enumerate(self.blocks):
            if b.term[0] == 'call' and b.term[1][0] == 'c' and 'fn' in b.term[1][1]:
                self.callees[bi] = Callee(b.term[1][1]['fn'])

    def __repr__(self): return self.path

    @property
    def names(self):
        return {n: p for n, p in self.j['names']}

    def local_name(self, l):
        for n, p in self.j['names']:
            if p == [l]: return n
        return None

    def succ(self, bi):
        """Normal (non-unwinding) successors."""
        t = self.blocks[bi].term
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[3]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        if k == 'yield': return [t[2]]
        return []

    @functools.cached_property
    def preds(self):
        p = {i: [] for i in range(len(self.blocks))}
        for i in range(len(self.blocks)):
            for s in self.succ(i): p[s].append(i)
        return p

    @functools.cached_property
    def reachable(self):
        seen, todo = set(), [0]
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b); todo.extend(self.succ(b))
        return seen

    @functools.cached_property
    def live_in(self):
        """Locals live on entry to each block (classic backward dataflow)."""
        n = len(self.blocks)
        use, deff = [set() for _ in range(n)], [set() for _ in range(n)]

        def u(s, d, l):
            if l not in d: s.add(l)

        def uplace(s, d, p):
            u(s, d, p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i': u(s, d, e[1])

        def uop(s, d, o):
            if o[0] in 'ym': uplace(s, d, o[1])

        def urv(s, d, r):
            k = r[0]
            if k in ('use', 'repeat'): uop(s, d, r[1])
            elif k == 'ref': uplace(s, d, r[2])
            elif k == 'cast': uop(s, d, r[2])
            elif k == 'bin': uop(s, d, r[2]); uop(s, d, r[3])
            elif k == 'un': uop(s, d, r[2])
            elif k == 'discr': uplace(s, d, r[1])
            elif k == 'agg':
                for o in r[2]: uop(s, d, o)

        def dplace(s, d, p):
            if len(p) == 1: d.add(p[0])
            else: uplace(s, d, p)

        for bi, b in enumerate(self.blocks):
            s, d = use[bi], deff[bi]
            for st in b.stmts:
                if st[0] == '=': urv(s, d, st[2]); dplace(s, d, st[1])
                elif st[0] == 'sd': uplace(s, d, st[1])
                elif st[0] == 'dead': d.add(st[1])
            t = b.term
            if t[0] == 'switch': uop(s, d, t[1])
            elif t[0] == 'drop': uplace(s, d, t[1])
            elif t[0] == 'call':
                uop(s, d, t[1]) if t[1][0] in 'ym' else None
                for o in t[2]: uop(s, d, o)
                dplace(s, d, t[3])
            elif t[0] == 'assert': uop(s, d, t[1])
            elif t[0] == 'return': u(s, d, 0)
            elif t[0] == 'yield': uop(s, d, t[1]); dplace(s, d, t[3])
        live = [set() for _ in range(n)]
        changed = True
        order = list(range(n))[::-1]
        while changed:
            changed = False
            for bi in order:
                o = set()
                for sc in self.succ(bi): o |= live[sc]
                ni = use[bi] | (o - deff[bi])
                if ni != live[bi]: live[bi] = ni; changed = True
        return live

    def loc(self, sp=None):
        line = sp[0] if isinstance(sp, list) else sp
        return f"{self.file}:{line if line is not None else self.line}"


class Program:
    def __init__(self, path):
        j = json.load(open(path))
        self.crate = j['crate']
        self.unsafe_code = j['unsafe_code']
        self.crates = j.get('crates', [])
        self.unsafe_sites = j.get('unsafe_sites', [])
        self.fns = [Fn(f) for f in j['fns']]
        self.by_id = {f.id: f for f in self.fns}
        self.by_path = {}
        for f in self.fns: self.by_path.setdefault(f.path, []).append(f)
        self.adts = {}
        for name, a in j['adts'].items(): self.adts[strip_ty(name)] = a
        self.impls = j['impls']
        self._discr = {}

    def fn(self, path):
        fs = self.by_path.get(path, [])
        return fs[0] if len(fs) == 1 else None

    def variant_of(self, adt, val):
        """Variant name with discriminant value `val` (a decimal string, as in SwitchInt)."""
        key = strip_ty(adt)
        d = self._discr.get(key)
        if d is None:
            a = self.adts.get(key)
            d = {v[1]: v[0] for v in a['vs']} if a else {}
            self._discr[key] = d
        return d.get(val)

    def variants(self, adt):
        a = self.adts.get(strip_ty(adt))
        return [v[0] for v in a['vs']] if a else None

    def fields(self, adt, variant=None):
        a = self.adts.get(strip_ty(adt))
        for v in a['vs']:
            if variant is None or v[0] == variant: return [(f[0], f[1]) for f in v[2]]
        return None

    def closures_of(self, fn):
        return [f for f in self.fns if f.root == fn.id or (f.root == fn.root and fn.root)]

    @functools.cached_property
    def callgraph(self):
        """fn id -> set of local fn ids it may call, including closures it creates."""
        g = {}
        for f in self.fns:
            s = set()
            for b in f.blocks:
                for st in b.stmts:
                    if st[0] == '=':
                        collect_fn_refs(st[2], s)
                t = b.term
                if t[0] == 'call':
                    collect_fn_refs(t[1], s)
                    for a in t[2]: collect_fn_refs(a, s)
            g[f.id] = {x for x in s if x in self.by_id}
        return g

    def reach(self, ids):
        seen, todo = set(), list(ids)
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x); todo.extend(self.callgraph.get(x, ()))
        return seen

    @functools.cached_property
    def callers(self):
        r = {}
        for a, bs in self.callgraph.items():
            for b in bs: r.setdefault(b, set()).add(a)
        return r


def collect_fn_refs(x, out):
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], dict) and x['fn'].get('l'): out.add(x['fn']['l'])
        if x.get('k') in ('closure', 'coroutine'): out.add(x['id'])
        if 'clo' in x: out.add(x['clo'])
        if 'pr' in x and 'prf' in x: out.add(f"{x['prf']}::promoted[{x['pr']}]")
        for v in x.values(): collect_fn_refs(v, out)
    elif isinstance(x, list):
        for v in x: collect_fn_refs(v, out)


# ---------------------------------------------------------------- pretty printer

def pplace(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e == '*': s = f"(*{s})"
        elif e == '?': s += '?'
        elif e[0] == 'f': s += '.' + e[2]
        elif e[0] == 'v': s += f"@{e[1]}"
        elif e[0] == 'i': s += f"[_{e[1]}]"
        else: s += str(e)
    return s


def pop(o):
    if o[0] == 'y': return pplace(o[1])
    if o[0] == 'm': return 'move ' + pplace(o[1])
    c = o[1]
    if 'fn' in c: return Callee(c['fn']).rpath
    if 's' in c: return json.dumps(c['s'])
    for k in ('b', 'i', 'f', 'clo', 'txt'):
        if k in c: return f"const {c[k]}" + (f"<{c['def']}>" if 'def' in c else '')
    return str(c)


def prv(r):
    k = r[0]
    if k == 'use': return pop(r[1])
    if k == 'ref': return f"&{r[1]} {pplace(r[2])}"
    if k == 'bin': return f"{r[1]}({pop(r[2])}, {pop(r[3])})"
    if k == 'un': return f"{r[1]}({pop(r[2])})"
    if k == 'cast': return f"{pop(r[2])} as {r[4]} [{r[1]}]"
    if k == 'discr': return f"discr({pplace(r[1])})"
    if k == 'agg':
        a = r[1]
        n = (strip_ty(a['adt']) + ('::' + a['v'] if a['v'] else '')) if a['k'] == 'adt' else a['k'] + (':' + a['id'] if 'id' in a else '')
        return f"{n}{{{', '.join(map(pop, r[2]))}}}"
    return str(r)


def show(f, cleanup=False, blocks=None, file=sys.stdout):
    print(f"fn {f.path} [{f.id}] {f.file}:{f.line} args={f.nargs}", file=file)
    for i, b in enumerate(f.blocks):
        if b.cleanup and not cleanup: continue
        if blocks is not None and i not in blocks: continue
        print(f" bb{i}:", file=file)
        for s in b.stmts:
            if s[0] == '=': print(f"    {pplace(s[1])} = {prv(s[2])}   // {s[3]}", file=file)
            elif s[0] == 'sd': print(f"    setdiscr {pplace(s[1])} {s[2]}", file=file)
        t = b.term
        if t[0] == 'call': print(f"    {pplace(t[3])} = CALL {pop(t[1])}({', '.join(map(pop, t[2]))}) -> bb{t[4]}   // {t[6]}", file=file)
        elif t[0] == 'switch': print(f"    switch {pop(t[1])} {t[3]} else bb{t[4]}  // {t[5]}", file=file)
        elif t[0] == 'drop': print(f"    drop {pplace(t[1])} : {t[2]} -> bb{t[3]}", file=file)
        else: print(f"    {t}", file=file)


if __name__ == '__main__':
    p = Program(sys.argv[1])
    for f in p.fns:
        if sys.argv[2] == f.path or sys.argv[2] == f.id: show(f)

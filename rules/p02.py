"""P02: the operand stack stays balanced through the code generated for every block."""
from compile import *
from base import Missing


class Flow:
    """Depth dataflow over one template."""
    def __init__(self, eff, b, ty, variant, t, c, holefill):
        self.eff, self.b, self.ty, self.variant, self.t, self.c, self.holefill = eff, b, ty, variant, t, c, holefill
        self.problems = []
        self.edges = 0
        self.subst = {}
        self.graphs = []          # one per region: (items, {n: successors}, {n: state})

    def norm(self, d):
        out = {}
        for k, n in d.items():
            k = self.sym(k)
            out[k] = out.get(k, 0) + n
            if out[k] == 0: del out[k]
        return out

    def sym(self, k):
        if k and k[0] == 'alen': return ('alen', canon(self.b, self.ty, self.variant, k[1])[0])
        return self.subst.get(k, k)

    def region(self, items, start, end, h0):
        """Analyses items laid out over event positions [start, end); returns {exit facts}: set of (depth, handlers, warp) at `end`."""
        pos = {i: n for n, (i, it) in enumerate(items)}
        ev = self.t.events
        def at(k):
            """index of the item at or after event k"""
            for n, (i, it) in enumerate(items):
                if i >= k: return n
            return len(items)
        state = {}
        work = [(0, (lt({}), 0, ()))]
        outs = set()
        seen = set()
        graph = {}
        self.graphs.append((items, graph, state))
        while work:
            n, s = work.pop()
            if (n, s) in seen: continue
            seen.add((n, s))
            if len(seen) > 4000: self.problems.append(('grow', 'the operand stack grows along a loop of the generated code')); return outs
            if n in state and state[n] != s:
                other = state[n]
                what = 'operand stack' if other[0] != s[0] else 'error handlers' if other[1] != s[1] else 'warp nesting'
                self.problems.append(('join', f'{what} differs where two paths of the generated code meet ({self.show(other)} / {self.show(s)}) before {self.name(items, n)}'))
                continue
            state[n] = s
            if n == len(items):
                outs.add(s)
                continue
            i, it = items[n]
            d, h, w = dict(s[0]), s[1], dict(s[2])
            for need, succ in self.succs(i, it, d):
                self.edges += 1
                for nd in need:
                    left = ladd(d, self.norm(nd), -1)
                    if not nonneg(left): self.problems.append(('under', f'{self.name(items, n)} uses operands this block did not push ({self.lin(nd)} needed, {self.lin(d)} there)'))
                for kind, net, dh, dw in succ:
                    if net is None: self.problems.append(('unknown', f'the effect of {self.name(items, n)} on the operand stack cannot be determined')); continue
                    nd = ladd(d, self.norm(net))
                    nh, nw = h + dh, dict(w)
                    for f, x in dw: nw[f] = nw.get(f, 0) + x
                    ns = (lt(nd), nh, tuple(sorted((k, v) for k, v in nw.items() if v)))
                    if not nonneg(nd): self.problems.append(('under', f'{self.name(items, n)} leaves fewer operands than before the block'))
                    if nh < 0: self.problems.append(('handler', f'{self.name(items, n)} removes an error handler this block did not install'))
                    if any(v < 0 for v in nw.values()): self.problems.append(('warp', f'{self.name(items, n)} leaves a warp this block did not enter'))
                    if kind == 'next': work.append((n + 1, ns)); graph.setdefault(n, set()).add(n + 1)
                    elif kind == 'end': pass
                    elif kind[0] == 'jump':
                        k = resolve(ev, kind[1])
                        if k is None: self.problems.append(('jump', f'the target of {self.name(items, n)} is not a position of this block')); continue
                        if not (start <= k <= end): self.problems.append(('jump', f'{self.name(items, n)} jumps out of a repeated input')); continue
                        m = at(k)
                        if m < len(items) and items[m][0] != k and self.inside(items, k): self.problems.append(('jump', f'{self.name(items, n)} jumps into a repeated input')); continue
                        work.append((m, ns)); graph.setdefault(n, set()).add(m)
        return outs

    def inside(self, items, k):
        for i, it in items:
            if it[0] == 'for' and i < k:
                last = max((x for x, _ in flat(it[2])), default=i)
                if k <= last: return True
        return False

    def succs(self, i, it, d):
        if it[0] == 'child':
            net = {} if it[1] == 'stmt' else {'': 1}
            return [((), [('next', net, 0, ())])]
        if it[0] == 'for':
            ev = self.t.events
            end = max([x for x, _ in flat(it[2])] + [i]) + 1
            outs = self.region(it[2], i + 1, end, 0)
            res = []
            for (nd, nh, nw) in outs:
                nd = dict(nd)
                if nh or nw: self.problems.append(('handler', 'error handlers or warp nesting change with each repeated input'))
                if set(nd) - {''}: self.problems.append(('unknown', 'nested repeated inputs')); continue
                k = nd.get('', 0)
                sym = self.sym(('alen', it[1]))
                res.append(('next', {sym: k} if k else {}, 0, ()))
            return [((), res or [])]
        if it[0] == 'hole':
            if it[1] is None: return [((), [('next', {}, 0, ())])]
            ins = self.holefill.get(it[1][0])
            if ins is None: return [((), [('next', None, 0, ())])]
            return self.ins(ins)
        return self.ins(it[1])

    def ins(self, v):
        effs, needs = self.eff.of(self.prep(v))
        succ = []
        for e in effs:
            net = dict(e.net) if e.net is not None else None
            if e.kind == 'bad': succ.append(('next', None, 0, ()))
            elif e.kind == 'end': succ.append(('end', {}, 0, ()))
            else: succ.append((e.kind, net, e.hnd, e.warp))
            if e.kind == 'next' and e.hnd > 0:
                # an error inside the protected code resumes at the handler with the stack as it is here (P05)
                for n, o in zip(v[4], v[3]):
                    if o[0] in ('pos', 'bin'): succ.append((('jump', o), net, e.hnd, e.warp))
        return [(needs, succ)]

    def prep(self, v):
        """Operands as the interpreter will see them: token lists become symbolic sequences."""
        ops = []
        for x in v[3]:
            if x[0] == 'joined': ops.append(('tokens', lt(self.norm(self.tokcount(x[1])))))
            else: ops.append(x)
        return v[:3] + (tuple(ops), v[4])

    def tokcount(self, j):
        n, mult, stack = {}, [], []
        for e in self.t.events:
            if e[0] == 'for': stack.append(e[1])
            elif e[0] == 'end': stack.pop()
            elif e[0] == 'tok' and e[1] == j:
                if not stack: n = ladd(n, {'': 1})
                elif len(stack) == 1: n = ladd(n, {('alen', stack[0]): 1})
                else: n = ladd(n, {('tok?', tuple(stack)): 1})
        return n

    def name(self, items, n):
        if n >= len(items): return 'the end'
        it = items[n][1]
        if it[0] == 'child': return f'input {it[2]}'
        if it[0] == 'for': return f'the inputs {it[1]}'
        if it[0] == 'hole': return 'a reserved instruction'
        return it[1][2]

    def lin(self, d): return ' + '.join((f'{c}*' if c != 1 else '') + (str(k[1]) if k and isinstance(k, tuple) and len(k) > 1 else '') if k else str(c) for k, c in sorted(d.items(), key=repr)) or '0'
    def show(self, s): return f'{self.lin(dict(s[0]))} operands, {s[1]} handlers'


def holefills(c, b, eff):
    """What the linker writes into each kind of reserved position: {field: instruction}; also checks the linker."""
    import link
    return link.fills(c, b)


def flows(c, b, eff, fills, count=True, shapes=False):
    """Every distinct accepted template of every block kind with its dataflow solved."""
    p = b.p
    for ty, K, want in ((EXPR, AST + 'ExprKind', 1), (STMT, AST + 'StmtKind', 0), (AVAL, AVAL, 1)):
        f, i = b.entry[ty]
        for v in p.variants(K):
            rule, sim, ts = templates(b, ty, v)
            for t in unique(ts, shapes):
                if not t.ok: continue
                fl = Flow(eff, b, ty, v, t, c, dict(fills))
                fl.subst.update(call_params(b, ty, v))
                items, probs = layout(t)
                fl.problems += probs
                fl.items = items
                fl.outs = fl.region(items, 0, len(t.events), 0)
                yield ty, K, v, f, t, fl


def check(c):
    p = c.p
    b = Builder(p)
    eff = Effects(p, c)
    c.rule('depth, handler and warp dataflow over the generated code of every block kind; the effect of each instruction is derived from the interpreter')
    fills = holefills(c, b, eff)
    for ty, K, want in ((EXPR, AST + 'ExprKind', 1), (STMT, AST + 'StmtKind', 0), (AVAL, AVAL, 1)):
        f, i = b.entry[ty]
        nk = 0
        for v in p.variants(K):
            rule, sim, ts = templates(b, ty, v)
            c.count('compiler paths', len(ts))
            kinds = 0
            for t in unique(ts):
                if not t.ok: continue
                kinds = 1
                fl = Flow(eff, b, ty, v, t, c, dict(fills))
                fl.subst.update(call_params(b, ty, v))
                items, probs = layout(t)
                fl.problems += probs
                outs = fl.region(items, 0, len(t.events), 0)
                c.count('generated paths', len(outs))
                c.count('control-flow edges', fl.edges)
                c.count('instructions', sum(1 for _, it in flat(items) if it[0] == 'ins'))
                for d, h, w in outs:
                    if dict(d) != ({'': 1} if want else {}):
                        fl.problems.append(('depth', f'leaves {fl.lin(dict(d))} operands instead of {want}'))
                    if h: fl.problems.append(('handler', f'leaves {h} error handlers installed'))
                    if w: fl.problems.append(('warp', 'enters warp without leaving it'))
                if not outs and not ends(items): fl.problems.append(('depth', 'no path through the generated code reaches its end'))
                for k, msg in fl.problems:
                    c.violation(f'{short(K)}::{v}:{k}', f'{short(K)}::{v}{" (" + t.shape + ")" if t.shape else ""}: {msg}', f.loc(f.line), [f.path])
            nk += kinds
        c.count('block kinds', nk)
        c.count(f"{short(K)} kinds compiled", nk); c.floor(f"{short(K)} kinds compiled", {EXPR: 90, STMT: 60, AVAL: 5}[ty])
        c.sample(f'{short(K)}: {nk} kinds')
    layouts(c, b, eff)
    c.assume('a function call block has as many inputs as the function it names has parameters (the parser pairs them)')
    c.assume('System::send_message returns a reply key exactly when a reply is expected (checked for the built-in system by P32)')


class Ev:
    def __init__(self, ev): self.events, self.shape = ev, ''


def layouts(c, b, eff):
    import link
    seen = set()
    for f, ev, n, owner in link.layouts(c, b, eff):
        d, j = 0, n
        while j < len(ev):
            if ev[j][0] == 'for': d += 1
            elif ev[j][0] == 'end':
                if d == 0: break
                d -= 1
            j += 1
        part = ev[n:j]
        if (owner, part) in seen: continue
        seen.add((owner, part))
        c.count('scripts laid out')
        t = Ev(part)
        fl = Flow(eff, b, None, None, t, c, {})
        fl.sym = lambda k: k
        items, probs = layout(t)
        fl.problems += probs
        outs = fl.region(items, 0, len(part), 0)
        who = '/'.join(owner) or '?'
        if outs: fl.problems.append(('falls', 'the code of a script can run on into the code that follows it'))
        kids = [it for _, it in flat(items) if it[0] == 'child']
        if not kids: fl.problems.append(('empty', 'the recorded start position is not followed by the statements of that script'))
        if not any(it[2].startswith(o) for it in kids for o in owner): fl.problems.append(('owner', f'the recorded start position is followed by the code of {[it[2] for it in kids]}'))
        for k, msg in fl.problems: c.violation(f'layout:{who}:{k}', f'{who}: {msg}', f.loc(f.line), [f.path])
    c.floor('scripts laid out', 4)


def short(K): return K.rsplit('::', 1)[-1]


def ends(items):
    return any(it[0] == 'ins' and it[1][2] in ('Return', 'Throw', 'Abort', 'Jump') for _, it in flat(items))


def call_params(b, ty, v):
    """{parameter-count symbol: number of arguments in this block}"""
    K = {EXPR: AST + 'ExprKind', STMT: AST + 'StmtKind', AVAL: AVAL}[ty]
    fs = b.p.fields(K, v)
    if not any(strip_ty(t).endswith('FnRef') for _, t in fs): return {}
    a = [n for n, t in fs if strip_ty(t).endswith('Vec') and strip_ty(ty_args(t)[0]) == EXPR]
    return {('nparams',): ('alen', a[0])} if len(a) == 1 else {}

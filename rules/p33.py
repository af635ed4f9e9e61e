"""P33: host threads never wait while holding a lock, and locks nest in one order."""
import re, functools
from h import *

GUARD = re.compile(r'(Mutex|RwLock|FairMutex)\w*Guard<')
LOCK = re.compile(r'(^|::)(Mutex|RwLock|ReentrantMutex|FairMutex|lock_api::\w+)(::<[^>]*>)?::(lock|read|write|lock_arc|blocking_lock|blocking_read|blocking_write|upgradable_read)$')
OUTSIDE = ('reqwest', 'hyper', 'tokio', 'actix', 'crossterm', 'futures', 'tungstenite', 'mio', 'h2', 'async_std', 'awc')


def holds(ty): return not ty.startswith(('&', '*')) and bool(GUARD.search(ty)) and not ty.startswith('{')


def waits(cl):
    """Why a call may wait for something outside this thread, if it may."""
    r, m, a = cl.rpath, cl.method, cl.args
    head = r.lstrip('<').split('::')[0]
    if r.startswith(('std::thread', 'core::thread')) and m in ('sleep', 'sleep_ms', 'sleep_until', 'park', 'park_timeout', 'join', 'scope'): return 'waits for a thread or a timer'
    if 'mpsc' in r or 'channel' in r:
        if m in ('recv', 'recv_timeout', 'recv_deadline', 'iter', 'blocking_recv', 'blocking_send', 'select'): return 'waits for a message'
        if 'SyncSender' in r and m == 'send': return 'waits for room in a channel'
    if m == 'next' and any('mpsc::Iter' in x or 'mpsc::IntoIter' in x for x in a): return 'waits for a message'
    if ('Condvar' in r or 'Barrier' in r or 'Latch' in r) and m.startswith('wait'): return 'waits for another thread'
    if m == 'block_on': return 'waits for a future'
    if r.startswith('std::io::error') or 'io::Error' in r: return None
    if r.startswith(('std::fs', 'std::net', 'std::process::Command', 'std::process::Child', '<std::fs', '<std::net')): return 'waits for the operating system'
    if r.startswith(('std::io::', '<std::io::')): return 'waits for the terminal' if 'Cursor' not in r else None
    if cl.trait and cl.trait.rsplit('::', 1)[-1] in ('Write', 'Read', 'BufRead', 'Seek') and '::io::' in cl.trait and a and not a[0].startswith(('std::vec', 'alloc::vec', 'std::string', '&mut std::vec')): return 'waits for a stream'
    if head in OUTSIDE: return 'waits for the network' if head != 'crossterm' else 'waits for the terminal'
    return None


def user(cl):
    """Does the call run code of the embedding program?"""
    if cl.trait and cl.trait.startswith('core::ops::Fn') and cl.args:
        t = cl.args[0].lstrip('&').replace('mut ', '')
        return 'dyn ' in t or re.fullmatch(r'\w+', t) is not None or t.startswith('fn(')
    return False


class Locks:
    def __init__(self, p):
        self.p = p
        self.f_edges, self.f_facts, self.f_reach = {}, {}, {}
        self.clos = {}
        self.impls = {}
        for g in p.fns:
            if g.trait and g.method and not g.promoted: self.impls.setdefault((g.trait, g.method), []).append(g)

    def closures(self, f):
        """Local -> closure it holds, through copies, boxes and references."""
        if f.id in self.clos: return self.clos[f.id]
        m = {}
        for _ in range(3):
            for bi, b in enumerate(f.blocks):
                for s in b.stmts:
                    if s[0] != '=' : continue
                    l, r = s[1][0], s[2]
                    got = set()
                    if r[0] == 'agg':
                        if r[1]['k'] == 'closure': got.add(r[1]['id'])
                        for o in r[2]: got |= self.of(m, o)
                    elif r[0] in ('use',): got |= self.of(m, r[1])
                    elif r[0] == 'cast': got |= self.of(m, r[2])
                    elif r[0] == 'ref': got |= m.get(r[2][0], set())
                    if got: m.setdefault(l, set()).update(got)
                t = b.term
                if t[0] == 'call' and bi in f.callees and f.callees[bi].method in ('new', 'clone', 'into', 'from', 'pin', 'deref', 'as_ref') and not f.callees[bi].local:
                    got = set()
                    for o in t[2]: got |= self.of(m, o)
                    if got: m.setdefault(t[3][0], set()).update(got)
        self.clos[f.id] = m
        return m

    def of(self, m, o):
        if o[0] in 'my': return m.get(o[1][0], set())
        c = o[1]
        if isinstance(c, dict):
            if 'clo' in c: return {c['clo']}
            if 'fn' in c and isinstance(c['fn'], dict) and c['fn'].get('l'): return {c['fn']['l']}
        return set()

    def runs(self, f, bi):
        """Functions of the crate a call may run in this thread."""
        out = set()
        cl = f.callees.get(bi)
        t = f.blocks[bi].term
        if cl is not None:
            if 'spawn' in cl.method: return out
            if cl.local: out.add(cl.local)
            elif cl.trait and cl.method and cl.args:
                # a method of a type parameter may be any implementation in the crate
                for g in self.impls.get((cl.trait, cl.method), ()):
                    if re.fullmatch(r'\w+', cl.args[0].lstrip('&')) or g.selfadt and strip_ty(cl.args[0]) == strip_ty(g.selfadt): out.add(g.id)
        else: out |= self.of(self.closures(f), t[1])
        for o in t[2]: out |= self.of(self.closures(f), o)
        return {i for i in out if i in self.p.by_id}

    def live(self, f):
        for bi in f.callees:
            if bi in f.reachable and not f.blocks[bi].cleanup: yield bi, f.callees[bi]

    def name(self, f, op, seen=None):
        """The place a lock is found in: its field, static or parameter."""
        seen = set() if seen is None else seen
        if op[0] not in 'my':
            return str(op[1].get('def', 'const')) if isinstance(op[1], dict) else 'const'
        pl = op[1]
        fs = [e[2] for e in pl[1:] if isinstance(e, list) and e[0] == 'f']
        if fs: return fs[-1]
        l = pl[0]
        if l in seen: return '?'
        seen.add(l)
        got = set()
        for bi, b in enumerate(f.blocks):
            if b.cleanup: continue
            for s in b.stmts:
                if s[0] == '=' and s[1] == [l]:
                    r = s[2]
                    if r[0] == 'ref': got.add(self.name(f, ['y', r[2]], seen))
                    elif r[0] == 'use': got.add(self.name(f, r[1], seen))
                    elif r[0] == 'cast': got.add(self.name(f, r[2], seen))
            t = b.term
            if t[0] == 'call' and t[3] == [l] and t[2]: got.add(self.name(f, t[2][0], seen))
        got.discard('?')
        if len(got) == 1: return got.pop()
        if l <= f.nargs: return f.local_name(l) or '?'
        return '?'

    def ident(self, f, bi):
        cl = f.callees[bi]
        return (cl.args[0] if cl.args else '?', self.name(f, f.blocks[bi].term[2][0]))

    def facts(self, i):
        """(locks taken, reasons to wait) in one function itself."""
        if i in self.f_facts: return self.f_facts[i]
        f = self.p.by_id[i]
        lk, w = set(), set()
        for bi, cl in self.live(f):
            if LOCK.search(cl.rpath): lk.add(self.ident(f, bi))
            r = waits(cl)
            if r: w.add((r, f.loc(f.blocks[bi].term[6]), f.path))
            elif user(cl) and not self.runs(f, bi): w.add(('runs code it was given', f.loc(f.blocks[bi].term[6]), f.path))
        if any(b.term[0] == 'yield' for k, b in enumerate(f.blocks) if not b.cleanup and k in f.reachable): w.add(('waits for a future', f.loc(), f.path))
        self.f_facts[i] = lk, w
        return lk, w

    def reach(self, ids):
        seen, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            if i not in self.f_edges:
                f = self.p.by_id[i]
                e = set()
                for bi, b in enumerate(f.blocks):
                    if b.term[0] == 'call' and not b.cleanup and bi in f.reachable: e |= self.runs(f, bi)
                self.f_edges[i] = e
            todo += self.f_edges[i]
        return seen

    def held(self, f):
        """Locks held before each block's terminator: forward may-analysis over (local, lock)."""
        n = len(f.blocks)
        inn = {0: frozenset()}
        work = [0]
        at = {}
        def take(st, o):
            """Moves an operand out; returns what it held."""
            if o[0] != 'm': return st, set()
            got = {k for l, k in st if l == o[1][0]}
            if len(o[1]) > 1 and not holds_part(f, o[1]): return st, set()
            return frozenset(x for x in st if x[0] != o[1][0]), got
        while work:
            bi = work.pop()
            st = inn[bi]
            b = f.blocks[bi]
            for s in b.stmts:
                if s[0] == 'dead': st = frozenset(x for x in st if x[0] != s[1])
                if s[0] != '=': continue
                r = s[2]
                ops = [r[1]] if r[0] == 'use' else r[2] if r[0] == 'agg' else [r[2]] if r[0] == 'cast' else []
                got = set()
                for o in ops:
                    st, g = take(st, o)
                    got |= g
                if got: st = st | {(s[1][0], k) for k in got}
            t = b.term
            at[bi] = st
            out = st
            if t[0] == 'drop': out = frozenset(x for x in st if x[0] != t[1][0]) if len(t[1]) == 1 or holds_part(f, t[1]) else st
            elif t[0] == 'call':
                got = set()
                for o in t[2]:
                    out, g = take(out, o)
                    got |= g
                cl = f.callees.get(bi)
                if t[4] is not None and holds(f.locals[t[3][0]]):
                    if cl is not None and LOCK.search(cl.rpath) or cl is not None and cl.method.startswith('try_') and 'Guard' in f.locals[t[3][0]] and not got: got.add(self.ident(f, bi))
                    elif not got:
                        for i in self.reach(self.runs(f, bi)): got |= self.facts(i)[0]
                    out = frozenset(x for x in out if x[0] != t[3][0] or len(t[3]) > 1) | {(t[3][0], k) for k in got}
            for s in f.succ(bi):
                new = inn.get(s)
                m = out if new is None else new | out
                if new is None or m != new:
                    inn[s] = m
                    work.append(s)
        return at


def holds_part(f, pl): return holds(f.locals[pl[0]])


def show(k): return f'`{k[1]}` ({re.sub(r"[a-z_]+::", "", k[0])})'


def check(c):
    c.rule('while a lock guard is live, nothing is called (or awaited) that waits for a channel, thread, timer, stream or the network, or that runs code of the embedding program, and the lock itself is not taken again')
    c.rule('where a lock is taken under another one, the order is the same everywhere')
    order = {}
    for p in (c.p, c.nb):
        lk = Locks(p)
        for f in p.fns:
            if f.promoted: continue
            sites = [bi for bi, cl in lk.live(f) if LOCK.search(cl.rpath)]
            if p is c.p: c.count('locks taken', len(sites))
            if not sites and not any(holds(t) for t in f.locals): continue
            c.count('functions that hold a lock')
            name = f.path.lstrip('<').replace('{', '').replace('}', '').split('::', 1)[-1]
            at = lk.held(f)
            for bi, st in at.items():
                b = f.blocks[bi]
                if not st or b.cleanup: continue
                hs = {k for _, k in st}
                t = b.term
                if t[0] == 'yield':
                    for h in hs: c.violation(f'{name}:await:{h[1]}', f'`{f.path}` awaits while it holds {show(h)}', f.loc(t[-1] if isinstance(t[-1], list) else None))
                    continue
                if t[0] == 'return':
                    continue
                if t[0] != 'call': continue
                c.count('calls made while holding a lock')
                loc = f.loc(t[6])
                cl = f.callees.get(bi)
                if cl is not None and cl.rpath in ('core::mem::forget', 'core::mem::ManuallyDrop::new') or cl is not None and cl.method == 'leak':
                    moved = {k for l, k in st for o in t[2] if o[0] == 'm' and o[1][0] == l}
                    if moved: c.violation(f'{name}:leak', f'`{f.path}` never releases {show(sorted(moved)[0])}', loc)
                ran = lk.runs(f, bi)
                took, w = set(), set()
                if cl is not None:
                    if LOCK.search(cl.rpath): took.add(lk.ident(f, bi))
                    r = waits(cl)
                    if r: w.add((r, loc, f.path))
                if (cl is None or user(cl)) and not ran: w.add(('runs code it was given', loc, f.path))
                for i in lk.reach(ran):
                    a, x = lk.facts(i)
                    took |= a
                    w |= x
                for r, l2, g in sorted(w)[:1]:
                    h = sorted(hs)[0]
                    c.violation(f'{name}:{r.replace(" ", "-")}:{h[1]}', f'`{f.path}` {r} ({l2}) while it holds {show(h)}', loc)
                for k in took:
                    for h in hs:
                        if same(h, k): c.violation(f'{name}:again:{k[1]}', f'`{f.path}` takes {show(k)} while it may hold it already', loc)
                        else: order.setdefault((h, k), (f.path, loc))
    c.count('nested locks', len(order))
    nxt = {}
    for (a, b) in order: nxt.setdefault(a, set()).add(b)
    for (a, b), (fn, loc) in sorted(order.items()):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            todo += nxt.get(x, ())
        if a in seen: c.violation(f'order:{a[1]}:{b[1]}', f'`{fn}` takes {show(b)} under {show(a)}, and elsewhere the other way round', loc)
        else: c.sample(f'{show(a)} before {show(b)} ({fn})')
    c.floor('locks taken', 12)
    c.floor('functions that hold a lock', 9)
    c.floor('calls made while holding a lock', 40)
    c.assume('two locks are told apart by the field they are kept in and what they protect')
    c.assume('methods of plain data (collections, strings, numbers, random generators) do not wait')


def same(a, b): return a == b or a[0] == b[0] and '?' in (a[1], b[1])

"""The scheduler (`Project::step`, `Project::input`) as traces of what it does to its containers.

The code is followed with every function of its module inlined, for one generic script: each loop body
is taken exactly once, and a path is cut when it comes back to a loop it already went through, so a
trace is what one script experiences.  Containers are recognised by what they hold (slot map of
processes, queue of process keys, queue of start contexts, vector of scripts), not by names.
"""
from sim import *
from mir import strip_ty, ty_args
from base import Missing
from h import *
import models

PJ = 'project.rs'


def one(xs, what):
    xs = list(xs)
    if len(xs) != 1: raise Missing(what)
    return xs[0]


class Names:
    """Names of the scheduler's types and fields, found by type."""
    def __init__(self, p):
        self.p = p
        self.project = 'project::Project'
        if self.project not in p.adts: raise Missing('project::Project')
        self.scripts = one((n for n, t in self.allfields(self.project) if strip_ty(t).endswith('Vec')), 'the vector of scripts')
        self.script = strip_ty(ty_args(dict(self.allfields(self.project))[self.scripts])[0])
        fs = p.fields(self.script)
        self.f_entity = one((n for n, t in fs if 'Entity<' in t and 'Option' not in t), 'the entity of a script')
        self.f_process = one((n for n, t in fs if strip_ty(t).endswith('Option')), 'the running process of a script')
        self.f_queue = one((n for n, t in fs if 'VecDeque' in t), 'the queued starts of a script')
        self.f_event = one((n for n, t in fs if 'Event' in t), 'the event of a script')
        self.ctx = strip_ty(ty_args(dict(fs)[self.f_queue])[0])
        self.key = strip_ty(ty_args(dict(fs)[self.f_process])[0])

    def allfields(self, adt, seen=()):
        for n, t in self.p.fields(adt):
            yield n, t

    def container(self, callee):
        """'procs' | 'queue' | 'ctxs' | 'scripts' for a container method, by element type."""
        a = [strip_ty(x) for x in callee.args]
        h = callee.rpath
        if 'SlotMap' in h: return 'procs'
        if 'VecDeque' in h or (callee.trait and 'Extend' in callee.trait and a and 'VecDeque' in callee.args[0]):
            t = ' '.join(callee.args)
            if self.ctx in t: return 'ctxs'
            if self.key in t: return 'queue'
        if ('vec::Vec' in h or 'slice' in h or (callee.args and callee.args[0].startswith('alloc::vec::Vec'))) and any(self.script in x for x in callee.args): return 'scripts'
        return None


SCRIPTS = []


def intern(x):
    """A short name for a script (values nested too deeply are cut off)."""
    if x not in SCRIPTS: SCRIPTS.append(x)
    return ('script', ('no', SCRIPTS.index(x)))


def script_src(v):
    """How a script was reached."""
    if v[0][0] != 'V' or v[0][1][0] != 'script' or v[1] or v[0][1][1][0] != 'no': return None
    return SCRIPTS[v[0][1][1][1]]


ITERS, GOT = [], []


def short(it):
    """A short name for what is iterated over."""
    if it[0] != 'iter' or it[1][0] != 'ref': return it
    if it[1] not in ITERS: ITERS.append(it[1])
    return ('iter', ('itn', ITERS.index(it[1])))


def elem_src(v):
    """What v was produced from by iteration (None: not an element)."""
    r = []
    mentions(v, lambda x: x and x[0] == 'itn' and (r.append(ITERS[x[1]]) or True))
    return r[0] if r else None


STEP, MSG = ('stepres',), ('msg',)


class SchedRule(Plain):
    keep = True

    def __init__(self, prog):
        super().__init__(prog, only=PJ)
        self.n = Names(prog)
        self.stopped = []
        self.gone = set()

    def inline(self, sim, fn):
        return fn.file.endswith(PJ)

    def ev(self, st, *e): st.rs = st.rs + (e,)

    # -------- generic pieces
    def decide(self, sim, st, name, a, b, ne=False):
        """An equality test as a decision: both outcomes, remembered."""
        a, b = sorted((strip(a), strip(b)), key=repr)
        if a == b:
            self.ev(st, name, a, b, True)
            return [(st, ('c', 'b', not ne))]
        out = []
        for e in st.rs:
            if e[0] == name and e[1] == a and e[2] == b: return [(st, ('c', 'b', e[3] != ne))]
        for val in (True, False):
            s = st.copy()
            self.ev(s, name, a, b, val)
            out.append((s, ('c', 'b', val != ne)))
        return out

    def visit(self, st, site):
        """First visit of a loop head: produce one element; second: none."""
        n = sum(1 for e in st.rs if e[0] == 'loop' and e[1] == site)
        return n

    def alive(self, st, k):
        for e in reversed(st.rs):
            if e[0] == 'alive' and e[1] == k: return e[2]
            if e[0] == 'insert' and e[1] == k: return True
            if e[0] == 'remove':
                if e[1] == k: return False
                return None
            if e[0] == 'pclear': return False
            if e[0] == 'pretain': return True if any(d == (('eq',) + tuple(sorted((k, ('rk', e[1])), key=repr)) + (True,),) and b is True for d, b in e[2]) and self.alive_at(st, k, e) else None
        return None

    def alive_at(self, st, k, e):
        i = st.rs.index(e)
        return self.alive(St({}, {}, st.rs[:i]), k)

    def lookup(self, st, k, mk):
        a = self.alive(st, k)
        out = []
        for val in ((True, False) if a is None else (a,)):
            s = st.copy()
            if a is None: self.ev(s, 'alive', k, val)
            out.append((s, some(mk) if val else NONE))
        return out

    def table(self, sim, st, cx, clo, args, site):
        """Decision table of a predicate: {(decisions, outcome)}."""
        rows = set()
        n = len(st.rs)
        for s, v in sim.invoke(st.copy(), cx, clo, args, site):
            v = strip(v)
            rows.add((s.rs[n:], v[2] if v[0] == 'c' and v[1] == 'b' else None))
        return tuple(sorted(rows, key=repr))

    def on_assert(self, sim, st, cx, kind):
        if kind == 'unwrap': self.bad_unwrap(sim, st, cx)

    def bad_unwrap(self, sim, st, cx):
        if st.rs and st.rs[-1][0] in ('alive', 'ctxpop') and st.rs[-1][-1] is False: self.gone.add((st.rs, cx.fn.loc(cx.sp)))

    mode = 'quiet'          # no network message arrives; 'message': one arrives, stop at the run queue
    into_consume = False    # follow the function that starts queued scripts

    def proc_of(self, sim, st, v):
        v = strip(v)
        while v[0] == 'ref':
            b, pr = v[1]
            if pr or b[0] != 'V': v = strip(sim.read(st, v[1])); continue
            v = strip(b[1])
            if (('V', v), ()) in st.store: v = strip(st.store[(('V', v), ())])
        return v

    def script_of(self, sim, st, v):
        v = strip(v)
        return v[1] if v[0] == 'ref' else (('V', v), ())

    def on_branch(self, sim, st, cx, v, choice):
        if choice and choice[0] == 'is': choice = choice[1]
        if v[0] == 'fld' and choice in ('0', '1'): self.ev(st, 'flag', v[1], choice == '1')
        if v[0] == 'bin' and choice in ('0', '1') and any(x[0] == 'ctxlen' for x in v[2:4]):
            op, a, b = v[1], v[2], v[3]
            self.ev(st, 'len', op, a, b, choice == '1')
            if sum(1 for e in st.rs if e[0] == 'len') > 40: raise Budget('a queue that is measured over and over')

    def on_write(self, sim, st, cx, lv, val):
        if lv[1] and lv[1][-1] == ('f', self.n.f_process) and not lv[0][0] == 'L': self.ev(st, 'setproc', (lv[0], lv[1][:-1]), val)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m, p = callee.method, callee.rpath
        if m in ('eq', 'ne') and callee.trait and callee.trait.endswith('cmp::PartialEq') and len(args) == 2:
            return self.decide(sim, st, 'eq', deepread(sim, st, args[0]), deepread(sim, st, args[1]), m == 'ne')
        if m == 'ptr_eq' and len(args) == 2:
            return self.decide(sim, st, 'same', deepread(sim, st, args[0]), deepread(sim, st, args[1]))
        # loops: one generic element each
        if m == 'next' and callee.trait and callee.trait.endswith('Iterator') and not callee.local:
            it = sim.read(st, sim.deref(args[0]))
            return self.loop(sim, st, cx, it, site)
        if m == 'for_each' and callee.trait and callee.trait.endswith('Iterator') and not callee.local:
            out = []
            for s, v in self.loop(sim, st, cx, args[0], site):
                outs = [(s, None)] if v == NONE else sim.invoke(s, cx, args[1], (v[3][0],), site)
                for s2, _ in outs:
                    out += [(s3, UNIT) for s3, v3 in self.loop(sim, s2, cx, args[0], site) if v3 == NONE] if v != NONE else [(s2, UNIT)]
            return out
        if m in ('collect', 'extend') and args and self.over_scripts(args[-1]) and args[-1][0] == 'itermap' and any(self.n.script in a for a in callee.args):
            out = []
            for s, v in self.loop(sim, st, cx, args[-1], site):
                if v == NONE: out.append((s, ('madevec', site))); continue
                self.ev(s, 'newscript', 'local' if m == 'collect' else self.coll(sim, s, args[0]), strip(v[3][0]))
                out += [(s3, ('madevec', site) if m == 'collect' else UNIT) for s3, v3 in self.loop(sim, s, cx, args[-1], site) if v3 == NONE]
            return out
        if m in ('any', 'all') and callee.trait and callee.trait.endswith('Iterator') and not callee.local:
            it = args[0] if args[0][0] != 'ref' else sim.read(st, args[0][1])
            out = []
            s = st.copy(); self.ev(s, 'empty', it); out.append((s, ('c', 'b', m == 'all')))
            for s, v in models.produce(sim, st, cx, short(it), site):
                if v[2] == 'Some': out += sim.invoke(s, cx, args[1], (v[3][0],), site)
            return out
        if m == 'get' and len(args) == 2 and 'Map' in p and self.n.container(callee) is None:
            g = (deepread(sim, st, args[0]), deepread(sim, st, args[1]))
            if g not in GOT: GOT.append(g)
            v = ('got', GOT.index(g))
            b = st.copy()
            return [(st, some(('ref', (('V', v), ())))), (b, NONE)]
        if callee.local and 'runtime::SymbolTable' in p and m in ('define_or_redefine', 'define_if_undefined', 'redefine_all', 'undefine_all', 'set_or_define', 'insert', 'clear'):
            self.ev(st, 'define', m, tuple(deepread(sim, st, a) for a in args[1:]))
        if callee.local and callee.local == getattr(self, 'consume', None) and not self.into_consume:
            self.ev(st, 'consume', self.script_of(sim, st, args[0]))
            return [(st, UNIT)]
        if p == 'process::Process::step':
            self.ev(st, 'step', self.proc_of(sim, st, args[0]), STEP)
            return [(st, STEP)]
        if m == 'receive_message' and callee.trait and callee.trait.endswith('runtime::System'):
            self.ev(st, 'recv', MSG)
            if self.mode == 'both':
                b = st.copy()
                return [(st, NONE), (b, some(MSG))]
            return [(st, NONE if self.mode == 'quiet' else some(MSG))]
        if m in ('deref', 'deref_mut') and callee.trait and 'Deref' in callee.trait and args and not callee.local:
            v = strip(sim.read(st, sim.deref(args[0])))
            if v[0] == 'ref' and v[1][0][0] == 'V' and v[1][0][1][0] == 'cell': return [(st, v)]
        if m in ('take', 'skip', 'step_by', 'take_while', 'skip_while', 'map_while', 'nth', 'find', 'position') and args and mentions(args[0], lambda x: x[0] == 'scripts'): self.ev(st, 'partial', m)
        if m == 'from' and len(args) == 1 and callee.trait and 'From' in callee.trait and 'Shared' in p: return [(st, args[0])]
        if m == 'get_call_stack': return [(st, ('frames', self.proc_of(sim, st, args[0])))]
        if m in ('index', 'get') and len(args) == 2 and strip(args[1])[:3] == ('c', 'i', '0'):
            v = strip(args[0])
            if v[0] == 'ref' and not v[1][1] and v[1][0][0] == 'V': v = strip(v[1][0][1])
            if v[0] == 'frames':
                r = ('ref', (('V', ('frame', 'first', v[1])), ()))
                return [(st, r if m == 'index' else some(r))]
        if m in ('first', 'last', 'len') and len(args) == 1:
            v = strip(args[0])
            if v[0] == 'ref' and not v[1][1] and v[1][0][0] == 'V': v = strip(v[1][0][1])
            if v[0] == 'frames' and m == 'len': return [(st, ('framelen', v[1]))]
            if v[0] == 'frames': return [(st, some(('ref', (('V', ('frame', m, v[1])), ()))))]
        if m in ('borrow', 'borrow_mut') and 'gc_arena' in p and args:
            return [(st, ('ref', (('V', ('cell', strip(args[0]))), ())))]
        c = self.n.container(callee)
        if c == 'procs': return self.procs(sim, st, cx, m, args, site)
        if c == 'queue': return self.queue(sim, st, cx, m, args, site)
        if c == 'ctxs': return self.ctxs(sim, st, cx, m, args, site)
        if c == 'scripts': return self.scripts_(sim, st, cx, callee, m, args, site)
        if m == 'new' and callee.local and p.endswith('process::Process::new'):
            a = args[0]
            return [(st, ('proc', a))]
        return None

    def val(self, sim, st, v): return deepread(sim, st, v)

    iters = 1               # how many elements a loop is followed for

    def over_scripts(self, it):
        return mentions(it, lambda x: x[0] in ('scripts', 'nscripts'))

    def loop(self, sim, st, cx, it, site):
        """The next element of a loop: first visits produce one, the last one ends it."""
        kind = 'scripts' if self.over_scripts(it) else 'other'
        k = self.visit(st, site)
        n = self.iters if kind == 'scripts' else 1
        if k >= n:
            if k > n: return []
            s = st.copy(); self.ev(s, 'loop', site, kind)
            return [(s, NONE)]
        tag = site if k == 0 else (site, k)
        out = []
        for s, v in self.element(sim, st, cx, it, tag):
            self.ev(s, 'loop', site, kind)
            if v == NONE:
                # a filter passed over this element: go on to the end
                self.ev(s, 'loop', site, kind)
            out.append((s, v))
        return out

    def element(self, sim, st, cx, it, tag):
        """One element of an iterator; NONE when a filter passes over it."""
        if it[0] == 'iter' and it[1][0] == 'scripts':
            return [(st.copy(), some(('ref', (('V', intern((it[1][1], tag))), ()))))]
        if it[0] == 'itermap' and it[2] in ('map', 'filter', 'filter_map'):
            out = []
            for s, v in self.element(sim, st, cx, it[1], tag):
                if v == NONE: out.append((s, v)); continue
                e = v[3][0]
                if it[2] == 'filter':
                    slot = (('V', ('tmp', tag, len(s.store))), ())
                    s.store[slot] = e
                    for s2, b in sim.invoke(s, cx, it[3], (('ref', slot),), tag):
                        for s3, t in self.truth(sim, s2, cx, b): out.append((s3, v if t else NONE))
                else:
                    for s2, x in sim.invoke(s, cx, it[3], (e,), tag):
                        if it[2] == 'map': out.append((s2, some(x)))
                        else:
                            for s3, var in list(sim.variants(s2, x, models.OPT)): out.append((s3, some(models.payload(sim, x, 'Some')) if var == 'Some' else NONE))
            return out
        return [(s, v) for s, v in models.produce(sim, st, cx, short(it), tag) if v[2] == 'Some']

    def truth(self, sim, st, cx, v):
        """Both ways a boolean can come out."""
        v = strip(v)
        if v[0] == 'c' and v[1] == 'b': return [(st, v[2])]
        out = []
        for s, b in list(sim.switch(st, cx, v, 'bool', [('0', False)], True)): out.append((s.copy() if s is st else s, b))
        return out

    def procs(self, sim, st, cx, m, args, site):
        K = lambda i=1: strip(self.val(sim, st, args[i]))
        if m == 'insert':
            k = sim.fresh(st, ('newkey', site))
            self.ev(st, 'insert', k, args[1])
            return [(st, k)]
        if m in ('get', 'get_mut'):
            return self.lookup(st, K(), ('ref', (('V', ('process', K())), ())))
        if m in ('contains_key', 'contains'):
            return [(s, ('c', 'b', v[2] == 'Some')) for s, v in self.lookup(st, K(), UNIT)]
        if m == 'remove':
            out = []
            k = K()
            for s, v in self.lookup(st, k, ('process', k)):
                self.ev(s, 'remove', k)
                out.append((s, v))
            return out
        if m == 'clear': self.ev(st, 'pclear'); return [(st, UNIT)]
        if m in ('retain', 'retain_mut'):
            t = self.table(sim, st, cx, args[1], (('rk', site), ('ref', (('V', ('rv', site)), ()))), site)
            self.ev(st, 'pretain', site, t)
            return [(st, UNIT)]
        if m in ('len', 'is_empty', 'iter', 'default', 'new', 'index', 'index_mut'): return None
        self.ev(st, 'procs?', m)
        return None

    def queue(self, sim, st, cx, m, args, site):
        if m in ('pop_front', 'pop_back'):
            if any(e[0] == 'step' for e in st.rs): self.ev(st, 'queue?', m); return None
            if any(e[0] in ('pop', 'popempty') for e in st.rs): return []        # round the loop again
            if self.mode == 'message':
                self.stopped.append(st)
                return []
            a, b = st.copy(), st.copy()
            k = ('popped', m)
            self.ev(a, 'popempty'); self.ev(b, 'pop', k)
            return [(a, NONE), (b, some(k))]
        if m == 'push_front': self.ev(st, 'front', strip(args[1])); return [(st, UNIT)]
        if m == 'push_back': self.ev(st, 'back', strip(args[1])); return [(st, UNIT)]
        if m == 'clear': self.ev(st, 'qclear'); return [(st, UNIT)]
        if m in ('len', 'is_empty', 'iter', 'default', 'new', 'contains', 'front', 'back'): return None
        self.ev(st, 'queue?', m)
        return None

    def ctxs(self, sim, st, cx, m, args, site):
        recv = self.script_of(sim, st, args[0]) if args else None
        if recv and recv[1] and recv[1][-1] == ('f', self.n.f_queue): recv = (recv[0], recv[1][:-1])
        if m in ('pop_front', 'pop_back'):
            pend = sum(1 if e[0] == 'ctxpush' else -1 for e in st.rs if e[0] in ('ctxpush', 'ctxpop') and e[1] == recv)
            outs = []
            for val in (True, False):
                s = st.copy()
                self.ev(s, 'ctxpop', recv, m, val)
                outs.append((s, some(('queued', recv, m)) if val else NONE))
            return outs
        if m in ('push_back', 'push_front'): self.ev(st, 'ctxpush', recv, m, args[1]); return [(st, UNIT)]
        if m == 'clear': self.ev(st, 'ctxclear', recv); return [(st, UNIT)]
        if m == 'len':
            # a loop that trims the queue: followed until it was measured twice since the last start was added
            i = max((j for j, e in enumerate(st.rs) if e[0] == 'ctxpush' and e[1] == recv), default=-1)
            if sum(1 for e in st.rs[i + 1:] if e[0] == 'len' and any(x[:2] == ('ctxlen', recv) for x in e[2:4])) > 1: return []
            return [(st, ('ctxlen', recv, len(st.rs)))]
        if m in ('is_empty', 'default', 'new', 'iter', 'with_capacity'): return None
        self.ev(st, 'ctxs?', m)
        return None

    def scripts_(self, sim, st, cx, callee, m, args, site):
        if m == 'len': return [(st, ('nscripts', self.coll(sim, st, args[0])))]
        if m in ('iter', 'iter_mut', 'into_iter', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice'):
            return [(st, ('iter', ('scripts', self.coll(sim, st, args[0]))) if 'iter' in m else args[0])]
        if m in ('index', 'index_mut') and len(args) == 2: return [(st, ('ref', (('V', intern(strip(args[1]))), ())))]
        if m in ('get', 'get_mut') and len(args) == 2: return [(st, some(('ref', (('V', intern(strip(args[1]))), ()))))]
        if m == 'push':
            self.ev(st, 'newscript', self.coll(sim, st, args[0]), args[1]); return [(st, UNIT)]
        if m in ('extend', 'append'):
            self.ev(st, 'extend', self.coll(sim, st, args[0]), self.coll(sim, st, args[1])); return [(st, UNIT)]
        if m in ('retain', 'retain_mut'):
            t = self.table(sim, st, cx, args[1], (('ref', (('V', ('rs', site)), ())),), site)
            self.ev(st, 'sretain', site, t); return [(st, UNIT)]
        if m in ('clear', 'drain', 'pop', 'remove', 'swap_remove', 'truncate', 'insert'): self.ev(st, 'scripts?', m)
        return None

    def coll(self, sim, st, v):
        """Which script vector: the project's, or a local one."""
        v = strip(v)
        if v[0] == 'ref': return 'project' if v[1][0][0] == 'V' else 'local'
        return 'local'


def local_calls(p, f):
    for bi, c in f.callees.items():
        if bi in f.reachable and not f.blocks[bi].cleanup and c.local: yield c.local


def closure_of(p, fid, seen=None):
    """Ids of the module's functions reachable from fid by direct calls and closures."""
    seen = set() if seen is None else seen
    if fid in seen: return seen
    f = p.by_id.get(fid)
    if f is None or not f.file.endswith(PJ): return seen
    seen.add(fid)
    for x in local_calls(p, f): closure_of(p, x, seen)
    for g in p.fns:
        if g.kind == 'Closure' and g.path.startswith(f.path + '::{closure'): closure_of(p, g.id, seen)
    return seen


def touches(p, n, f):
    return {(n.container(c), c.method) for bi, c in f.callees.items() if bi in f.reachable and not f.blocks[bi].cleanup}


def find_consume(p, n):
    """The innermost function that pops a queued context and inserts a process."""
    S = {}
    for f in p.fns:
        if not f.file.endswith(PJ) or f.kind == 'Closure' or f.promoted: continue
        ms = set()
        for x in closure_of(p, f.id): ms |= touches(p, n, p.by_id[x])
        if {('ctxs', 'pop_front'), ('ctxs', 'pop_back')} & ms and ('procs', 'insert') in ms: S[f.id] = f
    return one([f for i, f in S.items() if not (closure_of(p, i) - {i}) & set(S)], 'the function that starts a queued script')


def trace(p, fn, args, rule=None, store=(), max_states=400000):
    rule = rule or SchedRule(p)
    rule.consume = find_consume(p, rule.n).id
    sim, ex = runfn(p, fn, args, rule=rule, store=store, max_states=max_states)
    return rule, sim, ex


def step_traces(p, rule=None, mode='quiet'):
    rule = rule or SchedRule(p)
    rule.mode = mode
    fn = selfarg_fn(p, 'project::Project', 'step')
    return trace(p, fn, (refto('self'), ('arg', 'mc')), rule)


def input_traces(p, variant, rule=None):
    fn = selfarg_fn(p, 'project::Project', 'input')
    return trace(p, fn, (refto('self'), ('arg', 'mc'), mkvariant(p, 'project::Input', variant)), rule)


# ---------------------------------------------------------------- reading traces
def pay(v, *path):
    """Payload of nested variants: 'Variant' or ('Variant', field)."""
    for x in path:
        x, f = x if isinstance(x, tuple) else (x, '0')
        v = ('p', ('p', v, ('v', x)), ('f', f))
    return v


def case(p, st):
    """What the stepped script did: ('Err',), ('Ok', 'Yield'), ('Ok', 'Abort', 'All')..."""
    f = st.facts.get(STEP)
    if not f or f[0] != 'is': return ()
    if f[1] == 'Err': return ('Err',)
    v = pay(STEP, 'Ok')
    f = st.facts.get(v)
    if not f or f[0] != 'is': return ('Ok',)
    out = ('Ok', f[1])
    for n, t in p.fields('process::ProcessStep', f[1]):
        if strip_ty(t) in p.adts and p.adts[strip_ty(t)]['kind'] == 'enum':
            g = st.facts.get(pay(v, (f[1], n)))
            if g and g[0] == 'is': out += (g[1],)
    return out


def stepfield(variant, field): return pay(STEP, 'Ok', (variant, field))


def evs(st, *names): return [e for e in st.rs if e[0] in names]


def after(st, i, *names): return [e for e in st.rs[i + 1:] if e[0] in names]


def index_of(st, name):
    for i, e in enumerate(st.rs):
        if e[0] == name: return i
    return -1


def is_script(v):
    """A generic script of the project, reached by a loop over all of them."""
    x = script_src(v)
    if x is None: return False
    if x[0] == 'project': return True
    return x[0] == 'elem' and full_range(x[1])


def full_range(it):
    if it[0] == 'iter': it = it[1]
    if it[0] == 'agg' and it[1].endswith('ops::Range'):
        a, b = it[3]
        return a[0] == 'c' and a[2] == '0' and b == ('nscripts', 'project')
    return False


def field(sim, st, script, f): return sim.read(st, (script[0], script[1] + (('f', f),)))


def by_type(p, adt, sub, variant=None):
    r = [n for n, t in p.fields(adt, variant) if sub in t]
    if len(r) != 1: raise Missing(f'the {sub} of {adt}')
    return r[0]


class Ctx4:
    """Field names of a queued start and of a new process, by type."""
    KINDS = {'barrier': 'Barrier', 'reply': 'InternReplyKey', 'message': 'Text', 'locals': 'SymbolTable', 'state': 'ProcessState'}
    def __init__(self, p, adt):
        self.adt = adt
        for k, t in self.KINDS.items():
            r = [n for n, ty in p.fields(adt) if t in ty.split('::')[-1] or f'::{t}<' in ty or f'::{t}>' in ty or ty.endswith(t) or (t == 'Text' and 'OurString' in ty)]
            if len(r) != 1: raise Missing(f'the {k} of {adt} ({r})')
            setattr(self, k, r[0])


def retained(t):
    """Rows of a retain predicate's decision table as ({(kind, a, b): bool}, kept)."""
    return [({e[:3]: e[3] for e in d if e[0] in ('eq', 'same')}, b) for d, b in t]


def coll_of(v):
    """Which vector a script reached by iteration comes from: 'project', 'local' or None."""
    x = script_src(v)
    if x is None: return None
    if x[0] in ('project', 'local'): return x[0]
    return 'project' if is_script(v) else None


def event_fact(st, n, script, events):
    """The event variant a path established for a script (None: not looked at)."""
    cell = lambda x: x == (script[0], script[1] + (('f', n.f_event),))
    for v, f in st.facts.items():
        if v[0] == 'init' and v[1][1] == (('f', '0'),) and mentions(v[1][0], lambda x: x == ('init', (script[0], script[1] + (('f', n.f_event),)))):
            if f[0] == 'is' and f[1] in events: return f[1]
            if f[0] == 'not': return ('not', f[1])
    return None


def unfinished_loops(st):
    """Loops over scripts or declared message fields entered but not gone round: something left them early."""
    cnt = {}
    sites = set()
    for e in st.rs:
        if e[0] == 'define': mentions(e[2], lambda x: x[0] == 'elem' and (sites.add(x[2]) or False))
    for e in st.rs:
        if e[0] == 'loop' and (e[2] == 'scripts' or e[1] in sites): cnt[e[1]] = cnt.get(e[1], 0) + 1
    return [s for s, k in cnt.items() if k == 1]


POPPED = ('popped', 'pop_front')


def is_popped(v): return v[0] == 'popped'


def all_traces(p):
    """(label, mode, rule, sim, [(state, return value or None)]) for every way into the scheduler."""
    out = []
    r = SchedRule(p); rule, sim, ex = step_traces(p, r)
    out.append(('step', 'quiet', rule, sim, ex))
    r = SchedRule(p); rule, sim, ex = step_traces(p, r, 'message')
    out.append(('step', 'message', rule, sim, [(s, None) for s in rule.stopped] + ex))
    r = SchedRule(p); rule, sim, ex = step_traces(p, r, 'both')
    out.append(('step', 'both', rule, sim, ex))
    for v in p.variants('project::Input'):
        r = SchedRule(p); rule, sim, ex = input_traces(p, v, r)
        out.append((f'input {v}', v, rule, sim, ex))
    return out


def consume_unit(p):
    r = SchedRule(p); r.into_consume = True
    f = find_consume(p, r.n)
    args = []
    for i, t in enumerate(f.locals[1:f.nargs + 1]):
        args.append(refto('script') if r.n.script in t else refto(f'state{i}') if t.startswith('&') else ('arg', f'a{i}'))
    rule, sim, ex = trace(p, f, tuple(args), r)
    return f, rule, sim, ex

"""P35: the terminal is restored on every way out of interactive mode."""
import re, os
from h import *
import base

ENABLE, DISABLE = 'crossterm::terminal::enable_raw_mode', 'crossterm::terminal::disable_raw_mode'
HIDE, SHOW = 'crossterm::cursor::Hide', 'crossterm::cursor::Show'
ALL = frozenset({'raw', 'hidden'})
END = ('exit', 'abort', '_exit', 'quick_exit', 'exit_group', 'unreachable_unchecked')
CALM = ('new', 'clone', 'default', 'from', 'into', 'as_ref', 'as_mut', 'deref', 'deref_mut', 'borrow', 'get', 'set', 'is_some', 'is_none', 'is_ok', 'is_err', 'ok', 'err', 'map_err', 'branch', 'from_residual', 'from_output', 'stdout', 'stderr', 'by_ref', 'flush', 'lock', 'now', 'elapsed')


def ends(cl): return cl.method in END and 'process' in cl.rpath


def touches(cl):
    return cl.rpath in (ENABLE, DISABLE) or HIDE in cl.args or SHOW in cl.args or cl.rpath in ('std::panic::set_hook', 'std::panic::take_hook', 'std::panic::update_hook') or ends(cl)


class TtyRule(Plain):
    """Which of {raw mode, hidden cursor} are in force, and which the panic hook undoes."""
    init_rs = (frozenset(), frozenset())

    def __init__(self, p, cone, guards):
        super().__init__(p)
        self.cone, self.guards = cone, guards
        self.bad, self.quiet, self.memo, self.abort = {}, 0, {}, True
        self.n = {'entries': 0, 'calls': set(), 'drops': 0, 'hooks': 0}

    def inline(self, sim, fn): return fn.id in self.cone

    def narrow(self, sim, st):
        """Only guards, hooks and what may hold them matter."""
        keep = lambda v: mentions(v, lambda x: x and (x[0] in ('clo', 'ref') or x[0] == 'agg' and (x[1] in self.guards or x[1] in (OPT, RES, CF))))
        st.store = {k: v for k, v in st.store.items() if v[0] in ('c', 'clo', 'fn') or keep(v)}
        st.facts = {}

    def flag(self, kind, sim, cx, msg):
        if not self.quiet: self.bad.setdefault((kind, cx.fn.path.lstrip('<').split('::{')[0].rsplit('::', 1)[-1]), (msg, cx.loc))

    def dirty(self, st, d): st.rs = (st.rs[0] | {d}, st.rs[1])
    def clean(self, st, d): st.rs = (st.rs[0] - {d}, st.rs[1])

    def undone(self, sim, st, cx, run, now=False):
        """What every run of `run` undoes."""
        s = st.copy()
        s.rs = (ALL, frozenset())
        self.quiet += 1
        outs = run(s)
        self.quiet -= 1
        left = frozenset()
        for o, _ in outs: left |= o.rs[0]
        if now and 'unflushed' in left: left |= {'hidden'}
        return ALL - left if outs else frozenset()

    def covered(self, sim, st, cx):
        got = st.rs[1]
        if not self.abort:
            for k, v in st.store.items():
                if k[0][0] == 'L' and v[0] == 'agg': got = got | self.drops(sim, st, cx, k)
        return st.rs[0] <= got

    def held(self, v):
        """Guards inside a value that is dropped."""
        if not isinstance(v, tuple) or not v: return
        if v[0] == 'agg':
            if v[1] in self.guards and v[1] not in ('core::mem::ManuallyDrop',): yield v
            if 'ManuallyDrop' in v[1]: return
            for x in v[3]: yield from self.held(x)
        if v[0] == 'clo':
            for x in v[2]: yield from self.held(x)

    def drops(self, sim, st, cx, lv, value=None):
        v = value if value is not None else sim.read(st, lv)
        got = frozenset()
        for g in self.held(v):
            f = self.guards[g[1]]
            cell = (('V', ('dropped', g)), ())
            def run(s, f=f, g=g, cell=cell):
                sim.write(s, cell, g)
                return sim.enter(s, cx, f, (('ref', cell),), (cx.frame, cx.block))
            got |= self.undone(sim, st, cx, run)
        return got

    def on_drop(self, sim, st, cx, lv, ty):
        if isinstance(ty, tuple): got = self.drops(sim, st, cx, None, ty[1])
        else: got = self.drops(sim, st, cx, lv)
        if got:
            self.n['drops'] += not self.quiet
            st.rs = (st.rs[0] - got - ({'unflushed'} if 'hidden' in got else set()), st.rs[1])

    def on_assert(self, sim, st, cx, kind):
        if st.rs[0] and not self.covered(sim, st, cx): self.flag('panic', sim, cx, f'a failed check here leaves the terminal with {self.what(st)}')

    def what(self, st): return ' and '.join(sorted({'raw': 'raw mode on', 'hidden': 'the cursor hidden', 'unflushed': 'the cursor not shown yet'}[x] for x in st.rs[0]))

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None:
            if st.rs[0] and not self.covered(sim, st, cx): self.flag('panic', sim, cx, f'a panic in this call leaves the terminal with {self.what(st)}')
            return None
        m, r = callee.method, callee.rpath
        if r == ENABLE:
            self.n['entries'] += not self.quiet
            s = st.copy()
            self.dirty(st, 'raw')
            return [(st, ok(UNIT)), (s, err(('ioerr',)))]
        if r == DISABLE:
            self.clean(st, 'raw')
            return [(st, ok(UNIT))]
        if HIDE in callee.args and m in ('queue', 'execute', 'queue_command', 'execute_command', 'write_ansi'):
            self.dirty(st, 'hidden')
            s = st.copy()
            return [(st, ok(args[0])), (s, err(('ioerr',)))]
        if SHOW in callee.args and m in ('queue', 'execute', 'queue_command', 'execute_command', 'write_ansi'):
            if 'hidden' in st.rs[0]:
                self.clean(st, 'hidden')
                if 'execute' not in m: self.dirty(st, 'unflushed')
            return [(st, ok(args[0]))]
        if m == 'flush' and 'Write' in r:
            self.clean(st, 'unflushed')
            if self.quiet: return [(st, ok(UNIT))]
        if r == 'std::panic::take_hook':
            if not self.quiet: st.rs = (st.rs[0], frozenset())
            return None
        if r in ('std::panic::set_hook', 'std::panic::update_hook'):
            if self.quiet: return None
            fv = args[0]
            got = self.undone(sim, st, cx, lambda s: [x for x in sim.invoke(s, cx, unbox(fv), (TOP, TOP)[:1 if r.endswith('set_hook') else 2], site)], True)
            self.n['hooks'] += bool(got)
            st.rs = (st.rs[0], got)
            return [(st, UNIT)]
        if ends(callee):
            if st.rs[0] - {'unflushed'}: self.flag('exit', sim, cx, f'ends the process with {self.what(st)}')
            return None
        if callee.local and callee.local in self.cone: return None
        if r in ('core::mem::drop',): return None
        if self.quiet: return None
        if st.rs[0]:
            self.n['calls'].add((cx.fn.id, cx.block))
            if m in ('unwrap', 'expect') and args and strip(args[0])[0] == 'agg' and strip(args[0])[2] in ('Ok', 'Some'): return None
            if not self.covered(sim, st, cx) and not (callee.local is None and (m in CALM or r.startswith('crossterm::') or (m in ('and_then', 'map') and RES in r))):
                self.flag('panic', sim, cx, f'a panic in {r.rsplit("::", 2)[-1]} leaves the terminal with {self.what(st)}')
        return None


def unbox(v):
    """The function inside a box."""
    v = strip(v)
    for _ in range(6):
        if v[0] in ('box', 'cast'): v = strip(v[1])
        elif v[0] == 'call' and len(v) > 3 and v[3]: v = strip(v[3][0])
        else: break
    return v


def closure_cone(p, roots):
    """Functions and closures that change the terminal, the panic hook or the process, and those that lead to them."""
    hit = {f.id for f in p.fns if not f.promoted and any(touches(cl) for bi, cl in f.callees.items() if not f.blocks[bi].cleanup)}
    guards = {strip_ty(f.selfadt): f for f in p.fns if f.trait == 'core::ops::Drop' and f.method == 'drop' and f.selfadt and f.file.endswith('.rs') and not f.promoted}
    makers = {f.id for f in p.fns if not f.promoted and f.file.startswith('src/cli') or f.id in hit}
    cone = set(hit) | {f.id for f in guards.values()}
    for f in p.fns:
        if f.promoted: continue
        home = any(f.file == p.by_id[h].file for h in hit)
        if home and any(g in f.locals[0] for g in guards): cone.add(f.id)
    grew = True
    while grew:
        grew = False
        for i in list(cone):
            for g in p.callers.get(i, ()):
                if g not in cone and p.by_id[g].file in {p.by_id[h].file for h in hit}: cone.add(g); grew = True
            f = p.by_id[i]
            if f.kind == 'Closure':
                o = i.rsplit('::{closure', 1)[0]
                if o in p.by_id and o not in cone: cone.add(o); grew = True
    return cone, guards, hit


def check(c):
    c.rule('from the point where raw mode is switched on or the cursor hidden, every return has dropped a guard whose drop undoes both, every call that may panic runs under a panic hook that undoes both, and nothing ends the process')
    whole = 0
    for p in (c.p, c.nb):
        starts = [f for f in p.fns if not f.promoted and any(cl.rpath == ENABLE or HIDE in cl.args for bi, cl in f.callees.items() if not f.blocks[bi].cleanup)]
        if not starts: continue
        cone, guards, hit = closure_cone(p, starts)
        todo, done = [], set()
        for f in starts:
            while f.kind == 'Closure' and f.id.rsplit('::{closure', 1)[0] in p.by_id: f = p.by_id[f.id.rsplit('::{closure', 1)[0]]
            if f.id not in todo: todo.append(f.id)
        while todo:
            i = todo.pop()
            if i in done: continue
            done.add(i)
            f = p.by_id[i]
            ups = {g for g in p.callers.get(i, ()) if g != i and not p.by_id[g].promoted}
            rule = TtyRule(p, cone, guards)
            rule.abort = aborts()
            sim = Sim(p, rule, 400000)
            outs = sim.run(f, tuple(('arg', f'a{k}') for k in range(f.nargs)))
            left = [s for s, _ in outs if s.rs[0] - {'unflushed'}]
            if left and ups and not any(f.id in t.path for t in ()) and (len(done) < 6):
                if any(x for s, r in outs for x in rule.held(r)) or f.kind == 'Closure' or small(f):
                    todo += sorted(ups)
                    continue
            c.count('entries into raw mode', rule.n['entries'])
            c.count('calls made while in raw mode', len(rule.n['calls']))
            c.count('ways out', len(outs))
            c.count('guards dropped', rule.n['drops'])
            c.count('panic hooks', rule.n['hooks'])
            if left: c.violation(f'{f.path.rsplit("::", 1)[-1]}:return', f'returns with {rule.what(left[0])}', f.loc())
            for (k, fn), (msg, loc) in sorted(rule.bad.items()): c.violation(f'{fn}:{k}', msg, loc)
            # code that is followed no further may still end the process or replace the hook
            inside = {j for j, b in sim.visited_blocks} | {f.id}
            far = p.reach({f.id}) - inside
            for j in sorted(far):
                g = p.by_id.get(j)
                if g is None: continue
                if any(ends(cl) for bi, cl in g.callees.items() if not g.blocks[bi].cleanup): c.violation(f'{g.path.rsplit("::", 1)[-1]}:exit', f'reachable from {f.path} and ends the process', g.loc())
                if j not in cone: continue
            c.sample(f'{f.path}: {len(outs)} ways out, {sim.nstates} states')
            whole += 1
    c.floor('entries into raw mode', 1)
    c.floor('calls made while in raw mode', 10)
    c.floor('guards dropped', 1)
    if aborts(): c.floor('panic hooks', 1)
    c.assume('commands to the terminal that undo a mode succeed')
    c.assume('the panic hook is not replaced by the code the embedder supplies')


def small(f): return len([b for b in f.blocks if not b.cleanup]) < 40


def aborts():
    """Does some build profile turn panics into aborts (so that guards do not run)?"""
    try: t = open(os.path.join(base.REPO, 'Cargo.toml')).read()
    except OSError: return True
    return bool(re.search(r'^\s*panic\s*=\s*"abort"', t, re.M))

"""P16: a failure that was reported is passed on, answered or reported; never just dropped."""
from h import *
from p13 import defs
from mir import strip_generics, strip_ty
import re, collections

RES, OPT = 'core::result::Result', 'core::option::Option'
# calls that hand the failure on (their own result is followed in turn, or they panic)
FORWARD = {'branch', 'from_residual', 'map_err', 'map', 'and_then', 'and', 'unwrap', 'expect', 'unwrap_err', 'expect_err', 'transpose', 'as_ref', 'as_mut', 'as_deref', 'cloned', 'copied', 'inspect', 'inspect_err', 'into', 'from', 'clone',
           'ok_or', 'ok_or_else', 'filter', 'deref', 'deref_mut', 'take', 'replace', 'zip', 'from_output'}
# calls after which the failure is gone
SWALLOW = {'ok', 'err', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map_or', 'map_or_else', 'is_ok', 'is_err', 'is_ok_and', 'is_err_and', 'is_some', 'is_none', 'is_some_and', 'is_none_or', 'or', 'or_else', 'iter', 'into_iter', 'iter_mut',
           'drop', 'forget', 'flatten', 'xor', 'get_or_insert', 'get_or_insert_with', 'insert', 'unwrap_unchecked', 'drop_in_place', 'black_box'}
DROPPING = {'filter_map', 'flat_map', 'find_map', 'map_while', 'scan', 'flatten'}


def head(t): return strip_generics(t) if t else ''
def isres(t): return t.startswith(RES + '<')
def isopt(t): return t.startswith(OPT + '<')


def reads(x, l):
    """Places with base l mentioned as a value, a reference or a discriminant in x."""
    out = []
    def go(x):
        if not isinstance(x, list): return
        if len(x) == 2 and x[0] in ('m', 'y') and isinstance(x[1], list) and x[1] and x[1][0] == l: out.append(x[1])
        elif len(x) > 2 and x[0] in ('ref', 'addr') and isinstance(x[2], list) and x[2] and x[2][0] == l: out.append(x[2])
        elif len(x) > 1 and x[0] == 'discr' and isinstance(x[1], list) and x[1] and x[1][0] == l: out.append(x[1])
        else:
            for y in x: go(y)
    go(x)
    return out


class Flow:
    """What becomes of the failures held in one function's locals."""
    def __init__(self, c, p, f):
        self.c, self.p, self.f = c, p, f
        self.found = []          # (producer, how, block)
        self.results = 0
        self.ds = None
        self.why = None

    # -- where a value comes from
    def origin(self, l, d=0):
        f = self.f
        if 0 < l <= f.nargs:
            if '{' in f.locals[l] or f.kind == 'Closure': return 'captured value'
            got = set()
            for g in self.p.callers.get(f.id, ()) if d < 4 else ():
                h = self.p.by_id[g]
                for bi, cl in h.callees.items():
                    if cl.local == f.id and not h.blocks[bi].cleanup and len(h.blocks[bi].term[2]) >= l:
                        o = h.blocks[bi].term[2][l - 1]
                        if o[0] in 'my' and not o[1][1:]: got.add(Flow(self.c, self.p, h).origin(o[1][0], d + 1))
            return got.pop() if len(got) == 1 else 'argument'
        for k, bi, x in self.sources(l):
            if k == 'call':
                cl = f.callees.get(bi)
                if cl is None: return 'a function value'
                if cl.method in FORWARD | SWALLOW | {'poll', 'into_future', 'get_context', 'new_unchecked'} and d < 8 and f.blocks[bi].term[2]:
                    o = f.blocks[bi].term[2][0]
                    if o[0] in 'my' and not o[1][1:]: return self.origin(o[1][0], d + 1)
                return strip_generics(cl.rpath).rsplit('::', 1)[-1] if not cl.trait else cl.method
            if k == 'asg' and d < 8:
                r = x
                if r[0] == 'use' and r[1][0] in 'my': return self.origin(r[1][1][0], d + 1)
                if r[0] == 'ref': return self.origin(r[2][0], d + 1)
                if r[0] == 'agg': return 'built'
                if r[0] == 'cast' and len(r) > 2 and isinstance(r[2], list) and r[2][0] in 'my': return self.origin(r[2][1][0], d + 1)
        return 'unknown'

    def sources(self, l):
        if self.ds is None:
            self.ds = collections.defaultdict(list)
            for bi in self.f.reachable:
                b = self.f.blocks[bi]
                if b.cleanup: continue
                for s in b.stmts:
                    if s[0] == '=' and not s[1][1:]: self.ds[s[1][0]].append(('asg', bi, s[2]))
                if b.term[0] == 'call' and not b.term[3][1:]: self.ds[b.term[3][0]].append(('call', bi, b.term))
        return self.ds.get(l, ())

    # -- failures held in locals
    def run(self):
        f = self.f
        seen = set()
        todo = [l for l, t in enumerate(f.locals) if isres(t)]
        while todo:
            l = todo.pop()
            if l in seen: continue
            seen.add(l)
            if l == 0:
                if isopt(f.locals[0]) and f.kind == 'Closure' and DROPPED.get(f.id): self.found.append((self.why or 'an operation', DROPPED[f.id], 0))
                continue
            if not isopt(f.locals[l]): self.results += 1
            used, asked = False, []
            for bi in sorted(f.reachable):
                b = f.blocks[bi]
                if b.cleanup: continue
                for s in b.stmts:
                    if s[0] != '=': continue
                    rs = reads(s[2], l)
                    r = s[2]
                    if rs and r[0] == 'ref' and not s[1][1:] and not rs[0][1:]:
                        q = self.asked(s[1][0])
                        if q is not None:
                            asked += q
                            continue
                    if rs: used = True
                    if rs and r[0] == 'use' and not s[1][1:] and isopt(f.locals[s[1][0]]) and isopt(f.locals[l]) and not rs[0][1:]: todo.append(s[1][0])
                t = b.term
                if t[0] == 'switch' and reads(t[1], l): used = True
                if t[0] == 'yield' : used = used or bool(reads(t[1:], l))
                if t[0] == 'call':
                    for i, o in enumerate(t[2]):
                        rs = reads(o, l)
                        if not rs or rs[0][1:]: 
                            used = used or bool(rs)
                            continue
                        used = True
                        todo += self.call(bi, t, f.callees.get(bi), i, l)
            if not used:
                if asked and all(self.acted(l, m, bi) for m, bi in asked): continue
                if self.sources(l) or 0 < l <= f.nargs: self.found.append((self.origin(l), 'never looked at', self.sources(l)[0][1] if self.sources(l) else 0))
        for bi, cl in f.callees.items():
            if f.blocks[bi].cleanup or cl.method not in ('flat_map', 'flatten', 'filter', 'filter_map', 'find', 'take_while', 'skip_while', 'partition', 'last', 'for_each', 'count', 'any', 'all') or not (cl.trait or '').endswith('Iterator'): continue
            what = next((a for a in cl.args[:2 if cl.method == 'flat_map' else 1] if self.yields(a)), None)
            if what: self.found.append(('each item', cl.method, bi))
        self.matches()
        return self

    def yields(self, a):
        """Does an iterator (or the function building one) produce failures?"""
        if isres(a): return True
        if 'iter::Map<' in a[:30] or 'iter::adapters::map::Map<' in a[:40]:
            last = re.findall(r'\{closure@[^{}]*\}', a)
            g = CLOSURES.get(last[-1]) if last and a.rstrip('>').endswith(last[-1]) else None
            if g is not None: return isres(g.locals[0])
            return bool(re.search(r'-> core::result::Result<', a))
        return False

    def asked(self, r):
        """The questions (is_ok, is_err) a reference is used for, if it is used for nothing else."""
        f, out = self.f, []
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            if any(s[0] == '=' and reads(s[2], r) for s in b.stmts): return None
            t = b.term
            if t[0] == 'call' and any(reads(o, r) for o in t[2]):
                cl = f.callees.get(bi)
                if cl is None or cl.method not in ('is_ok', 'is_err', 'is_some', 'is_none', 'iter', 'drop', 'forget'): return None
                out.append((cl.method, bi))
        return out

    def acted(self, l, m, bi):
        """The answer to is_ok / is_err leads to the failure being passed on."""
        f = self.f
        t = f.blocks[bi].term
        if m not in ('is_ok', 'is_err', 'is_some', 'is_none') or t[3][1:] or t[4] is None: return False
        b = f.blocks[t[4]].term
        if b[0] != 'switch' or not reads(b[1], t[3][0]): return False
        zero = next((x for v, x in b[3] if v == '0'), b[4])
        bad = zero if m in ('is_ok', 'is_some') else next((x for v, x in b[3] if v != '0'), b[4])
        return self.kept(bad, [l], bi)

    def call(self, bi, t, cl, i, l):
        """l is argument i of a call; further locals to follow."""
        f = self.f
        dest = t[3][0] if not t[3][1:] else None
        if cl is None or cl.local: return []
        m = cl.method
        if m in ('unwrap_or_else', 'map_or_else', 'or_else') and i == 0 and self.diverging(cl): return []
        if m in SWALLOW:
            if m in ('ok', 'err') and dest is not None and isopt(f.locals[dest]):
                if m == 'ok':
                    self.why = self.origin(l)
                    return [dest]
            if m in ('is_ok', 'is_err', 'is_some', 'is_none') and self.acted(l, m, bi): return []
            self.found.append((self.origin(l), m, bi))
            return []
        if m in FORWARD and dest is not None and isopt(f.locals[l]) and isopt(f.locals[dest]): return [dest]
        if m in DROPPING: self.found.append((self.origin(l), m, bi))
        return []

    def diverging(self, cl):
        """The fallback closure never returns (it reports and exits)."""
        for a in cl.args:
            g = CLOSURES.get(a)
            if g is not None and not any(g.blocks[x].term[0] == 'return' for x in g.reachable): return True
        return False

    # -- matches on a failure
    def matches(self):
        f = self.f
        sites = []
        for bi in sorted(f.reachable):
            b = f.blocks[bi]
            if b.cleanup or b.term[0] != 'switch': continue
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'discr' and s[2][2] == RES and reads(b.term[1], s[1][0]): sites.append((bi, self.place(s[2][1])))
        for bi, pl in sites:
            if any(o != bi and q == pl and self.dominates(o, bi) for o, q in sites): continue
            t = f.blocks[bi].term
            err = next((x for v, x in t[3] if v == '1'), t[4])
            self.results += 1
            if not self.kept(err, pl, bi): self.found.append((self.origin(pl[0]), 'matched', bi))

    def place(self, pl, d=0):
        """The place itself, not a reference to it."""
        if len(pl) > 1 and pl[1] == '*' and d < 4:
            src = self.sources(pl[0])
            if len(src) == 1 and src[0][0] == 'asg' and src[0][2][0] == 'ref': return self.place(src[0][2][2] + pl[2:], d + 1)
            if len(src) == 1 and src[0][0] == 'asg' and src[0][2][0] == 'use' and src[0][2][1][0] in 'my' and not src[0][2][1][1][1:]: return self.place(src[0][2][1][1] + pl[1:], d + 1)
        return pl

    def touched(self, l):
        """Is the value bound to l looked at by anything?"""
        if l == 0: return True
        f = self.f
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            if any(s[0] == '=' and reads(s[2], l) for s in b.stmts): return True
            if b.term[0] in ('call', 'switch', 'yield') and any(reads(x, l) for x in b.term[1:] if isinstance(x, list)): return True
        return False

    def dominates(self, a, b):
        """Every path from the entry to b goes through a."""
        f, seen, todo = self.f, set(), [0]
        if a == 0: return True
        while todo:
            x = todo.pop()
            if x == b: return False
            if x in seen or x == a: continue
            seen.add(x)
            todo.extend(f.succ(x))
        return True

    def kept(self, start, pl, home):
        """Every path from start uses the failure, builds another one, or ends the program."""
        f, seen, todo = self.f, set(), [start]
        if isinstance(pl[-1], list) or True: l = pl[0]
        while todo:
            x = todo.pop()
            if x == home: return False
            if x in seen: continue
            seen.add(x)
            b = f.blocks[x]
            if b.cleanup or b.term[0] == 'unreachable': continue
            ok = False
            for s in b.stmts:
                if s[0] != '=': continue
                if s[2][0] == 'agg' and (s[2][1].get('v') in ('Err', 'Break') or s[2][1].get('v') == 'None' and s[1][0] == 0): ok = True
                for q in reads(s[2], l):
                    if s[2][0] == 'discr': continue
                    if len(q) <= len(pl): ok = True
                    elif q[:len(pl)] == pl and q[len(pl)] == ['v', 'Err']: ok = ok or s[1][1:] != [] or self.touched(s[1][0])
            if b.term[0] == 'call':
                cl = f.callees.get(x)
                if cl is not None and cl.method == 'from_residual': ok = True
                if b.term[4] is None: ok = True
                if any(len(q) <= len(pl) or q[len(pl)] == ['v', 'Err'] for o in b.term[2] for q in reads(o, l)): ok = True
            if ok: continue
            if b.term[0] == 'return': return False
            todo.extend(f.succ(x))
        return True


# failures that are answered by a documented fallback: (operation, how) -> (how often, why)
FALLBACK = {
    ('parse', 'matched'): (1, 'a literal that is not a small integer stays a text literal'),
    ('next', 'matched'): (3, 'text that only looks like an image or sound tag stays text'),
    ('to_arbitrary_ms', 'unwrap_or'): (1, 'the timer starts at zero when the host clock has no readable time'),
    ('as_number', 'matched'): (1, 'a note that is not a number is read as a note name'),
    ('from_utf8', 'unwrap_or_else'): (1, 'an unreadable service error is reported as such'),
    ('recv', 'matched'): (2, 'the worker ends when its channel is closed'),
    ('from_str', 'matched'): (1, 'packets that are not JSON are ignored'),
    ('captured value', 'matched'): (1, 'packets that are not text are ignored'),
    ('try_recv', 'matched'): (1, 'nothing was received'),
    ('from_netsblox_json', 'filter_map'): (1, 'message fields without a script representation are left out'),
    ('from_utf8', 'matched'): (2, 'the request is refused as not readable'),
    ('current_local_offset', 'unwrap_or'): (1, 'UTC when the local offset is unknown'),
    ('disable_raw_mode', 'never looked at'): (1, 'the terminal is restored as far as possible while panicking'),
    ('built', 'never looked at'): (1, 'the terminal is restored as far as possible while panicking'),
}
CLOSURES, DROPPED = {}, {}


def prepare(p):
    CLOSURES.clear(); DROPPED.clear()
    for g in p.fns:
        if g.kind == 'Closure' and g.nargs: CLOSURES[g.locals[1].lstrip('&').replace('mut ', '', 1) if g.locals[1].startswith('&') else g.locals[1]] = g
    for f in p.fns:
        for bi, cl in f.callees.items():
            if cl.method in DROPPING:
                for a in cl.args:
                    g = CLOSURES.get(a)
                    if g is not None: DROPPED[g.id] = cl.method


def reported(c, p):
    """Whoever steps a project looks at the error a step can report."""
    for f in p.fns:
        if f.derived: continue
        for bi, cl in f.callees.items():
            b = f.blocks[bi]
            if b.cleanup or b.term[0] != 'call' or b.term[3][1:]: continue
            l = b.term[3][0]
            adt = strip_generics(f.locals[l])
            if not f.locals[l].startswith(adt + '<') or adt not in p.adts and adt not in c.p.adts: continue
            if not adt.endswith('ProjectStep'): continue
            c.count('callers of a project step')
            if l == 0: continue
            fl = Flow(c, p, f)
            ok = False
            for x in f.reachable:
                bb = f.blocks[x]
                if bb.cleanup: continue
                for s in bb.stmts:
                    if s[0] != '=' : continue
                    for q in places(s[2]):
                        q = fl.place(q)
                        if q[0] == l and len(q) > 2 and q[1] == ['v', 'Error'] and s[2][0] != 'discr' and (s[1][1:] or fl.touched(s[1][0])): ok = True
                if bb.term[0] == 'call':
                    cl2 = f.callees.get(x)
                    for o in bb.term[2]:
                        if o[0] == 'm' and o[1] == [l] and (cl2 is None or cl2.method not in ('drop', 'forget')): ok = True
                        if o[0] in 'my' and fl.place(o[1])[0] == l and len(o[1]) > 2 and o[1][1] == ['v', 'Error']: ok = True
            if not ok: c.violation(f'{f.path}:step', f'{f.path} steps a project and never looks at the error it may report', f.loc(b.term[-1]))


def places(x):
    out = []
    def go(x):
        if not isinstance(x, list): return
        if len(x) == 2 and x[0] in ('m', 'y') and isinstance(x[1], list) and x[1]: out.append(x[1])
        elif len(x) > 2 and x[0] in ('ref', 'addr') and isinstance(x[2], list) and x[2]: out.append(x[2])
        elif len(x) > 1 and x[0] == 'discr' and isinstance(x[1], list) and x[1]: out.append(x[1])
        else:
            for y in x: go(y)
    go(x)
    return out


def check(c):
    c.rule('every value that may hold a failure is passed on (?, map_err, returned, unwrapped), or matched so that the failing case uses the failure, builds another one or ends the program; the only exceptions are the listed fallbacks')
    found = collections.defaultdict(list)
    for p in (c.p, c.nb):
        prepare(p)
        for f in p.fns:
            if f.derived or f.promoted: continue
            fl = Flow(c, p, f).run()
            c.count('functions')
            c.count('values that may hold a failure', fl.results)
            for o, how, bi in fl.found: found[o, how].append((f, bi))
        reported(c, p)
    for (o, how), at in sorted(found.items()):
        n, why = FALLBACK.get((o, how), (0, ''))
        if len(at) <= n:
            c.count('documented fallbacks', len(at))
            c.sample(f'{o} {how}: {why}')
            continue
        for f, bi in at:
            t = f.blocks[bi].term
            c.violation(f'{f.path.rsplit("::", 1)[-1] if "{" not in f.path else f.path.split("::{")[0].rsplit("::", 1)[-1]}:{o}:{how}', f'{f.path}: the failure of {o} is dropped ({how})' + (f'; {n} such places are documented ({why})' if n else ''), f.loc(t[-1]))
    c.floor('functions', 450)
    c.floor('values that may hold a failure', 1200)
    c.floor('documented fallbacks', 8)
    c.floor('callers of a project step', 3)
    c.assume('what a failing arm does with the failure it takes up (which message, which step result) is judged by the other properties')

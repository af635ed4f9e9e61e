"""Helpers shared by the rules: running one function on symbolic arguments, finding code by role."""
from sim import *
from mir import strip_ty, ty_args
from base import Missing
import models


class Plain(Rule):
    """Inlines the crate's own functions except those named in `opaque` (path suffixes)."""
    opaque = ()
    def __init__(self, prog, opaque=(), only=None):
        self.prog = prog
        if opaque: self.opaque = tuple(opaque)
        self.only = only
    def inline(self, sim, fn):
        if any(fn.path.endswith(o) for o in self.opaque): return False
        return self.only is None or fn.file.endswith(self.only)


def runfn(p, fn, args, rule=None, store=(), facts=(), max_states=200000):
    rule = rule or Plain(p)
    sim = Sim(p, rule, max_states)
    st = St(dict(store), dict(facts), rule.init_rs)
    return sim, sim.run(fn, tuple(args), st)


def obj(name): return ('V', ('arg', name))
def refto(name): return ('ref', (obj(name), ()))


def mkvariant(p, adt, v, mk=lambda n: ('fld', n)):
    fs = p.fields(adt, v)
    return ('agg', adt, v or '', tuple(mk(n) for n, _ in fs), tuple(n for n, _ in fs))


def fieldval(v, name):
    v = strip(v)
    if v[0] == 'agg' and name in v[4]: return v[3][v[4].index(name)]
    return None


def fields_of(v): return dict(zip(v[4], v[3])) if v[0] == 'agg' else {}


def selfarg_fn(p, adt, method):
    """The inherent method `method` of `adt`."""
    fs = [f for f in p.fns if f.method == method and f.selfadt and strip_ty(f.selfadt) == adt and not f.trait and not f.promoted]
    if len(fs) != 1: raise Missing(f'{adt}::{method}')
    return fs[0]


def all_methods(p, adt):
    return [f for f in p.fns if f.selfadt and strip_ty(f.selfadt) == adt and f.kind != 'Closure' and not f.promoted]


def callsites(p, pred):
    """(fn, block, callee) for every non-cleanup reachable call satisfying pred(callee)."""
    for f in p.fns:
        for bi, cl in f.callees.items():
            if f.blocks[bi].cleanup or bi not in f.reachable: continue
            if pred(cl): yield f, bi, cl


def deepread(sim, st, v, d=0):
    """v with references replaced by what they point at."""
    v = strip(v)
    if d > 6: return v
    if v[0] == 'ref': return deepread(sim, st, sim.read(st, v[1]), d + 1)
    return v


def entry(p, fn):
    """Can the function be called from outside its own file?"""
    if fn.trait or fn.j.get('pub'): return True
    return any(p.by_id[g].file != fn.file for g in p.callers.get(fn.id, ()))

"""P14: an existing list is changed by the list-modifying blocks only; everything else builds new lists or works on its own copy."""
from stepm import *
from h import deepread
from base import Missing
from mir import strip_generics
import p02, p08
from p12 import listcall, canon, RESIZE, ASSIGN
from compile import Builder, Effects
import p03, collections

# instructions that may change the list they are given, and the blocks they stand for
MODIFY = {'ListInsert', 'ListInsertLast', 'ListInsertRandom', 'ListRemove', 'ListRemoveLast', 'ListRemoveAll', 'ListAssign', 'ListAssignLast', 'ListAssignRandom', 'ListPopFirstOrElse'}
BLOCKS = MODIFY - {'ListPopFirstOrElse'}
BUILD = {'ListCons': None, 'ListCdr': None, 'ListRev': None, 'ListFlatten': None, 'ListCartesianProduct': None, 'VariadicOp': ('MakeList', 'ListCat')}
NEWLIST = 'gc_arena::Gc::new'
EXCL = {'borrow_mut', 'try_borrow_mut', 'unlock', 'unlock_unchecked', 'get_mut', 'as_ref_cell', 'as_cell', 'as_mut_ptr', 'replace', 'replace_with', 'swap', 'take', 'set'}


def cell(cl):
    """A call giving exclusive access to a script list."""
    s = cl.rpath + ' ' + ' '.join(cl.args)
    return cl.method in EXCL and ('RefLock' in s or 'RefCell' in s or 'lock::' in s) and any('VecDeque<runtime::Value' in a for a in cl.args)


def sites(p):
    for f in p.fns:
        if f.promoted or f.derived: continue
        for bi, cl in f.callees.items():
            if bi in f.reachable and not f.blocks[bi].cleanup and cell(cl): yield f, bi, cl


THROUGH = {'unwrap', 'expect', 'into', 'from', 'clone', 'branch', 'deref', 'ok', 'copied', 'cloned', 'as_ref', 'borrow', 'as_list', 'unwrap_unchecked', 'ok_or', 'ok_or_else'}


class Origin:
    """Where the receiver of an exclusive borrow comes from, by definition chains."""
    def __init__(self, p): self.p = p

    def defs(self, f, l):
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            for s in b.stmts:
                if s[0] == '=' and s[1] == [l]: yield 's', bi, s[2]
            if b.term[0] == 'call' and b.term[3] == [l]: yield 'c', bi, b.term

    def of(self, f, l, seen=None):
        """Set of 'new', ('param', i) and 'other'."""
        seen = set() if seen is None else seen
        if l in seen: return set()
        seen.add(l)
        if 0 < l <= f.nargs: return {('param', l)}
        out, any_ = set(), False
        for k, bi, x in self.defs(f, l):
            any_ = True
            if k == 's':
                if x[0] == 'use' and x[1][0] in 'my': out |= self.of(f, x[1][1][0], seen)
                elif x[0] == 'ref': out |= self.of(f, x[2][0], seen)
                elif x[0] == 'agg' and len(x) > 2 and len(x[2]) == 1 and x[2][0][0] in 'my': out |= self.of(f, x[2][0][1][0], seen)
                elif x[0] == 'cast': out |= {y for o in x[1:] if isinstance(o, list) and len(o) == 2 and o[0] in ('m', 'y') for y in self.of(f, o[1][0], seen)} or {'other'}
                else: out.add('other')
            else:
                cl = f.callees.get(bi)
                if cl is not None and strip_generics(cl.rpath) == NEWLIST: out.add('new')
                elif cl is not None and (cl.method in THROUGH or cl.local and self.wraps(cl.local)) and x[2] and x[2][0][0] in 'my': out |= self.of(f, x[2][0][1][0], seen)
                elif cl is not None and cl.local and self.makes(cl.local): out.add('new')
                else: out.add('other')
        return out if any_ else {'other'}

    def wraps(self, i):
        """A helper of one argument that only looks inside it (as_list and the like)."""
        g = self.p.by_id.get(i)
        return g is not None and g.nargs == 1 and len(g.blocks) < 40 and self.of(g, 0) <= {('param', 1), 'other'} and ('param', 1) in self.of(g, 0)

    def makes(self, i):
        g = self.p.by_id.get(i)
        return g is not None and len(g.blocks) < 60 and self.of(g, 0) == {'new'}


class Rule14(StepRule):
    def __init__(self, prog, variant, helpers):
        super().__init__(prog, variant)
        self.v, self.helpers = variant, helpers
        self.changed, self.pushed = {}, []
    init_rs = ()

    def inline(self, sim, fn): return fn.id in self.helpers or super().inline(sim, fn)

    def on_branch(self, sim, st, cx, v, choice):
        super().on_branch(sim, st, cx, v, choice)
        ops = BUILD.get(self.v)
        if ops and v[0] == 'op' and v[1] == 'op': st.rs = tuple(x for x in st.rs if x[0] != 'op') + (('op', ('is', choice) if isinstance(choice, str) else choice),)

    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and args:
            if cell(callee):
                r = self.root(sim, st, args[0])
                if not (r[0] == 'call' and strip_generics(str(r[1])) == NEWLIST): self.changed[site] = (callee.method, r)
            if callee.method in ('push', 'insert', 'extend') and any('runtime::Value<' in a for a in callee.args) and 'vec::Vec' in callee.rpath:
                self.pushed.append((st.rs, self.root(sim, st, args[-1])))
        return super().on_call(sim, st, cx, callee, args, site)

    def root(self, sim, st, v):
        v = deepread(sim, st, v)
        for _ in range(10):
            v = canon(strip(v))
            if v[0] == 'agg' and len(v[3]) == 1: v = v[3][0]; continue
            if v[0] == 'conv': v = v[1]; continue
            if v[0] == 'call' and str(v[1]).endswith('as_list') and len(v) > 3 and v[3]: v = deepread(sim, st, v[3][0]); continue
            if v[0] == 'p' and v[2] == ('f', '0') and v[1][0] == 'p' and v[1][2][0] == 'v' and v[1][2][1] in ('Ok', 'Some'): v = v[1][1]; continue
            break
        return v


def check(c):
    p = c.p
    loc = p03.rule_src(p)
    org = Origin(p)
    c.rule('every exclusive borrow of a script list outside the instructions is taken on a list allocated in the same function, or before any script can run')
    stepf = entry_of(p, c)[1]
    inner = {stepf.id} | {g.id for g in p.fns if g.kind == 'Closure' and g.id.startswith(stepf.id)}
    running = p.reach({stepf.id}) | {f.id for f in p.fns if f.id in p.reach({g.id for g in p.fns if g.selfadt and g.selfadt.endswith('project::Project') and g.kind != 'Closure' and g.method in ('step', 'input')})}
    helpers = set()
    n = 0
    for f, bi, cl in sites(p):
        n += 1
        c.count('exclusive borrows of lists')
        if f.id == stepf.id: continue
        t = f.blocks[bi].term
        o = org.of(f, t[2][0][1][0]) if t[2][0][0] in 'my' else {'other'}
        if o == {'new'}:
            c.count('of a list allocated there'); continue
        if unused(f, t):
            c.count('released untouched'); continue
        if f.id not in running:
            c.count('before any script runs'); continue
        if f.id in p.callgraph and f.id != stepf.id and all(i in helpers or i == stepf.id or i in inner for i in p.callers.get(f.id, ())) and f.kind != 'Closure':
            helpers.add(f.id); continue           # followed from the instructions that use it
        c.violation(f'{f.path}:borrow', f'{f.path} takes exclusive access to a list it did not create', f.loc(t[-1]), [f.path])
    # small local functions that allocate lists are followed too
    for f in p.fns:
        if f.kind != 'Closure' and len(f.blocks) < 40 and not f.promoted and f.nargs and any(strip_generics(cl.rpath) == NEWLIST for cl in f.callees.values()) and 'Value' in f.locals[0] and stepf.id in p.callers.get(f.id, ()): helpers.add(f.id)

    c.rule('only the insert, replace and remove instructions (and the loop step) take exclusive access to a list operand; the list-building instructions push a newly allocated list')
    muts = set()
    for v in p.variants(INS):
        rule = Rule14(p, v, helpers)
        c.count('instruction variants')
        run_variant(p, c, v, rule=rule)
        for site, (m, r) in rule.changed.items():
            c.count('changes to an existing list')
            if v not in MODIFY: c.violation(f'{v}:changes', f'instruction {v} takes exclusive access to a list it did not create ({m})', loc)
            elif mentions(r, lambda x: x[0] == 'in'): muts.add(v)
            elif mentions(r, lambda x: x[0] in ('init', 'top')) : muts.add(v)
            else: muts.add(v)
        if v in BUILD:
            k = 0
            for rs, r in rule.pushed:
                ops = BUILD[v]
                got = [x[1] for x in rs if x[0] == 'op']
                if ops and not (got and got[-1][0] == 'is' and got[-1][1] in ops): continue
                if r[0] == 'agg' and r[2] not in ('List',): continue
                k += 1
                if not (r[0] == 'call' and strip_generics(str(r[1])) == NEWLIST): c.violation(f'{v}:aliases', f'instruction {v}' + (f' ({got[-1][1]})' if got else '') + ' reports a list that is not newly allocated', loc)
            c.count('list results shown new', k)
            if not k: raise Missing(f'no list result of instruction {v} found')
    for v in sorted(MODIFY - muts): c.violation(f'{v}:never', f'instruction {v} no longer changes the list it is given', loc)

    c.rule('in the code of every block, a list-modifying instruction is given the list the block names (modifying blocks only) or a list the same code has just built: a copy or an empty result')
    b = Builder(p)
    eff = Effects(p, c)
    fills = p02.holefills(c, b, eff)
    blocks = set()
    for ty, K, v, f, t, fl in p02.flows(c, b, eff, fills):
        L = p08.Labels(fl, eff, b, ty, v)
        for n, ins, stack, roles in L.uses:
            if ins[2] not in muts: continue
            who = f'{p02.short(K)}::{v}'
            depth = next((d for d, rs in roles.items() if 'list' in rs), None)
            lab = next((x for d, x in stack if d == depth), None) if depth is not None else None
            c.count('list operands traced')
            if lab is None: c.violation(f'{who}:{ins[2]}:unknown', f'{who}: the list changed by {ins[2]} cannot be traced', f.loc(), [f.path]); continue
            if lab[0] == 'copy' or lab[0] == 'res' and lab[1] == 'VariadicOp':
                c.count('own lists'); blocks.add(who); continue
            if lab[0] == 'one' and v in BLOCKS and ins[2] == v and lab[1].split('.')[0] == 'list': c.count('named lists'); continue
            c.violation(f'{who}:{ins[2]}:foreign', f'{who}: {ins[2]} is given ' + (f'the block\'s own {lab[1]}' if lab[0] == 'one' else f'the result of {lab[1]}') + ' instead of a copy', f.loc(), [f.path])
    for w in sorted(blocks): c.sample(f'{w}: consumes its own copy')
    c.floor('exclusive borrows of lists', 8); c.floor('changes to an existing list', 9); c.floor('list results shown new', 7)
    c.floor('named lists', 8); c.floor('own lists', 5); c.floor('instruction variants', 90)
    c.assume('the host does not change lists it is handed (commands, requests and messages carry values the host converts to its own form)')


def unused(f, t):
    """The exclusive borrow is released without being used."""
    l = t[3][0]
    def has(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('m', 'y') and isinstance(x[1], list) and x[1] and x[1][0] == l: return True
            if len(x) > 2 and x[0] == 'ref' and x[2] and x[2][0] == l: return True
            return any(has(y) for y in x)
        return False
    for bi in f.reachable:
        b = f.blocks[bi]
        if b.cleanup: continue
        if any(s[0] == '=' and has(s[2]) for s in b.stmts): return False
        if b.term[0] == 'call':
            cl = f.callees.get(bi)
            if any(has(o) for o in b.term[2]) and not (cl is not None and cl.method in ('drop', 'forget')): return False
    return True

"""P06: runaway recursion of any kind ends in a catchable error."""
from sim import *
from stepm import *
from base import Missing
import p03, p05


def is_limit(v):
    return mentions(v, lambda x: x == ('f', 'max_call_depth'))


class LimitRule(p05.CtxRule):
    """rs[1] collects, per comparison of the call depth with the limit, which side of it the path took."""
    def on_branch(self, sim, st, cx, v, choice):
        if v[0] != 'bin' or v[1] not in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne'): return
        if isinstance(choice, tuple): choice = choice[1] if choice[0] == 'is' else ('0' if '1' in choice[1] else '1')
        d = ladd(lin(v[2]), lin(v[3]), -1)
        k = [x for x in d if x != '']
        depth_ = [x for x in k if x == ('len0', 'call')]
        lim = [x for x in k if x != ('len0', 'call') and is_limit(x)]
        if len(k) == 2 and depth_ and lim and d[depth_[0]] == -d[lim[0]]:
            s = d[depth_[0]]
            op = {'Gt': lambda x: x > 0, 'Ge': lambda x: x >= 0, 'Lt': lambda x: x < 0, 'Le': lambda x: x <= 0, 'Eq': lambda x: x == 0, 'Ne': lambda x: x != 0}[v[1]]
            sat = tuple(n for n in range(-4, 5) if op(s * n + d.get('', 0)) == (choice == '1'))
            st.rs = (st.rs[0], st.rs[1] + (sat,))


def check(c):
    p = c.p
    c.rule('on every path through an instruction that pushes a call frame, the number of frames was compared with settings.max_call_depth and found smaller; every path on which it was not ends in the call-depth error, before the script is changed')
    src = p03.rule_src(p)
    if not any(n == 'max_call_depth' for a in p.adts if a.endswith('::Settings') for n, _ in p.fields(a)): raise Missing('Settings::max_call_depth')
    for v in p.variants(INS):
        rule, sim, ex = run_variant(p, c, v, rule=LimitRule(p, v))
        c.count('instruction variants')
        pushes = False
        for st, ret in ex:
            cs = selfread(sim, st, rule.stacks['call'])
            grew = cs[0] == 'stk' and len(cs[3]) > 0
            refused = any(min(s, default=0) >= 0 and s for s in st.rs[1])
            if grew:
                pushes = True
                c.count('pushing paths')
                if not any(s and max(s) < 0 for s in st.rs[1]): c.violation(f'unchecked:{v}', f'{v} pushes a call frame without having checked the call depth against the configured limit', src)
            elif refused:
                c.count('refusing paths')
                e = ret[3][0] if ret[0] == 'agg' and ret[2] == 'Err' else None
                if e is None or not mentions(e, lambda x: x[0] == 'agg' and x[2] == 'CallDepthLimit'): c.violation(f'refusal:{v}', f'{v} does not raise the call-depth error when the limit is reached', src)
        if pushes: c.count('frame-pushing instructions'); c.sample(f'{v}: every frame push is behind depth < max_call_depth')
    # frames come from nowhere else
    c.rule('no other code pushes onto a process\'s call stack')
    step, impl = entry_of(p, c)
    inside = p.reach([impl.id])
    for f in p.fns:
        for bi in f.reachable:
            b = f.blocks[bi]
            if b.cleanup: continue
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1].get('k') == 'adt' and strip_ty(s[2][1]['adt']).endswith('CallFrame'):
                    c.count('frame constructions')
                    if f.id not in inside and f.path != 'process::Process::new' and not f.derived:
                        c.violation(f'frame-elsewhere:{f.path}', f'{f.path} builds a call frame outside the interpreter step', f.loc(s[3]))
    c.floor('instruction variants', 90); c.floor('frame-pushing instructions', 2); c.floor('refusing paths', 2); c.floor('frame constructions', 3)

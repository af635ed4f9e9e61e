"""What each instruction asks of the host: the calls on the System object along every path."""
from sim import *
from stepm import *
from h import *


class IssueRule(StepRule):
    """rs collects (method, call value, arguments read through references) per host call."""
    keep = True
    def on_call(self, sim, st, cx, callee, args, site):
        r = super().on_call(sim, st, cx, callee, args, site)
        if callee is not None and callee.trait and callee.trait.endswith('runtime::System') and r:
            st2, v = r[0]
            st2.rs = st2.rs + ((callee.method, v, tuple(deepread(sim, st2, a) for a in args)),)
        return r


def issues(p, c, variant):
    rule, sim, ex = run_variant(p, c, variant, rule=IssueRule(p, variant))
    return rule, sim, ex

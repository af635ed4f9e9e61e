#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property from /repo's current source."""
import sys, os, importlib
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
import base


def main():
    pid = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv else 'quick'
    c = base.Check(pid, tier)
    mod = importlib.import_module(pid.lower())
    from sim import Budget
    import resource, signal
    resource.setrlimit(resource.RLIMIT_AS, (22 << 30, 22 << 30))
    def late(*_): raise Budget('the code within the time there is')
    signal.signal(signal.SIGALRM, late); signal.alarm(800)
    try:
        mod.check(c)
        signal.alarm(0)
    except base.Missing as e:
        c.violation(f'anchor:{e}', f'the code this rule is anchored in is gone ({e}); the property is no longer shown')
    except Budget as e:
        c.violation(f'budget:{e}', f'the paths of {e} could not be enumerated; the property is no longer shown')
    except SystemExit as e:
        print(e.code, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        c.violation('undecided:' + tb.strip().splitlines()[-1][:120], 'the rule could not be evaluated on this tree; the property is no longer shown')
    return base.finish(c)


if __name__ == '__main__': sys.exit(main())

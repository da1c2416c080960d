#!/usr/bin/env python3
"""check.py <ID>: decides one property on /repo's current sources."""
import importlib
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
BUDGET = 660     # seconds; what is left then stays undecided
state = {}


def main():
    import core
    import load
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid.lower())
    try:
        prog = load.Program()
        ctx = core.Ctx(pid, prog, tier, seed)
        state.update(ctx=ctx, meta=mod.META)
        try:
            mod.run(ctx)
        except load.AnalysisBroken:
            raise
        except core.TimeUp:
            ctx.unknown('the remaining obligations', '', 'out of time')
        except Exception as e:  # the rest of the program is outside what the rules can decide
            import traceback
            traceback.print_exc()
            ctx.unknown('the remaining obligations', '', 'analysis stopped: %r' % e)
    except load.AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 2
    return core.finish(ctx, mod.META)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join(BUDGET)
    if t.is_alive() and state:
        import core
        state['ctx'].unknown('the remaining obligations', '', 'not decided within %d s' % BUDGET)
        rc.append(core.finish(state['ctx'], dict(state['meta'], min=0)))
    else:
        t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)

#!/usr/bin/env python3
"""check.py <property id>: re-extracts the facts of /repo's current tree and decides one property."""
import importlib, json, os, sys, time, traceback

if os.environ.get('PYTHONHASHSEED') != '0':       # the same order, and so the same report, on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import facts        # noqa: E402
from rules import base   # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    ctx = base.Ctx(pid, tier)
    out = None
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        ctx.level = getattr(mod, 'LEVEL', 'other')
        out = facts.extract()
        ctx.crates = facts.load(out)
        ctx.ready()
        mod.run(ctx)
        ctx.finish_rule(mod)
    except facts.ExtractError as e:
        ctx.viol('extract', '/repo', 'the tree could not be analysed: %s' % e)
    except base.Missing as e:
        ctx.viol('anchor:' + str(e), '/repo', 'the rule can not find what it is anchored to: %s' % e)
    except Exception as e:       # fail closed: an analysis that breaks down has decided nothing
        ctx.viol('internal:' + type(e).__name__, '/repo',
                 'the analysis broke down: %r\n%s' % (e, traceback.format_exc()))
    finally:
        if out:
            facts.drop(out)
    return ctx.report(seed, time.time() - t0)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property by running the real code under monitors."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError, Violation
import plans


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    plan = plans.PLANS[prop]
    run = vlib.Run(prop, tier, seed, plan.get('level', 'exploration'))
    try:
        try:
            if '--replay' in a:
                rp = json.load(open(a[a.index('--replay') + 1]))
                run.seed, run.tier = rp['seed'], rp['tier']
                plans.replay(run, plan, rp)
                print('replay: no violation')
                return 0
            plans.execute(run, plan)
        except Violation as v:
            if '--replay' in a:
                print('replay: VIOLATION reproduced: ' + v.msg)
                return 1
            for p, rx, text in vlib.known_findings():
                if p == prop and rx.search(v.msg):
                    print('KNOWN-FINDING: property=%s %s' % (prop, text))
                    run.evidence(plan['rule'], plan.get('assumptions', ()), 0)
                    return 0
            path = vlib.write_replay(prop, v.replay)
            run.evidence(plan['rule'], plan.get('assumptions', ()), 1)
            print('%s: %s' % (prop, v.msg))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        run.evidence(plan['rule'], plan.get('assumptions', ()), 0)
        print('%s held: %d evaluations, %d distinct non-trivial, %.1f s' % (prop, run.evals, len(run.distinct) + run.extra, time.time() - run.t0))
        return 0
    except CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()
        run.builder.prune()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

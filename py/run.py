#!/usr/bin/env python3
"""run.py --site DIR --work DIR --property C41 --tier T --out FILE --replay-out FILE --workers N --cap S [--only S] | --replay FILE"""
import argparse, json, os, sys, time
from time import monotonic
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bindings, explore, tools


def main():
    ap = argparse.ArgumentParser()
    for k in ('site', 'work', 'property', 'tier', 'out', 'replay-out', 'only', 'replay', 'known'):
        ap.add_argument('--' + k)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--cap', type=float, default=420)
    a = ap.parse_args()
    try:
        bindings.load(a.site)
        tools.SITE = a.site
        r = json.load(open(a.replay)) if a.replay else {}
        a.property = a.property or r.get('property')
        c = bindings.layout(os.path.join(a.site, 'embc', 'libembc.dll'), a.work) if a.property == 'C41' else None
        scenarios = tools.SCENARIOS.get(a.property, bindings.SCENARIOS)
    except (AttributeError, ImportError, OSError, SyntaxError) as e:
        print('violation: the package does not load: %s' % e)
        c = None
        if a.replay:
            return 1
        msg = 'the package does not load: %s' % e
        json.dump({'property': a.property, 'scenario': 'load', 'tier': a.tier, 'message': msg, 'choices': [], 'trace': []}, open(a.replay_out, 'w'))
        print('VIOLATION property=%s replay=%s' % (a.property, a.replay_out))
        json.dump({'states': 0, 'states_saturated': 0, 'known': [], 'scenarios': []}, open(a.out, 'w'))
        return 1
    if a.replay:
        for name, run, dq, dt, arg in scenarios:
            if name == r['scenario']:
                msg, trace = explore.replay(run, r['choices'], dt if r['tier'] == 'thorough' else dq, r['tier'] == 'thorough', c if arg == 'layout' else arg)
                print('\n'.join(trace))
                print('VIOLATION: ' + msg if msg else 'no violation')
                return 1 if msg else 0
        print('no such scenario')
        return 2
    thorough = a.tier == 'thorough'
    out, states, rc, t0 = [], set(), 0, monotonic()
    for name, run, dq, dt, arg in scenarios:
        if a.only and a.only not in name:
            continue
        t = monotonic()
        dev = dt if thorough else dq
        arg = c if arg == 'layout' else arg
        r = explore.explore(run, dev, thorough, arg, 1 if name in ('declarations', 'error codes') else a.workers, max(5, a.cap - (t - t0)))
        st = {(name, s) for s in r['states']}
        out.append({'scenario': name, 'executions': r['executions'], 'transitions': r['transitions'], 'pruned': r['pruned'], 'new_states': len(st),
                    'max_choices': r['max_choices'], 'deviation_bound': dev, 'complete': r['complete'], 'wall_s': round(monotonic() - t, 2), 'samples': r['samples']})
        states |= st
        if r['violation']:
            msg, trace = explore.replay(run, r['vec'], dev, thorough, arg)
            if msg is None:
                print('check error: violation in %s does not replay: %s' % (name, r['violation']))
                return 2
            print('violation in scenario %s: %s' % (name, msg))
            for l in trace[-40:]:
                print('    ' + l)
            json.dump({'property': a.property, 'scenario': name, 'tier': a.tier, 'dev': dev, 'message': msg, 'choices': r['vec'], 'trace': trace[-400:]}, open(a.replay_out, 'w'))
            print('VIOLATION property=%s replay=%s' % (a.property, a.replay_out), flush=True)
            rc = 1
            break
    json.dump({'states': len(states), 'states_saturated': 0, 'known': [], 'scenarios': out}, open(a.out, 'w'))
    return rc


if __name__ == '__main__':
    sys.exit(main())

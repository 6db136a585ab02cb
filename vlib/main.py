import importlib
import json
import sys
import time
import fractions


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    mod = importlib.import_module('checks.%s' % pid.lower())
    from . import harness
    if tier == 'replay':
        with open(sys.argv[3]) as f:
            v = json.load(f)
        vals = {}
        for k, x in v['values'].items():
            try:
                vals[k] = fractions.Fraction(x)
            except ValueError:
                vals[k] = x
        print('recorded:', v['detail'])
        for t in ('quick', 'thorough'):
            for name, fn, kw in mod.scenarios(t):
                if name == v['scenario']:
                    kw = dict(kw)
                    r = harness.run_scenario(name, fn, kw, replay={v['key']: vals})
                    for w in r['violations']:
                        print('REPLAY %s/%s: %s' % (name, w['key'], w['detail']))
                    if r['error']:
                        print(r['error'])
                    return 0
        print('no such scenario')
        return 2
    only = sys.argv[3:]
    scen = [s for s in mod.scenarios(tier) if not only or any(s[0].startswith(o) for o in only)]
    results = harness.run_all(scen, jobs=8, limit=mod.META.get('limit', {}).get(tier, 700 if tier == 'quick' else 3000),
                              trace=(tier == 'thorough'))
    # an exception of the real code is confirmed by a second run
    again = [s for s in scen if any(r['name'] == s[0] and r.get('raised') for r in results)]
    if again:
        second = harness.run_all(again, jobs=8, limit=600)
        for r in results:
            if r.get('raised'):
                r2 = [x for x in second if x['name'] == r['name']]
                if not r2 or not r2[0].get('raised'):
                    r['violations'] = [v for v in r['violations'] if v['key'] != 'exception']
                    r['error'] = 'exception that did not reproduce'
    return harness.finish(pid, tier, results, t0, mod.META)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

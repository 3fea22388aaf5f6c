"""run.py PROP [--tier T] [--seed N] [--budget S] [--one NAME JSON]: bounded cases of one property on the real code; a JSON report on stdout"""
import argparse, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import h as hh
from cases import CASES
import cases2
from h import H, Violation, Broken


def one(have, run, params):
    x = H(have)
    try:
        run(x, json.loads(json.dumps(params)))
    except FileNotFoundError as e:
        # a file the case looks at after the real code should have written it
        if str(e.filename or '').startswith((x.local, x.remote)):
            raise Violation('there is no file %s' % os.path.relpath(e.filename, x.dir))
        raise
    except KeyError as e:
        if e.args and isinstance(e.args[0], str) and (e.args[0].endswith('.zst') or e.args[0] == 'current'):
            raise Violation('there is no file %s' % e.args[0])
        raise
    finally:
        x.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--one', nargs=2)
    ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--log', default='/dev/stderr')
    a = ap.parse_args()
    log = open(a.log, 'w')
    have = hh.build(log) if not a.nobuild else {'artefacta': True, 'probe': True, 'shim': True, 'hook': True}
    rep = {'property': a.prop, 'have': have, 'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'broken': [], 'per_case': {}}
    if a.one:
        name, params = a.one
        run = {n: c for n, c, w in CASES[a.prop]}[name].run
        try:
            one(have, run, json.loads(params))
            print('held')
        except Violation as v:
            print('VIOLATED:', v)
            sys.exit(1)
        return
    cases = CASES.get(a.prop, [])
    end = time.time() + a.budget
    rngs = {n: random.Random('%s %s %d' % (a.prop, n, a.seed)) for n, c, w in cases}
    seen = set()
    order = [(n, c) for n, c, w in cases for _ in range(w)]
    fixed = [(n, c, p) for n, c, w in cases for p in getattr(c, 'fixed', [])]
    i = 0
    while cases and (time.time() < end or i < len(cases)) and not rep['violations']:
        if fixed:
            n, c, params = fixed.pop(0)
        else:
            n, c = order[i % len(order)]
            i += 1
            params = c.gen(rngs[n])
        key = n + json.dumps(params, sort_keys=True)
        rep['evaluations'] += 1
        if key not in seen:
            seen.add(key)
            rep['distinct'] += 1
        pc = rep['per_case'].setdefault(n, [0, 0.0])
        t0 = time.time()
        try:
            one(have, c.run, params)
        except Violation as v:
            again = 0
            for _ in range(4):
                try:
                    one(have, c.run, params)
                except Violation:
                    again += 1
                except Exception:
                    pass
            rep['violations'].append({'case': n, 'params': params, 'what': str(v), 'again': '%d of 4' % again})
        except Broken as b:
            rep['broken'].append('%s: %s' % (n, b))
            order = [o for o in order if o[0] != n]
            if not order:
                break
        except Exception:
            rep['broken'].append('%s %s: %s' % (n, json.dumps(params)[:500], traceback.format_exc()[-1500:]))
            if len(rep['broken']) > 5:
                break
        pc[0] += 1
        pc[1] += time.time() - t0
        if len(rep['samples']) < 3:
            rep['samples'].append({'case': n, 'params': json.dumps(params)[:400]})
    rep['per_case'] = {k: {'runs': v[0], 'seconds': round(v[1], 2)} for k, v in rep['per_case'].items()}
    print(json.dumps(rep, indent=1))


main()

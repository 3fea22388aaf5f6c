"""check.py PROPERTY [--tier quick|thorough]; exit 0: held, exit 1: a line VIOLATION"""
import argparse, fcntl, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'driver'))
sys.path.insert(0, os.path.join(HERE, 'replay'))
import verify
from props import PROPS, COMMON, EXTRA

T0 = time.time()


def harness(prop, tier, seed, budget, log):
    """the bounded cases on the real code"""
    r = subprocess.run([sys.executable, os.path.join(HERE, 'replay', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget), '--log', log],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    try:
        return json.loads(r.stdout[r.stdout.index('{'):])
    except ValueError:
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'broken': ['the harness ended with %d: %s' % (r.returncode, r.stderr[-1500:])], 'per_case': {}}


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\w+) case=(\w+) params=(\{.*?\}) :: (.*)', l)
        if m:
            out.append({'property': m.group(1), 'case': m.group(2), 'params': json.loads(m.group(3)), 'what': m.group(4).strip()})
    return out


def clauses(f, specs):
    """number of obligations of a function: its postconditions, the invariants of its loops, and its body (preconditions of what it calls, arithmetic, panics, termination)"""
    s = specs.get(f['key'], {})
    n = len(verify.split_clauses(s.get('ensures', ''))) or 1
    inv = 0
    for k, v in s.items():
        if re.match(r'loop \d+ (invariant|invariant_except_break|ensures)$', k):
            inv += len(verify.split_clauses(v))
    return n + inv + 1


def load_specs():
    """the sections of the spec files, by function"""
    out = {}
    d = os.path.join(HERE, 'specs')
    for n in sorted(os.listdir(d)):
        cur = sec = None
        for l in open(os.path.join(d, n)):
            l = l.rstrip('\n')
            if not l.strip() or l.strip().startswith('#'):
                continue
            m = re.match(r'(fn|impl|type|mod) (.*)', l)
            if m:
                k = m.group(2).strip()
                k = re.sub(r'\s', '', k)
                if m.group(1) == 'fn':
                    k = re.sub(r'\([^()]*\)$', '', k)
                cur = out.setdefault(k, {}) if m.group(1) == 'fn' else {}
                sec = None
            elif not l.startswith('    ') or sec is None:
                k, _, v = l.strip().partition(':')
                sec = k.strip()
                cur[sec] = (cur.get(sec, '') + ' ' + v).strip()
            else:
                cur[sec] += '\n' + l.strip()
    return out


def assumed():
    """mechanical scan of what is assumed and not proved"""
    n = {'external_body': 0, 'axiom': 0, 'assume_specification': 0, 'uninterp': 0, 'assume(': 0, 'admit(': 0}
    for d in ('prelude', 'specs'):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if not f.endswith(('.rs', '.spec')):
                continue
            t = open(os.path.join(HERE, d, f)).read()
            t = re.sub(r'//[^\n]*', '', t)
            n['external_body'] += len(re.findall(r'external_body', t))
            n['axiom'] += len(re.findall(r'\baxiom fn', t))
            n['assume_specification'] += len(re.findall(r'assume_specification', t))
            n['uninterp'] += len(re.findall(r'uninterp spec fn', t))
            n['assume('] += len(re.findall(r'\bassume\(', t))
            n['admit('] += len(re.findall(r'\badmit\(', t))
    return n


def intact(k, f, base, fns):
    """whether the contract of a function still fits its text, so that a failed obligation says something about the code"""
    b = base.get(k)
    if not b:
        return 'it is new'
    for x in ('loops', 'closures', 'params'):
        if f[x] != b[x]:
            return 'the number of its %s changed from %d to %d' % (x, b[x], f[x])
    if f['problems'] != b['problems']:
        return '; '.join(f['problems'])
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--noharness', action='store_true')
    ap.add_argument('--baseline', action='store_true')
    a = ap.parse_args()
    log = open(os.path.join(tempfile.gettempdir(), 'verif-check.%d.log' % os.getpid()), 'w+')
    if a.setup:
        verify.build_vx(sys.stdout)
        import h
        print(h.build(sys.stdout))
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = a.prop
    budget = a.budget or (45 if tier == 'quick' else 480)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if a.baseline:
        verify.build_vx(sys.stdout)
        r = verify.Run(work, sys.stderr).go()
        keep = {k: {'loops': f['loops'], 'closures': f['closures'], 'params': f['params'], 'problems': f['problems'], 'contract': f['contract'], 'state': r.state.get(k)} for k, f in sorted(r.fns.items())}
        with open(os.path.join(HERE, 'driver', 'baseline.json'), 'w') as f:
            f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in keep.items()) + '\n}\n')
        shutil.rmtree(work)
        print({s: sum(1 for x in r.state.values() if x == s) for s in set(r.state.values())}, r.errors, r.lemma_fail)
        return 0
    res = {}

    def run_h():
        try:
            res['h'] = harness(prop, tier, seed, budget, log.name)
        except Exception as e:
            res['h'] = {'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'broken': [repr(e)], 'per_case': {}}
    th = threading.Thread(target=run_h)
    if not a.noharness:
        th.start()
    run = verify.Run(work, log)
    try:
        verify.build_vx(log)
        run.go()
    except Exception as e:
        run.errors.append(str(e)[:1500])
        log.write(traceback.format_exc())
    if not a.noharness:
        th.join()
    hr = res.get('h') or {'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'broken': ['not run'], 'per_case': {}}

    # ---- the proof
    base = json.load(open(os.path.join(HERE, 'driver', 'baseline.json')))
    specs = load_specs()
    cfg = PROPS[prop]
    obligations, discharged, under, undecided, alarms, missing, trusted = 0, 0, [], [], [], [], []
    for k in dict.fromkeys(cfg['fns']):
        f = run.fns.get(k)
        n = 0
        if run.errors:
            undecided.append({'function': k, 'reason': run.errors[0]})
            continue
        if f is None:
            missing.append(k)
            continue
        if base.get(k, {}).get('state') == 'trusted' or f['status'] == 'trusted':
            trusted.append(k)
            continue
        n = clauses(f, specs)
        bad = [x for x in run.fails.get(k, []) if x['tags'] is None or prop in x['tags']]
        st = run.state.get(k)
        obligations += n
        if st == 'undecided':
            undecided.append({'function': k, 'reason': run.why.get(k)})
            continue
        if st == 'failed' and bad:
            discharged += max(0, n - len(bad))
            if base.get(k, {}).get('state') != 'verified':
                undecided.append({'function': k, 'reason': 'not proved on the unchanged tree either'})
                continue
            why = intact(k, f, base, run.fns)
            soft = [x for x in bad if x['kind'] not in ('postcondition', 'precondition', 'arithmetic')]
            new = [c for c in run.fns if c not in base]
            if why or new:
                undecided.append({'function': k, 'reason': why or 'calls functions without a contract: ' + ', '.join(new)})
            elif len(soft) == len(bad):
                undecided.append({'function': k, 'reason': 'a loop invariant of the proof does not fit: ' + soft[0]['clause'][:200]})
            else:
                hard = [x for x in bad if x not in soft]
                alarms.append({'function': k, 'file': f['file'].replace('/repo/', ''), 'failed': hard})
            continue
        discharged += n
        under.append(k)
    for l in cfg['lemmas']:
        if run.errors:
            continue
        obligations += 1
        if not any(re.search(r'proof fn %s\b' % l, x) for x in run.lines):
            undecided.append({'function': l, 'reason': 'there is no such lemma'})
        elif any(x.get('lemma') == l for x in run.lemma_fail):
            undecided.append({'function': l, 'reason': 'lemma not proved'})
        else:
            discharged += 1
    if not run.errors and not run.canary:
        undecided.append({'function': 'canary', 'reason': 'the axioms of the model are contradictory'})
    if not run.errors and run.units == 0:
        undecided.append({'function': '-', 'reason': 'no obligation was generated'})

    # ---- verdict
    found = [v for v in hr['violations']]
    kn = [k for k in known() if k['property'] == prop]
    fresh = []
    for v in found:
        if not any(k['case'] == v['case'] and k['params'] == v['params'] for k in kn):
            fresh.append(v)
    shown = []
    if kn and not a.noharness:
        import cases2  # noqa: fills CASES
        for k in kn:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'replay', 'run.py'), prop, '--nobuild', '--one', k['case'], json.dumps(k['params'])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode == 1 and 'VIOLATED' in r.stdout:
                shown.append(k)
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if alarms and not fresh and not a.noharness:
        # look harder for an input
        hr2 = harness(prop, tier, seed + 1000, 120, log.name)
        fresh = hr2['violations']
        hr['evaluations'] += hr2['evaluations']
        hr['distinct'] += hr2['distinct']
    status, line = 0, None
    replay = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
    if fresh or alarms:
        rec = {'property': prop, 'failed_obligations': alarms, 'undecided': undecided, 'failing_input': fresh[:3],
               'run_again': ['python3 replay/run.py %s --one %s %s' % (prop, v['case'], json.dumps(json.dumps(v['params']))) for v in fresh[:1]], 'verifier': run.cmd}
        json.dump(rec, open(replay, 'w'), indent=1)
        status = 1
        line = 'VIOLATION property=%s replay=%s' % (prop, replay) + ('' if fresh else ' no-failing-input-found')
    elif os.path.exists(replay):
        os.remove(replay)
    q = [v for k, v in run.queries.items()]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'),
        'coverage': {
            'evaluations': hr['evaluations'], 'distinct_nontrivial': hr['distinct'], 'rule': 'generated cases of replay/cases*.py; distinct parameters', 'samples': hr['samples'],
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'vx /repo/src specs prelude out.rs map.json && ' + run.cmd,
            'trusted_base': ['verus 0.2026.09.13 with its z3', 'rustc', '/verif/extract (vx)', '/verif/prelude: stubs of std, zstd, tar, walkdir, tempfile, petgraph, bidiff, bipatch, md5, base64, url, rusoto, git2'] + ['contract without proof: ' + k for k in trusted],
            'functions_under_contract': under, 'functions_undecided': undecided, 'functions_missing': missing, 'lemmas': cfg['lemmas'],
            'failed_obligations': alarms,
            'all_proof_units_verified': run.units, 'smt_ms_all_units': run.smt_ms, 'verifier_seconds': round(run.seconds, 1), 'back_end': 'z3 (through Verus)',
            'smt_queries_all_units': len(q), 'canary_rejected': run.canary,
            'assumed': assumed(),
            'bounded': {'what': 'cases run on the real program and library; supports the model, replays violations, and stands in for undecided functions; never counted as proved',
                        'evaluations': hr['evaluations'], 'distinct_nontrivial': hr['distinct'], 'per_case': hr['per_case'], 'samples': hr['samples'], 'not_available': hr['broken'][:5]},
        },
        'assumptions': COMMON + EXTRA.get(prop, []),
        'wall_s': round(time.time() - T0, 1), 'violations': len(fresh) + len(alarms),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w'), indent=1)
    print('%s: %d of %d obligations discharged in %d functions and %d lemmas; %d undecided; %d bounded cases%s' % (prop, discharged, obligations, len(under), len(cfg['lemmas']), len(undecided), hr['evaluations'], (' (not available: %s)' % hr['broken'][0][:300]) if hr['broken'] else ''))
    for u in undecided[:10]:
        print('  undecided: %s: %s' % (u['function'], str(u['reason'])[:200]))
    for x in alarms:
        for y in x['failed'][:3]:
            print('  failed: %s (%s:%s): %s %s' % (x['function'], x['file'], y['line'], y['kind'], y['clause'][:200]))
    for v in fresh[:2]:
        print('  input: %s %s: %s' % (v['case'], json.dumps(v['params'])[:300], v['what'][:300]))
    if line:
        print(line)
    shutil.rmtree(work, ignore_errors=True)
    log.close()
    os.remove(log.name)
    return status


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())

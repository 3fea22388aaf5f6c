"""For every function under contract: is anything proved about nothing? Adds one clause to its postcondition that must fail:
`false` (the end is reachable), and for results `!(r is Ok)` (success is reachable). usage: vacuity.py [KEY...]"""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'driver'))
import verify
W = tempfile.mkdtemp(prefix='vacuity-')
VX = [verify.VX, verify.SRC, os.path.join(HERE, 'specs'), os.path.join(HERE, 'prelude'), W + '/out.rs', W + '/map.json']
subprocess.run(VX, check=True, stdout=subprocess.DEVNULL)
src = open(W + '/out.rs').read()
fns = {f['key']: f for f in json.load(open(W + '/map.json'))['fns']}


def variant(key, clause):
    i = src.index('//@fn %s\n' % key)
    k = src.index('\n {\n', i)
    head = src[i:k].rstrip()
    if re.search(r'^\s*ensures', head, re.M):
        head = head.rstrip(',') + ',\n   ' + clause
    else:
        head += '\n   ensures ' + clause
    return src[:i] + head + src[k:]


def run(job):
    key, clause = job
    d = tempfile.mkdtemp(dir=W)
    t = variant(key, clause)
    open(d + '/out.rs', 'w').write(t)
    n = verus(d, t, key)
    subprocess.run(['rm', '-r', d])
    return key, clause, n


def verus(d, t, key):
    r = subprocess.run(['verus', 'out.rs', '--crate-type', 'lib', '--triggers-mode', 'silent', '--error-format=json', '--num-threads', '1', '--rlimit', '30'] + sel(key), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    es = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            x = json.loads(l)
            if x.get('level') == 'error' and not x['message'].startswith('aborting'):
                es.append(x['message'])
    m = re.search(r'(\d+) verified, (\d+) errors', r.stdout + r.stderr)
    return (m.groups() if m else None), es[:3]


def sel(key):
    f = fns[key]
    mod = re.sub(r'.*/src/|\.rs$|/mod\.rs$', '', f['file']).replace('/mod', '').replace('/', '::')
    mod = {'lib': '', 'main': 'bin'}.get(mod, mod)
    return (['--verify-only-module', mod] if mod else ['--verify-root']) + ['--verify-function', '*' + re.sub(r'.*::', '', key)]


if __name__ == '__main__':
    want = sys.argv[1:]
    jobs = []
    base = json.load(open(os.path.join(HERE, 'driver', 'baseline.json')))
    for k, f in fns.items():
        if (want and not any(x in k for x in want)) or not base.get(k, {}).get('contract') or base[k]['state'] != 'verified':
            continue
        i = src.index('//@fn %s\n' % k)
        head = src[i:src.index('\n {\n', i)]
        jobs.append((k, 'false'))
        if re.search(r'-> \(r\s*:\s*(\w+\s*::\s*)*(Std)?Result\b', head):
            jobs.append((k, '!(r is Ok)'))
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for key, clause, (n, es) in ex.map(run, jobs):
            ok = n and n[1] != '0' and any('postcondition' in e for e in es)
            if not ok:
                bad += 1
                print('VACUOUS?' if n and n[1] == '0' else 'ERROR', key, clause, n, es)
    print('%d variants, %d not rejected' % (len(jobs), bad))
    subprocess.run(['rm', '-r', W])

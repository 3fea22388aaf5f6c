"""Extracts the functions of /repo/src with their contracts and runs Verus on them."""
import fcntl, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_SRC', '/repo/src')
VX = os.path.join(HERE, 'extract', 'target', 'debug', 'vx')

# messages about an obligation that the solver did not accept
KINDS = [
    ('postcondition not satisfied', 'postcondition'),
    ('precondition not satisfied', 'precondition'),
    ('invariant not satisfied', 'invariant'),
    ('loop ensures not satisfied', 'invariant'),
    ('loop invariant', 'invariant'),
    ('assertion failed', 'assertion'),
    ('assertion not satisfied', 'assertion'),
    ('possible arithmetic', 'arithmetic'),
    ('possible division by zero', 'arithmetic'),
    ('possible bit shift', 'arithmetic'),
    ('decreases not satisfied', 'termination'),
    ('could not prove termination', 'termination'),
    ('unable to prove', 'assertion'),
    ('argument bounds check', 'precondition'),
    ('constructed value may fail to meet its declared type invariant', 'assertion'),
    ('resource limit', 'rlimit'),
    ('rlimit', 'rlimit'),
    ('while loop: Resource', 'rlimit'),
]


def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never',
             PATH='/root/.cargo/bin:' + e.get('PATH', ''))
    e.pop('RUSTFLAGS', None)
    return e


def build_vx(log):
    with open(os.path.join(HERE, 'extract', '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=os.path.join(HERE, 'extract'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log.write(r.stdout)
        raise RuntimeError('the extractor does not build')


def split_clauses(t):
    """the clauses of an ensures or invariant section"""
    out, depth, cur, binder = [], 0, '', False
    i = 0
    while i < len(t):
        c = t[i]
        if c == '/' and t[i:i + 2] == '/*':
            j = t.index('*/', i) + 2
            i = j
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == '|' and t[i:i + 2] == '||' and not binder:
            cur += '||'
            i += 2
            continue
        if c == '|':
            if binder:
                binder = False
            elif re.search(r'(forall|exists|choose|\(|,|=)\s*$', cur):
                binder = True
        if c == ',' and depth == 0 and not binder:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    out.append(cur.strip())
    return [x for x in out if x]


class Run:
    """one verification of the whole crate"""

    def __init__(self, work, log):
        self.work, self.log = work, log
        self.state = {}     # key -> 'verified' | 'failed' | 'undecided' | 'trusted'
        self.fails = {}     # key -> list of failures
        self.why = {}       # key -> reason for undecided
        self.errors = []    # failures of the whole extraction
        self.fns = {}
        self.cmd = ''
        self.smt_ms = 0
        self.queries = {}
        self.canary = False
        self.seconds = 0
        self.lemma_fail = []
        self.units = 0

    def vx(self, opts):
        out, mp = os.path.join(self.work, 'out.rs'), os.path.join(self.work, 'map.json')
        r = subprocess.run([VX, SRC, os.path.join(HERE, 'specs'), os.path.join(HERE, 'prelude'), out, mp] + opts, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('extraction failed: ' + r.stdout[-1500:])
        self.map = json.load(open(mp))
        self.fns = {f['key']: f for f in self.map['fns']}
        t = open(out).read()
        # every axiom of the model at once must not prove `false`
        k = t.rindex('} // verus!') if '} // verus!' in t else -1
        if 'verus!' not in t[:3000]:
            raise RuntimeError('no verus! block')
        t = t[:k] + '\npub mod canary { use vstd::prelude::*;\n//@canary\npub proof fn canary() { broadcast use crate::base::axioms; assert(false); }\n//@endcanary\n}\n' + t[k:]
        open(out, 'w').write(t)
        self.lines = t.split('\n')

    def verus(self, rlimit):
        cmd = ['verus', 'out.rs', '--crate-type', 'lib', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '20', '--error-format=json', '--rlimit', str(rlimit), '--num-threads', '8']
        self.cmd = ' '.join(cmd)
        e = dict(os.environ)
        e.pop('RUSTFLAGS', None)
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            raise RuntimeError('verus did not finish')
        ds = []
        for l in r.stderr.split('\n'):
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                    ds.append(d)
        try:
            o = json.loads(r.stdout[r.stdout.index('{'):])
        except ValueError:
            o = None
        open(os.path.join(self.work, 'verus.err'), 'w').write(''.join(d.get('rendered') or '' for d in ds) + ('' if ds else r.stderr[-3000:]))
        return o, ds

    def fn_at(self, line):
        for k, f in self.fns.items():
            if f['out'][0] <= line <= f['out'][1]:
                return k
        return None

    def lemma_at(self, line):
        """name of the proof function around a line of the prelude or of an `items` section"""
        for i in range(line - 1, max(0, line - 400), -1):
            m = re.search(r'proof fn (\w+)', self.lines[i])
            if m:
                return m.group(1)
            if self.lines[i].startswith('//@fn') or self.lines[i].startswith('//@end'):
                return None
        return None

    def tags(self, line, col, lo):
        """the property tags in front of a clause"""
        t = '\n'.join(self.lines[lo - 1:line - 1] + [self.lines[line - 1][:col - 1]])
        k = max(t.rfind('ensures'), t.rfind('requires'), t.rfind('invariant'))
        m = re.findall(r'/\*((?:C\d\d ?)+|all)\*/', t[max(k, 0):])
        if not m or m[-1] == 'all':
            return None
        return m[-1].split()

    def go(self):
        t0 = time.time()
        opts = []
        for rnd in range(8):
            self.vx(opts)
            o, ds = self.verus(30 if rnd < 7 else 30)
            comp = [d for d in ds if d.get('code') or self.kind(d) is None]
            ver = o.get('verification-results') if o else None
            if ver and not ver.get('encountered-vir-error') and not comp:
                break
            more = []
            for d in comp or ds:
                self.log.write(d.get('rendered') or d['message'])
                m = re.search(r'unresolved import `crate\s*::\s*([^`]*)`', d['message'])
                keys = [self.fn_at(s['line_start']) for s in d['spans']]
                keys = [k for k in keys if k]
                if keys:
                    self.why[keys[0]] = 'outside the reach of the extraction: ' + d['message'][:200]
                    more += ['--demote', keys[0]]
                elif m:
                    more += ['--drop-use', m.group(1).replace(' ', '')]
            fresh = []
            have = set(zip(opts[::2], opts[1::2]))
            for p in zip(more[::2], more[1::2]):
                if p not in have:
                    have.add(p)
                    fresh += list(p)
            if not fresh:
                self.errors.append('the extracted text is not accepted: ' + '; '.join((d['message'] or '')[:200] for d in (comp or ds)[:3]))
                break
            opts += fresh
        else:
            self.errors.append('the extracted text is not accepted')
        if not self.errors:
            self.judge(o, ds)
        self.seconds = time.time() - t0
        return self

    def kind(self, d):
        for m, k in KINDS:
            if m.lower() in d['message'].lower():
                return k
        return None

    def judge(self, o, ds):
        self.units = o['verification-results']['verified']
        for md in o.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for q in md.get('function-breakdown', []):
                self.queries[q['function']] = q
        self.smt_ms = o.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
        cl = [i + 1 for i, l in enumerate(self.lines) if l == '//@canary'][0]
        for d in ds:
            k = self.kind(d)
            spans = d['spans']
            if any(cl <= s['line_start'] <= cl + 2 for s in spans):
                self.canary = True
                continue
            where = [s for s in spans if self.fn_at(s['line_start'])]
            # the function whose body was being verified: for a precondition that is where the call is
            key = None
            if where:
                body = [s for s in where if not s['is_primary']] if k == 'precondition' and len(spans) > 1 and False else where
                if k == 'precondition':
                    # the span with the label "failed precondition" belongs to the callee
                    body = [s for s in where if 'failed precondition' not in (s.get('label') or '')] or where
                key = self.fn_at(body[0]['line_start'])
                if k == 'postcondition':
                    body = [s for s in where if 'failed this postcondition' not in (s.get('label') or '')] or where
                    key = self.fn_at(body[0]['line_start'])
            clause = [s for s in spans if 'failed' in (s.get('label') or '')] or spans
            text = ' '.join(t['text'].strip() for t in clause[0]['text'])[:300] if clause else ''
            if clause and len(clause[0]['text']) == 1:
                t = clause[0]['text'][0]
                text = t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1]
            tags = None
            if clause and key and k in ('postcondition', 'invariant') and self.fn_at(clause[0]['line_start']) == key:
                tags = self.tags(clause[0]['line_start'], clause[0]['column_start'], self.fns[key]['out'][0])
            at = None
            for s in where:
                m = re.findall(r'/\*L(\d+)\*/', '\n'.join(self.lines[self.fns[key]['out'][0] - 1:s['line_start']])) if key else None
                if m:
                    at = int(m[-1])
            rec = {'kind': k, 'clause': re.sub(r'\s+', ' ', re.sub(r'/\*L\d+\*/', '', text)).strip(), 'tags': tags, 'line': at, 'message': d.get('rendered') or d['message']}
            if key:
                self.fails.setdefault(key, []).append(rec)
            else:
                rec['lemma'] = self.lemma_at(spans[0]['line_start']) if spans else None
                self.lemma_fail.append(rec)
        for key, f in self.fns.items():
            if f['status'] == 'trusted':
                self.state[key] = 'trusted'
            elif f['status'] != 'verify':
                self.state[key] = 'undecided'
                self.why.setdefault(key, 'outside the reach of the extraction')
            elif key not in self.fails:
                self.state[key] = 'verified'
            elif all(x['kind'] == 'rlimit' for x in self.fails[key]):
                self.state[key] = 'undecided'
                self.why[key] = 'the solver gave up'
            else:
                self.state[key] = 'failed'

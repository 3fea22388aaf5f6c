"""Bounded cases for every property, run on the real code. A case is a pair (name, parameters): gen_* makes parameters, run_* checks
them and raises Violation. What is expected is computed here from the text of the property, not from the code of /repo."""
import base64, hashlib, io, json, os, random, shutil, stat, subprocess, tarfile, time
from h import *

CASES = {}          # property -> [(name, gen, run, weight)]


def case(prop, weight=1):
    def d(cls):
        CASES.setdefault(prop, []).append((cls.__name__, cls, weight))
        return cls
    return d


# ---------------------------------------------------------------- names
ATOMS = ['a', 'b', '1', '2', '10', '.', '-', '--', 'v', 'A', 'é', ' ', '_', '+', '~', '.tar', '.zst', '.patch', '.tar.zst', '.patch.zst', 'tar', 'zst', 'x-y', '0.1.2', '%', '#', '?', '&', "'", '=', '..', ':']


def valid(v):
    return '---' not in v and '/' not in v


def gver(r, n=4, simple=False):
    while True:
        if simple:
            v = r.choice(['v', 'b', 'r', 'IL', 'rel']) + str(r.randrange(40)) + r.choice(['', '.1', '.2', '-rc1', '.0.7'])
        else:
            v = ''.join(r.choice(ATOMS) for _ in range(r.randint(1, n)))
        if valid(v) and v not in ('', '.', '..') and len(v.encode()) < 80:
            return v


def bname(v):
    return v + '.tar.zst'


def pname(a, b):
    return ('%s---%s' if '-' in a or '-' in b else '%s-%s') % (a, b) + '.patch.zst'


def base_name(n):
    i = n.rfind('.')
    s = n if i <= 0 else n[:i]
    for x in ('.tar', '.patch'):
        if s.endswith(x):
            return s[:-len(x)]
    return s


def parse_patch(n):
    """the versions in a patch file name, or None"""
    s = base_name(n)
    p = s.split('-')
    if len(p) != 2:
        p = s.split('---')
    return (p[0], p[1]) if len(p) == 2 and valid(p[0]) and valid(p[1]) else None


def blob(r, n):
    return r.randbytes(n)


def content(seed, n):
    """mostly shared between different seeds with the same n, so that patches are small"""
    base = random.Random(n).randbytes(n)
    r = random.Random(seed)
    out = bytearray(base)
    for _ in range(r.randint(1, 6)):
        i = r.randrange(len(out) + 1)
        out[i:i + r.randint(0, 9)] = r.randbytes(r.randint(0, 20))
    return bytes(out)


class Known(Exception):
    pass


@case('C01', 3)
class names_roundtrip:
    @staticmethod
    def gen(r):
        vs = [''.join(r.choice(ATOMS + ['/', '---']) for _ in range(r.randint(0, 5))) for _ in range(60)]
        return {'vs': vs + ['', '.', '..', '---', '/', 'a/b', '-', '--', '----', 'a---b', 'x.tar', 'x.tar.tar', 'x.patch', 'x.zst', '.tar', '.patch', '.zst', '\\', 'a\\b', 'a--b'],
                'dirs': ['', './', '/x/y/', 'a.tar/b-c/', 'd---e/', '../', 'x.patch.zst/']}

    @staticmethod
    def run(h, p):
        q = h.probe()
        seen = {}
        for v in p['vs']:
            r = q('version', s=v)
            check(('ok' in r) == valid(v), 'version %r is %s', v, 'accepted' if 'ok' in r else 'rejected: %r' % r)
            if not valid(v):
                continue
            check(r['ok'] == {'disp': v, 'as_str': v}, 'version %r is kept or shown as %r', v, r['ok'])
            n = q('build_path', v=v)
            check(n == {'ok': bname(v)}, 'file of build %r: %r', v, n)
            check(seen.setdefault(n['ok'], v) == v, 'versions %r and %r share the file %r', v, seen[n['ok']], n)
            for d in p['dirs']:
                b = q('build_version', p=d + bname(v))
                check(b == {'ok': v}, 'version in %r: %r', d + bname(v), b)


@case('C01')
class names_in_store:
    @staticmethod
    def gen(r):
        return {'vs': sorted({gver(r) for _ in range(8)}), 'seed': r.randrange(1 << 30)}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        data = {v: h.zenc(blob(r, 200)) for v in p['vs']}
        half = len(p['vs']) // 2
        for v in p['vs'][:half]:
            put(os.path.join(h.remote, bname(v)), data[v])
        q = h.probe()
        ix = q('open', local=h.local, remote=h.remote)
        check('ok' in ix, 'cannot open stores with the builds %r: %r', p['vs'][:half], ix)
        for v in p['vs'][:half]:
            a = q('get_build', h=ix['ok'], v=v)
            check('ok' in a and os.path.basename(a['ok']['path']) == bname(v), 'build %r: %r', v, a)
            check(snap(h.local).get(bname(v), (0, 0))[1] == data[v], 'build %r is not in its file', v)
        for v in p['vs'][half:]:
            src = os.path.join(h.src, bname(v))
            put(src, data[v])
            a = q('add', h=ix['ok'], path=src)
            check('ok' in a and snap(h.local).get(bname(v), (0, 0))[1] == data[v], 'added build %r is not in its file: %r, %r', v, a, list(snap(h.local)))
            w = v + 'p'
            a = q('add_package', h=ix['ok'], v=w, path=src)
            check('ok' in a and bname(w) in snap(h.local), 'package %r is not in its file: %r', w, a)
            a = q('get_build', h=ix['ok'], v=w)
            check('ok' in a, 'package %r is not known: %r', w, a)
        exp = sorted([bname(v) for v in p['vs']] + [bname(v + 'p') for v in p['vs'][half:]])
        check(sorted(snap(h.local)) == exp, 'local store has %r instead of %r', sorted(snap(h.local)), exp)


def ambiguous(a, b):
    """known finding C02: the first version ends with a dash"""
    return a.endswith('-')


@case('C02', 3)
class patch_names:
    @staticmethod
    def gen(r):
        vs = sorted({gver(r, 3) for _ in range(6)})
        pairs = [(a, b) for a in vs for b in vs if not ambiguous(a, b) and r.random() < 0.4]
        return {'vs': vs, 'pairs': pairs, 'remote': r.random() < 0.5}

    @staticmethod
    def run(h, p):
        b = h.zenc(b'x' * 50)
        store = h.remote if p['remote'] else h.local
        for v in p['vs']:
            put(os.path.join(store, bname(v)), b)
        for a, c in p['pairs']:
            put(os.path.join(store, pname(a, c)), b)
        q = h.probe()
        ix = q('open', local=h.local, remote=h.remote)
        check('ok' in ix, 'cannot open stores with %r: %r', snap(store).keys(), ix)
        pairs = [tuple(x) for x in p['pairs']]
        for a in p['vs']:
            for c in p['vs']:
                if ambiguous(a, c):
                    continue
                g = q('get_patch', h=q('clone', h=ix['ok'])['ok'], a=a, b=c)
                check(('ok' in g) == ((a, c) in pairs), 'patch %r with the files %r: %r', (a, c), [pname(*x) for x in pairs], g)
                if 'ok' in g:
                    check(os.path.basename(g['ok']['path']) == pname(a, c), 'patch %r is taken from %r', (a, c), g)


@case('C02')
class patch_created:
    @staticmethod
    def gen(r):
        a, b = gver(r, 3), gver(r, 3)
        return {'a': a if not ambiguous(a, b) else a + 'x', 'b': b if b != a else b + 'y'}

    @staticmethod
    def run(h, p):
        x, y = b'hello' * 20, b'hello' * 18 + b'world'
        put(os.path.join(h.local, bname(p['a'])), h.zenc(x))
        put(os.path.join(h.local, bname(p['b'])), h.zenc(y))
        q = h.probe()
        ix = q('open', local=h.local, remote=h.remote)
        g = q('create_patch', h=ix['ok'], a=p['a'], b=p['b'])
        names = [n for n in snap(h.local) if n not in (bname(p['a']), bname(p['b']))]
        check('ok' in g and names == [pname(p['a'], p['b'])], 'patch %r -> %r is in %r: %r', p['a'], p['b'], names, g)
        ix = q('open', local=h.local, remote=h.remote)
        g = q('get_patch', h=ix['ok'], a=p['a'], b=p['b'])
        check('ok' in g, 'patch %r -> %r is not found again: %r', p['a'], p['b'], g)


# ---------------------------------------------------------------- opening
def store_noise(r):
    k = r.randrange(12)
    v = gver(r, simple=True)
    return [(bname(v), 'empty'), (bname(v), 'link'), (bname(v), 'dangling'), (bname(v), 'dir'), ('current', 'link'), ('current', 'dangling'), ('._artefacta-temp-%d%s.part' % (r.randrange(10**9), bname(v)), 'file'),
            (v + '.tar.gz', 'file'), (v + '.zst', 'file'), (pname(v, v + 'x'), 'empty'), (v + '.patch', 'file'), (bname(v) + '.part', 'file')][k]


def place(d, name, kind, data, target=None):
    f = os.path.join(d, name)
    if os.path.lexists(f):
        return False
    if kind == 'file':
        put(f, data)
    elif kind == 'empty':
        put(f, b'')
    elif kind == 'link':
        os.symlink(target, f)
    elif kind == 'dangling':
        os.symlink(f + '-nowhere', f)
    elif kind == 'dir':
        os.mkdir(f)
        put(os.path.join(f, 'inner.tar.zst'), data)
    elif kind == 'fifo':
        os.mkfifo(f)
    return True


class World:
    """what the two stores hold, and what has to be known after opening them"""
    def __init__(self, remote, local):
        B = lambda fs: {n[:-8]: len(d) for n, d in fs.items() if n.endswith('.tar.zst') and d}
        self.rb, self.lb = B(remote), B(local)
        P = lambda fs, known: {parse_patch(n): len(d) for n, d in fs.items() if n.endswith('.patch.zst') and d and parse_patch(n) and all(x in known for x in parse_patch(n))}
        self.rp = P(remote, self.rb)
        self.lp = P(local, set(self.rb) | set(self.lb))
        self.builds = set(self.rb) | set(self.lb)
        self.patches = set(self.rp) | set(self.lp)


@case('C03', 2)
class opening:
    @staticmethod
    def gen(r):
        vs = sorted({gver(r, simple=r.random() < 0.7) for _ in range(r.randint(2, 6))})
        e = []
        for s in ('local', 'remote'):
            for v in vs:
                if r.random() < 0.5:
                    e.append((s, bname(v), r.choice(['file'] * 5 + ['empty', 'link', 'dangling', 'dir'])))
            for a in vs:
                for b in vs:
                    if r.random() < 0.25 and not ambiguous(a, b):
                        e.append((s, pname(a, b), r.choice(['file'] * 5 + ['empty', 'link', 'dangling', 'dir'])))
            for _ in range(r.randint(0, 4)):
                n, k = store_noise(r)
                e.append((s, n, k))
        r.shuffle(e)
        return {'vs': vs, 'entries': e, 's3': r.random() < 0.3, 'seed': r.randrange(1 << 30)}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        files = {'local': {}, 'remote': {}}
        target = os.path.join(h.aux, 'target')
        put(target, h.zenc(b'link target'))
        s3 = h.s3() if p['s3'] else None
        for s, n, k in p['entries']:
            data = h.zenc(blob(r, r.randint(1, 60)))
            if s == 'remote' and s3:
                if k in ('file', 'empty'):
                    key = ('ep.example.com', 'bk', 'root/' + n)
                    if key in s3.objects:
                        continue
                    s3.objects[key] = data if k == 'file' else b''
                    if k == 'file':
                        files[s][n] = data
                continue
            if place(getattr(h, s), n, k, data, target) and k == 'file':
                files[s][n] = data
        w = World(files['remote'], files['local'])
        rem = 's3://bk.ep.example.com/root' if s3 else h.remote
        before = snap(h.local), snap(h.remote)
        q = h.probe(s3)
        ix = q('open', local=h.local, remote=rem)
        check('ok' in ix, 'opening fails: %r with %r', ix, p['entries'])
        check((snap(h.local), snap(h.remote)) == before, 'opening changes a store')
        ix = ix['ok']
        names = set(p['vs']) | {n[:-8] for s, n, k in p['entries'] if n.endswith('.tar.zst')}
        for v in sorted(names):
            # an unknown build is refused even if its file appears now; a known one is not looked for again
            o = q('clone', h=ix)['ok']
            g = q('upgrade', h=o, a=v, b=v)
            known = v in w.builds
            if not known:
                check('ok' not in g, 'build %r is known, but in no store: %r', v, p['entries'])
                continue
            sym = any(n == bname(v) and k != 'file' for s, n, k in p['entries'] if s == 'local')
            if not sym:
                check('ok' in g, 'build %r is not known: %r, %r', v, g, p['entries'])
                size = w.lb.get(v, w.rb.get(v))
                check(g['ok']['size'] == size, 'build %r has size %r, not %r', v, g['ok']['size'], size)
        for a in p['vs']:
            for b in p['vs']:
                if ambiguous(a, b):
                    continue
                g = q('get_patch', h=q('clone', h=ix)['ok'], a=a, b=b)
                if (a, b) not in w.patches:
                    check('ok' not in g, 'patch %r is known: %r', (a, b), p['entries'])
                elif not any(n == pname(a, b) and k != 'file' for s, n, k in p['entries'] if s == 'local'):
                    check('ok' in g, 'patch %r is not known: %r, %r', (a, b), g, p['entries'])


@case('C03')
class opening_uploads:
    """what is not known on the remote is what a sync uploads"""
    gen = staticmethod(lambda r: dict(opening.gen(r), s3=False))

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        files = {'local': {}, 'remote': {}}
        target = os.path.join(h.aux, 'target')
        put(target, h.zenc(b'link target'))
        for s, n, k in p['entries']:
            data = h.zenc(blob(r, r.randint(1, 60)))
            if s == 'remote' and k in ('dir', 'dangling'):
                continue
            if place(getattr(h, s), n, k, data, target) and k == 'file':
                files[s][n] = data
        w = World(files['remote'], files['local'])
        before = snap(h.remote)
        q = h.probe()
        ix = q('open', local=h.local, remote=h.remote)
        check('ok' in ix, 'opening fails: %r with %r', ix, p['entries'])
        g = q('push', h=ix['ok'])
        check('ok' in g, 'sync fails: %r with %r', g, p['entries'])
        exp = {bname(v) for v in w.lb if v not in w.rb} | {pname(*x) for x in w.lp if x not in w.rp}
        d = diff(before, snap(h.remote))
        check(set(d) == exp, 'sync uploads %r, not %r, with %r', sorted(d), sorted(exp), p['entries'])


# ---------------------------------------------------------------- routes
class Graph:
    """versions with contents, build sizes and patches; laid out in the two stores"""
    def __init__(self, h, p):
        self.h, self.p = h, p
        self.v = p['vs']
        self.text = {v: content(p['seed'] * 100 + i, p['len']) for i, v in enumerate(self.v)}
        self.files = {'local': {}, 'remote': {}}
        for s, v, pad in p['builds']:
            self.add(s, bname(v), h.zenc(self.text[v], pad))
        cache = {}
        for s, a, b, pad in p['patches']:
            if (a, b) not in cache:
                cache[a, b] = h.bdiff(self.text[a], self.text[b])
            self.add(s, pname(a, b), h.zenc(cache[a, b], pad))

    def add(self, s, n, d):
        self.files[s][n] = d
        put(os.path.join(getattr(self.h, s), n), d)


def groutes(w, a, b):
    """all cheapest chains of patches from a to b and their total size; (None, []) if there is none"""
    size = {x: w.lp.get(x, w.rp.get(x)) for x in w.patches}
    dist = {a: 0}
    todo = {a}
    while todo:
        x = todo.pop()
        for (f, t), s in size.items():
            if f == x and dist[x] + s < dist.get(t, 1 << 60):
                dist[t] = dist[x] + s
                todo.add(t)
    if b not in dist:
        return None, []
    out = []

    def back(x, tail):
        if x == a and not (tail and tail[0][0] != a):
            out.append(tail)
        for (f, t), s in size.items():
            if t == x and f in dist and dist[f] + s == dist[x] and (f, t) not in tail and len(out) < 500:
                back(f, [(f, t)] + tail)
    back(b, [])
    return dist[b], [c for c in out if not c or c[0][0] == a]


def gen_graph(r, n=None, localprob=0.15):
    n = n or r.randint(2, 5)
    vs = ['v%d' % i for i in range(n)]
    if r.random() < 0.3:
        vs = ['%s-%d' % (r.choice('ab'), i) for i in range(n)]
    r.shuffle(vs)
    a, b = r.sample(vs, 2)
    length = r.choice([150, 400, 1000])
    pads = [0, 20, 50, 100, 200, 400, 800]
    builds = []
    for v in vs:
        if v == a or r.random() < localprob:
            builds.append(('local', v, r.choice(pads)))
        if v == b or r.random() < 0.85:
            builds.append(('remote', v, r.choice(pads)))
    have = {x[1] for x in builds}
    for v in vs:
        if v not in have:
            builds.append(('remote', v, 0))
    rem = {x[1] for x in builds if x[0] == 'remote'}
    patches = []
    for x in vs:
        for y in vs:
            if x != y and r.random() < 0.55:
                if x in rem and y in rem and r.random() < 0.9:
                    patches.append(('remote', x, y, r.choice(pads)))
                if r.random() < 0.15:
                    patches.append(('local', x, y, r.choice(pads)))
    return {'vs': vs, 'a': a, 'b': b, 'len': length, 'builds': builds, 'patches': patches, 'seed': r.randrange(1 << 20)}


def pad_exact(r, p):
    pass


def upgrade_checks(h, p, g, w, before, route=True):
    """after an upgrade from a to b that succeeded"""
    a, b = p['a'], p['b']
    after = snap(h.local)
    new = diff(before, after)
    bsize = w.lb.get(b, w.rb.get(b))
    cost, chains = groutes(w, a, b)
    newp = {n for n in new if n.endswith('.patch.zst')}
    newb = {n for n in new if n.endswith('.tar.zst')} - {bname(b)}
    check(set(new) - newp - newb - {bname(b)} == set(), 'unexpected change in the local store: %r', new)
    desc = lambda: short({'builds': {v: (w.lb.get(v), w.rb.get(v)) for v in w.builds}, 'patches': {x: (w.lp.get(x), w.rp.get(x)) for x in w.patches}})
    if cost is None or not cost < bsize:
        check(not newp and not newb, 'upgrade %s -> %s uses patches (%r), but the cheapest chain has size %r and the build %r: %s', a, b, sorted(new), cost, bsize, desc())
        if b not in w.lb:
            check(after[bname(b)][1] == g.files['remote'][bname(b)], 'the build of %s is not the published file', b)
        else:
            check(bname(b) not in new, 'the local build of %s is not kept', b)
        return
    ok = False
    for c in chains:
        for k in range(len(c) + 1):
            if k and c[k - 1][1] not in w.lb:
                continue
            # the patches from k on are applied: those and the source build of the first are fetched, and the builds they make
            # are written (again, perhaps, if there already was a local one)
            need = c[k:]
            made = {bname(y) for x, y in need if y != b}
            src = {bname(x) for x, y in need[:1] if x not in w.lb}
            if newp == {pname(*x) for x in need if x not in w.lp} and {n for n in made if n[:-8] not in w.lb} | src <= newb <= made | src:
                ok = True
    check(ok, 'upgrade %s -> %s changes %r, but the cheapest chains are %r with size %r < %r: %s', a, b, new, chains[:5], cost, bsize, desc())


@case('C04', 3)
class routes:
    @staticmethod
    def gen(r):
        p = gen_graph(r, localprob=0.05 if r.random() < 0.6 else 0.3)
        p['exact'] = r.random() < 0.3
        return p

    @staticmethod
    def run(h, p):
        g = Graph(h, p)
        w = World(g.files['remote'], g.files['local'])
        if p.get('exact'):
            # the build exactly as large as the cheapest chain, or one byte more
            cost, ch = groutes(w, p['a'], p['b'])
            b = p['b']
            if cost:
                s = 'local' if b in w.lb else 'remote'
                base = len(h.zenc(g.text[b]))
                for extra in (0, 1):
                    if cost + extra >= base + 8:
                        g.add(s, bname(b), h.zenc(g.text[b], cost + extra - base))
                        if p['seed'] % 2 == extra:
                            break
                w = World(g.files['remote'], g.files['local'])
        q = h.probe()
        before = snap(h.local)
        ix = q('open', local=h.local, remote=h.remote)
        check('ok' in ix, 'opening fails: %r', ix)
        rb = snap(h.remote)
        x = q('upgrade', h=ix['ok'], a=p['a'], b=p['b'])
        check('ok' in x, 'upgrade %s -> %s fails: %r', p['a'], p['b'], x)
        check(snap(h.remote) == rb, 'upgrade changes the remote store')
        upgrade_checks(h, p, g, w, before)


@case('C04')
class routes_install:
    """the same through the command line: current is at a, install b"""
    gen = staticmethod(lambda r: gen_graph(r, localprob=0.1))

    @staticmethod
    def run(h, p):
        g = Graph(h, p)
        w = World(g.files['remote'], g.files['local'])
        os.symlink(os.path.join(h.local, bname(p['a'])), os.path.join(h.local, 'current'))
        before = snap(h.local)
        c, out = h.cli('install', p['b'])
        check(c == 0, 'install %s over %s fails: %s', p['b'], p['a'], out[-600:])
        check(os.path.realpath(os.path.join(h.local, 'current')) == os.path.join(h.local, bname(p['b'])), 'current leads to %r', os.path.realpath(os.path.join(h.local, 'current')))
        before['current'] = snap(h.local)['current']
        upgrade_checks(h, p, g, w, before)


@case('C05', 3)
class upgraded_content:
    @staticmethod
    def gen(r):
        p = gen_graph(r, n=r.randint(2, 6), localprob=0.3)
        p['len'] = r.choice([1, 7, 300, 5000, 30000, 150000])
        # patches much cheaper than builds most of the time
        p['builds'] = [(s, v, r.choice([0, 100000, 200000])) for s, v, _ in p['builds']]
        p['patches'] = [(s, a, b, r.choice([0, 0, 30, 300])) for s, a, b, _ in p['patches']]
        p['level'] = r.choice(['1', '3', '14', None, 'x', '-3'])
        return p

    @staticmethod
    def run(h, p):
        g = Graph(h, p)
        q = h.probe(ARTEFACTA_COMPRESSION_LEVEL=p['level'] or '')
        ix = q('open', local=h.local, remote=h.remote)
        check('ok' in ix, 'opening fails: %r', ix)
        todo = [(p['a'], p['b'])] + [(p['b'], v) for v in p['vs'][:2]]
        before = snap(h.local)
        for a, b in todo:
            x = q('upgrade', h=ix['ok'], a=a, b=b)
            check('ok' in x, 'upgrade %s -> %s fails: %r', a, b, x)
            check(os.path.realpath(x['ok']['path']) == os.path.join(h.local, bname(b)), 'upgrade gives %r', x)
            after = snap(h.local)
            for n in after:
                if n.endswith('.tar.zst'):
                    check(h.zdec(after[n][1]) == g.text[n[:-8]], 'after upgrading %s -> %s the build file %s has other content', a, b, n)
            check(bname(b) in after, 'no build file of %s', b)
            for n in before:
                check(n in after and (n.endswith('.tar.zst') or after[n] == before[n]), '%s changed', n)


@case('C05')
class created_patch:
    @staticmethod
    def gen(r):
        return {'la': r.choice([1, 7, 500, 8192, 70000, 300000]), 'lb': r.choice([1, 7, 500, 8192, 70000, 300000]), 'seed': r.randrange(1 << 30), 'kind': r.choice(['edit', 'other', 'same', 'prefix']), 'level': r.choice(['1', '14', '-1'])}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        a = r.randbytes(p['la'])
        b = {'edit': lambda: content(p['seed'], p['lb']), 'other': lambda: r.randbytes(p['lb']), 'same': lambda: a or b'x', 'prefix': lambda: a[:len(a) // 2] + r.randbytes(5) + a[len(a) // 2:]}[p['kind']]()
        put(os.path.join(h.local, bname('a')), h.zenc(a))
        put(os.path.join(h.local, bname('b')), h.zenc(b))
        q = h.probe(ARTEFACTA_COMPRESSION_LEVEL=p['level'])
        ix = q('open', local=h.local, remote=h.remote)
        x = q('create_patch', h=ix['ok'], a='a', b='b')
        check('ok' in x, 'create-patch fails: %r', x)
        f = os.path.join(h.local, pname('a', 'b'))
        raw = h.zdec(get(f))
        check(raw is not None and h.bpatch(raw, a) == b, 'the patch does not make b from a')
        out = h.path()
        x = q('apply', archive=os.path.join(h.local, bname('a')), patch=f, out=out)
        check('ok' in x and get(out) == b, 'applying the created patch: %r', x)


# ---------------------------------------------------------------- bad patches
def damage(h, r, kind, data, old, new):
    if kind == 'truncated':
        return data[:r.randrange(1, max(2, len(data)))]
    if kind == 'emptied':
        return b''
    if kind == 'garbage':
        return r.randbytes(r.randint(1, 300))
    if kind == 'zgarbage':
        return h.zenc(r.randbytes(r.randint(0, 300)))
    if kind == 'text':
        return b'<html>404 not found</html>'
    if kind == 'build':
        return h.zenc(new)
    return data


@case('C06', 3)
class bad_patches:
    @staticmethod
    def gen(r):
        n = r.randint(2, 5)
        vs = ['v%d' % i for i in range(n)]
        return {'vs': vs, 'len': r.choice([200, 3000, 200000]), 'seed': r.randrange(1 << 20), 'bad': r.randrange(n - 1), 'kind': r.choice(['truncated'] * 3 + ['missing', 'garbage', 'zgarbage', 'emptied', 'text', 'build', 'dir', 'shorter_old']),
                'where': r.choice(['remote', 'remote', 'local']), 'late': r.random() < 0.5, 'local': [i for i in range(1, n) if r.random() < 0.15], 'cli': r.random() < 0.3}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        vs = p['vs']
        text = {v: content(p['seed'] * 10 + i, p['len']) for i, v in enumerate(vs)}
        put(os.path.join(h.local, bname(vs[0])), h.zenc(text[vs[0]]))
        for i, v in enumerate(vs):
            put(os.path.join(h.remote, bname(v)), h.zenc(text[v], 500000))
            if i in p['local'] and v != vs[-1]:
                put(os.path.join(h.local, bname(v)), h.zenc(text[v]))
        bads = []
        for i in range(len(vs) - 1):
            old, new = text[vs[i]], text[vs[i + 1]]
            data = h.mkpatch(old, new)
            d = p['where'] if i == p['bad'] else 'remote'
            f = os.path.join(getattr(h, d), pname(vs[i], vs[i + 1]))
            if i == p['bad']:
                if p['kind'] == 'shorter_old':
                    data = h.mkpatch(old + r.randbytes(3000), new + r.randbytes(10)) if False else data[:len(data) - 1]
                bad = damage(h, r, p['kind'], data, old, new)
                bads.append((f, bad))
                put(f, bad if not p['late'] and bad else data)
            else:
                put(f, data)
        q = h.probe()
        if p['cli']:
            if p['late']:
                for f, bad in bads:
                    put(f, bad or b'x')
            os.symlink(os.path.join(h.local, bname(vs[0])), os.path.join(h.local, 'current'))
            c, out = h.cli('install', vs[-1])
            check(c == 0, 'install fails because of a bad patch (%s): %s', p['kind'], out[-500:])
        else:
            ix = q('open', local=h.local, remote=h.remote)
            check('ok' in ix, 'opening fails: %r', ix)
            for f, bad in bads:
                if p['kind'] == 'missing':
                    os.remove(f)
                elif p['kind'] == 'dir':
                    os.remove(f)
                    os.mkdir(f)
                else:
                    put(f, bad)
            x = q('upgrade', h=ix['ok'], a=vs[0], b=vs[-1])
            check('ok' in x, 'upgrade fails because of a bad patch (%s): %r', p['kind'], x)
        after = snap(h.local)
        check(bname(vs[-1]) in after, 'no build of %s', vs[-1])
        for n, e in after.items():
            if n.endswith('.tar.zst'):
                check(e[0] == 'file' and h.zdec(e[1]) == text[n[:-8]], 'with a bad patch (%s) the build file %s has other content', p['kind'], n)
            check(not n.startswith('.'), 'left over: %s', n)


@case('C06', 2)
class truncated_patch:
    """patches whose compressed stream has several blocks, cut at every block"""
    @staticmethod
    def gen(r):
        return {'seed': r.randrange(1 << 20), 'len': r.choice([400000, 700000]), 'cut': r.randrange(8)}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        old = r.randbytes(64)
        # instructions of one block each: add nothing, copy 131072 - 8 ... so that instructions end where blocks do
        def varint(n):
            out = bytearray()
            while True:
                out.append(n & 127 | (128 if n > 127 else 0))
                n >>= 7
                if not n:
                    return bytes(out)
        body = (0xB1DF).to_bytes(4, 'little') + (0x1000).to_bytes(4, 'little')
        new = b''
        first = True
        while len(new) < p['len']:
            room = 131072 - (8 if first else 0)
            n = room - 1 - 3 - 1
            d = r.randbytes(n)
            body += varint(0) + varint(n) + d + varint(0)
            assert len(varint(n)) == 3
            new += d
            first = False
        assert h.bpatch(body, old) == new
        patch = h.zenc(body, level=1)
        blocks = []
        # walk the blocks of the frame
        i = 4
        fhd = patch[i]
        single, fcs = fhd >> 5 & 1, fhd >> 6
        i += 1 + (0 if single else 1) + {0: 1 if single else 0, 1: 2, 2: 4, 3: 8}[fcs]
        while i + 3 <= len(patch):
            x = int.from_bytes(patch[i:i + 3], 'little')
            n = x >> 3 if x >> 1 & 3 != 1 else 1
            i += 3 + n
            blocks.append(i)
            if x & 1:
                break
        cuts = blocks[:-1]
        check(len(cuts) > 0, 'internal')
        cut = cuts[p['cut'] % len(cuts)]
        put(os.path.join(h.local, bname('a')), h.zenc(old))
        put(os.path.join(h.remote, bname('a')), h.zenc(old))
        put(os.path.join(h.remote, bname('b')), h.zenc(new, len(patch) + 100))
        put(os.path.join(h.remote, pname('a', 'b')), patch[:cut])
        q = h.probe()
        ix = q('open', local=h.local, remote=h.remote)
        x = q('upgrade', h=ix['ok'], a='a', b='b')
        check('ok' in x, 'upgrade with a truncated patch fails: %r', x)
        check(h.zdec(get(os.path.join(h.local, bname('b')))) == new, 'a patch cut after %d of %d bytes makes a build with %r of %d bytes', cut, len(patch), len(h.zdec(get(os.path.join(h.local, bname('b')))) or b''), len(new))

"""Cases for C07 to C19; see cases.py"""
import base64, hashlib, io, json, os, random, re, shutil, stat, subprocess, tarfile, time
from h import *
from cases import case, gver, bname, pname, ambiguous, valid, base_name, parse_patch, blob, content, World, Graph, store_noise, place, ATOMS, CASES


def shim_run(h, args, root, at, mode, errno=5, **kw):
    log = h.path()
    put(log, b'')
    env = {'VSHIM_ROOT': root, 'VSHIM_AT': str(at), 'VSHIM_MODE': mode, 'VSHIM_ERRNO': str(errno), 'VSHIM_LOG': log}
    c, out = h.cli(*args, shim=env, **kw)
    ops = get(log).decode('utf-8', 'replace').splitlines()
    return c, out, ops


def copy_stores(h, to):
    for d in ('local', 'remote'):
        shutil.rmtree(os.path.join(to, d), ignore_errors=True)
        shutil.copytree(os.path.join(h.dir, d), os.path.join(to, d), symlinks=True)


def reset_stores(h, frm):
    for d in ('local', 'remote', 'tmp'):
        shutil.rmtree(os.path.join(h.dir, d), ignore_errors=True)
        os.mkdir(os.path.join(h.dir, d))
        s = os.path.join(frm, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(h.dir, d), symlinks=True, dirs_exist_ok=True)


# ---------------------------------------------------------------- install
INSTALL_KINDS = ['none', 'a', 'a_rel', 'a_remote_only', 'dangling_b', 'dangling_known', 'dangling_odd', 'target', 'target_empty', 'target_outside', 'file', 'odd', 'unknown', 'known_empty', 'known_dir']


@case('C07', 2)
class install_states:
    """every state `current` can be in, with the program interrupted or failing at every operation"""
    @staticmethod
    def gen(r):
        return {'kind': r.choice(INSTALL_KINDS), 'b': r.choice(['local', 'remote', 'remote', 'patch', 'patch', 'bad_patch', 'unknown', 'gone', 'empty', 'dir']), 'left': r.choice([None, None, 'link', 'file']),
                'mode': r.choice(['none', 'kill', 'kill', 'kill', 'err', 'err', 'full']), 'seed': r.randrange(1 << 20), 'errno': r.choice([5, 28, 13]), 'names': r.choice([['a', 'b'], ['v-1', 'v-2'], ['x.1', 'x.2']]),
                'store': r.choice([None, None, 'local', './local/', 'aux/../local', 'aux/link/local', 'aux/link/local/.'])}
    fixed = [{'kind': k, 'b': 'remote', 'left': None, 'mode': m, 'seed': 3, 'errno': 5, 'names': ['a', 'b']} for m, k in [(m, k) for m in ('none', 'kill') for k in INSTALL_KINDS]] + [
        {'kind': k, 'b': b, 'left': None, 'mode': 'none', 'seed': 3, 'errno': 5, 'names': ['a', 'b'], 'store': s} for k, b, s in (('none', 'local', 'local'), ('a', 'local', 'aux/link/local'), ('a', 'remote', './local/'), ('a', 'patch', 'local'))] + [
        {'kind': k, 'b': 'dir', 'left': None, 'mode': 'none', 'seed': 3, 'errno': 5, 'names': ['a', 'b']} for k in ('none', 'a')]

    @staticmethod
    def setup(h, p):
        A, B = p['names']
        ta, tb = content(p['seed'], 3000), content(p['seed'] + 1, 3000)
        L = lambda n: os.path.join(h.local, n)
        R = lambda n: os.path.join(h.remote, n)
        za, zb = h.zenc(ta), h.zenc(tb)
        kind, b = p['kind'], p['b']
        if kind in ('target', 'target_empty'):
            b = 'local' if kind == 'target' else 'remote'
        put(R(bname(A)), za)
        if kind != 'a_remote_only':
            put(L(bname(A)), za)
        if b == 'local':
            put(L(bname(B)), zb)
        if b == 'dir':
            os.mkdir(L(bname(B)))
        if b in ('remote', 'patch', 'bad_patch', 'empty', 'dir'):
            put(R(bname(B)), h.zenc(tb, 100000 if 'patch' in b else 0))
        if b == 'gone':
            put(R(bname(B)), zb)
        if 'patch' in b:
            d = h.mkpatch(ta, tb)
            put(R(pname(A, B)), d if b == 'patch' else d[:-3])
        if b == 'empty' or kind == 'target_empty':
            put(L(bname(B)), b'')
        cur = L('current')
        if kind in ('a', 'a_remote_only'):
            if kind == 'a':
                os.symlink(L(bname(A)), cur)
            else:
                os.symlink(L(bname(A)), cur)
        elif kind == 'a_rel':
            os.symlink(bname(A), cur)
        elif kind == 'dangling_b':
            os.symlink(L(bname('zz')), cur)
        elif kind == 'dangling_known':
            os.symlink(os.path.join(h.aux, 'gone', bname(A)), cur)
        elif kind == 'dangling_odd':
            os.symlink('/nowhere/x---y---z', cur)
        elif kind in ('target', 'target_empty'):
            os.symlink(L(bname(B)), cur)
        elif kind == 'target_outside':
            put(os.path.join(h.aux, bname(B)), b'other')
            os.symlink(os.path.join(h.aux, bname(B)), cur)
        elif kind == 'file':
            put(cur, b'a file')
        elif kind in ('odd', 'unknown'):
            n = os.path.join(h.aux, 'x---y---z' if kind == 'odd' else bname('other'))
            put(n, b'other')
            os.symlink(n, cur)
        elif kind == 'known_empty':
            put(L(bname('e')), b'')
            os.symlink(L(bname('e')), cur)
        elif kind == 'known_dir':
            os.mkdir(L(bname('e')))
            os.symlink(L(bname('e')), cur)
        if p['left'] == 'link':
            os.symlink(L(bname('old')), L('._artefacta-temp-current'))
        elif p['left'] == 'file':
            put(L('._artefacta-temp-current'), b'left over')
        return B, tb, b

    @staticmethod
    def state(h, B, tb, before, done, what):
        cur = os.path.join(h.local, 'current')
        now = snap(h.local).get('current')
        f = os.path.join(h.local, bname(B))
        points = os.path.islink(cur) and os.path.realpath(cur) == f and os.path.isfile(f) and not os.path.islink(f) and len(get(f)) > 0 and h.zdec(get(f)) == tb
        if done:
            check(points, '%s: succeeded, but `current` is %r and leads to %r (%s)', what, now, os.path.realpath(cur), sorted(snap(h.local)))
        elif before is None:
            check(now is None or points, '%s: `current` is %r now', what, now)
        else:
            check(now == before or points, '%s: `current` was %r and is %r (%s)', what, before, now, sorted(snap(h.local)))

    @staticmethod
    def run(h, p):
        B, tb, b = install_states.setup(h, p)
        if p['b'] == 'gone':
            pass
        before = snap(h.local).get('current')
        target = B if b != 'unknown' else 'nope'
        save = os.path.join(h.dir, 'save')
        os.mkdir(save)
        copy_stores(h, save)
        if p.get('store'):
            # the local store by some other path, relative to the working directory
            os.symlink(h.dir, os.path.join(h.aux, 'link'))
            c, out = h.cli('install', target, local=p['store'])
            what = 'install %s with current=%s for the store %s' % (b, p['kind'], p['store'])
        else:
            c, out, ops = shim_run(h, ['install', target], h.local, 0, 'kill')
            what = 'install %s with current=%s' % (b, p['kind'])
        if b in ('unknown', 'dir'):
            if p['kind'] not in ('target', 'target_empty'):
                check(c != 0, '%s succeeds', what)
            install_states.state(h, B, tb, before, False, what)
        else:
            check(c == 0, '%s fails: %s', what, out[-600:])
            install_states.state(h, B, tb, before, True, what)
            check(not any(is_temp(n) for n in snap(h.local)), '%s leaves %r', what, sorted(snap(h.local)))
        if p['mode'] == 'none' or p.get('store'):
            return
        n = len(ops)
        for k in range(1, n + 1):
            reset_stores(h, save)
            c, out, o2 = shim_run(h, ['install', target], h.local, k, p['mode'], p['errno'])
            w = '%s, %s at %s' % (what, p['mode'], o2[k - 1] if len(o2) >= k else '?')
            install_states.state(h, B, tb, before, c == 0 and b not in ('unknown', 'dir'), w)


@case('C07')
class install_download_fails:
    @staticmethod
    def gen(r):
        return {'kind': r.choice(['none', 'a', 'dangling']), 'how': r.choice(['corrupt', 'missing', 'ok']), 'seed': r.randrange(1 << 20), 'first': r.random() < 0.5}

    @staticmethod
    def run(h, p):
        s3 = h.s3()
        ta, tb = content(p['seed'], 2000), content(p['seed'] + 1, 2000)
        key = lambda n: ('ep.example.com', 'bk', 'r/' + n)
        s3.objects[key('a.tar.zst')] = h.zenc(ta)
        s3.objects[key('b.tar.zst')] = h.zenc(tb)
        if p['how'] == 'corrupt':
            s3.bad_get[key('b.tar.zst')] = lambda d: bytes([d[0] ^ 1]) + d[1:]
        if p['kind'] == 'a':
            put(os.path.join(h.local, 'a.tar.zst'), h.zenc(ta))
            os.symlink(os.path.join(h.local, 'a.tar.zst'), os.path.join(h.local, 'current'))
        elif p['kind'] == 'dangling':
            os.symlink(os.path.join(h.local, 'q.tar.zst'), os.path.join(h.local, 'current'))
        before = snap(h.local).get('current')
        if p['how'] == 'missing':
            s3.bad_get[key('b.tar.zst')] = lambda d: b''
        c, out = h.cli('install', 'b', remote='s3://bk.ep.example.com/r', s3=s3)
        check((c == 0) == (p['how'] == 'ok'), 'install with a %s download ends with %d: %s', p['how'], c, out[-500:])
        install_states.state(h, 'b', tb, before, p['how'] == 'ok', 'install with a %s download' % p['how'])


# ---------------------------------------------------------------- crash points
OPS8 = ['add', 'add_upload', 'add_from', 'package', 'package_upload', 'create_patch', 'install', 'install_patch', 'sync', 'replace']


@case('C08', 3)
class crash_points:
    @staticmethod
    def gen(r):
        return {'op': r.choice(OPS8), 'mode': r.choice(['kill', 'half', 'err', 'full']), 'len': r.choice([40, 5000, 20000]), 'seed': r.randrange(1 << 20), 'errno': r.choice([5, 28, 13]), 'root': r.choice(['local', 'local', 'remote', 'all']), 'step': r.randrange(3)}
    fixed = [{'op': o, 'mode': m, 'len': 20000, 'seed': 5, 'errno': 5, 'root': t, 'step': 0} for m in ('kill', 'err', 'half') for o, t in [('add', 'local'), ('install', 'local'), ('sync', 'remote'), ('create_patch', 'local'), ('install_patch', 'local'), ('package', 'local'), ('replace', 'local')]]

    @staticmethod
    def run(h, p):
        ta, tb, tc = (content(p['seed'] + i, p['len']) for i in range(3))
        L = lambda n: os.path.join(h.local, n)
        R = lambda n: os.path.join(h.remote, n)
        za, zb, zc = h.zenc(ta), h.zenc(tb), h.zenc(tc)
        put(L('a.tar.zst'), za)
        put(R('a.tar.zst'), za)
        put(R('b.tar.zst'), h.zenc(tb, 200000 if p['op'] == 'install_patch' else 0))
        src = os.path.join(h.src, 'c.tar.zst')
        put(src, zc)
        op = p['op']
        args = {'add': ['add', src], 'replace': ['add', src], 'add_upload': ['add', '--upload', src], 'add_from': ['add', '--calc-patch-from', 'a', src], 'create_patch': ['create-patch', 'a', 'b'], 'install': ['install', 'b'],
                'install_patch': ['install', 'b'], 'sync': ['sync']}.get(op)
        if op == 'replace':
            put(L('c.tar.zst'), h.zenc(b'older content'))
        if op == 'install_patch':
            put(R('a-b.patch.zst'), h.mkpatch(ta, tb))
            os.symlink(L('a.tar.zst'), L('current'))
        if op == 'sync':
            put(L('c.tar.zst'), zc)
            put(L('d.tar.zst'), h.zenc(tb + b'd'))
            put(L('a-c.patch.zst'), h.mkpatch(ta, tc))
            put(R('c.tar.zst.old'), b'unrelated')
        if op.startswith('package'):
            d = os.path.join(h.src, 'tree')
            os.makedirs(os.path.join(d, 'sub'))
            put(os.path.join(d, 'x'), tb)
            put(os.path.join(d, 'sub', 'y'), tc)
            args = ['add-package', 'c', d] + (['--upload'] if 'upload' in op else [])
        root = {'local': h.local, 'remote': h.remote, 'all': h.dir}[p['root']]
        save = os.path.join(h.aux, 'save')
        os.mkdir(save)
        copy_stores(h, save)
        before = {d: snap(getattr(h, d)) for d in ('local', 'remote')}
        c, out, ops = shim_run(h, args, root, 0, 'kill')
        check(c == 0, '%s fails: %s', args, out[-400:])
        good = {d: snap(getattr(h, d)) for d in ('local', 'remote')}
        for d in good:
            for n, e in good[d].items():
                if e[0] == 'file' and n.endswith('.zst'):
                    check(h.zdec(e[1]) is not None, '%s: incomplete file %s/%s', args, d, n)
        n = len(ops)
        ks = list(range(1, n + 1))
        if p['mode'] == 'full' or n > 25:
            ks = ks[p['step']::3] or ks
        for k in ks:
            reset_stores(h, save)
            c, out, o2 = shim_run(h, args, root, k, p['mode'], p['errno'])
            at = o2[k - 1] if len(o2) >= k else '?'
            for d in ('local', 'remote'):
                now = snap(getattr(h, d))
                for f, e in now.items():
                    if is_temp(f):
                        if p['mode'] in ('err', 'full') and p['root'] in (d, 'all'):
                            # another failure than that of removing the file itself
                            check(' unlink ' in at or f == '._artefacta-temp-current' and ' rename ' in at, '%s, %s at %s: %s/%s is left over', args, p['mode'], at, d, f)
                        elif p['mode'] in ('err', 'full'):
                            check(' unlink ' in at, '%s, %s at %s: %s/%s is left over', args, p['mode'], at, d, f)
                        continue
                    if e == before[d].get(f):
                        continue
                    g = good[d].get(f)
                    ok = e == g or (g and e[0] == 'file' and g[0] == 'file' and h.zdec(e[1]) is not None and h.zdec(e[1]) == h.zdec(g[1]))
                    check(ok, '%s, %s at %s: %s/%s is %s instead of %s', args, p['mode'], at, d, f, (e[0], len(e[1])), g and (g[0], len(g[1])))
                for f in before[d]:
                    check(f in now, '%s, %s at %s: %s/%s is gone', args, p['mode'], at, d, f)


@case('C08')
class partial_files:
    """the helper itself, with small and large writes: complete or absent, whatever was there before"""
    @staticmethod
    def gen(r):
        return {'len': r.choice([0, 1, 10, 8191, 8192, 8193, 30000]), 'chunk': r.choice([1, 7, 1000, 8192, 100000]), 'finish': r.random() < 0.6, 'old': r.random() < 0.5, 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        data = random.Random(p['seed']).randbytes(p['len'])
        f, t = h.path(), os.path.join(h.local, 'x.tar.zst')
        put(f, data)
        if p['len'] / p['chunk'] > 3000:
            p['chunk'] = 100
        if p['old']:
            put(t, b'old')
        x = h.probe()('partial', target=t, finish=p['finish'], chunk=p['chunk'], **{'in': f})
        check('ok' in x, 'writing a file under a temporary name: %r', x)
        now = snap(h.local)
        exp = data if p['finish'] else b'old' if p['old'] else None
        check(set(now) == ({'x.tar.zst'} if exp is not None else set()), 'after %s: %r', 'finish' if p['finish'] else 'dropping it', sorted(now))
        if exp is not None:
            check(now['x.tar.zst'][1] == exp, 'the file has %d bytes, not %d, or others', len(now['x.tar.zst'][1]), len(exp))


@case('C08')
class bad_sources:
    """errors that come from the other side: nothing half made stays"""
    @staticmethod
    def gen(r):
        return {'op': r.choice(['install', 'create', 'add', 'package', 'sync']), 'mode': r.choice(['eio', 'corrupt']), 'len': r.choice([100, 30000]), 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        ta, tb, tc = (content(p['seed'] + i, p['len']) for i in range(3))
        put(os.path.join(h.local, 'a.tar.zst'), h.zenc(ta))
        put(os.path.join(h.remote, 'EIO-b.tar.zst'), h.zenc(tb))
        src = os.path.join(h.src, 'EIO-c.tar.zst')
        put(src, h.zenc(tc))
        d = os.path.join(h.src, 'tree')
        os.mkdir(d)
        put(os.path.join(d, 'a'), ta)
        put(os.path.join(d, 'EIO'), tb)
        if p['op'] == 'sync':
            put(os.path.join(h.local, 'EIO-d.tar.zst'), h.zenc(tb))
        if p['op'] == 'create' and p['mode'] == 'corrupt':
            put(os.path.join(h.remote, 'EIO-b.tar.zst'), h.zenc(tb)[:-5])
        args = {'install': ['install', 'EIO-b'], 'create': ['create-patch', 'a', 'EIO-b'], 'add': ['add', src], 'package': ['add-package', 'q', d], 'sync': ['sync']}[p['op']]
        if p['mode'] == 'corrupt' and p['op'] != 'create':
            return
        before = snap(h.local), snap(h.remote)
        c, out = h.cli(*args, shim={'VSHIM_EIO': 'EIO'} if p['mode'] == 'eio' else {})
        check(c != 0, '%s succeeds although a file it needs cannot be read: %s', args, out[-300:])
        now = snap(h.local), snap(h.remote)
        for b, n in zip(before, now):
            new = [x for x in diff(b, n) if not (p['op'] == 'create' and p['mode'] == 'corrupt' and x == 'EIO-b.tar.zst')]
            check(not new, '%s fails and leaves %r', args, new)


# ---------------------------------------------------------------- fetching
@case('C09', 3)
class fetching:
    @staticmethod
    def gen(r):
        vs = sorted({gver(r, simple=r.random() < 0.6) for _ in range(r.randint(2, 4))})
        fs = []
        for v in vs:
            fs.append([bname(v), r.choice([None, 'x', 'y', 'empty']), r.choice([None, 'x', 'x', 'y', 'empty'])])
        for a in vs:
            for b in vs:
                if r.random() < 0.4 and not ambiguous(a, b) and a != b:
                    fs.append([pname(a, b), r.choice([None, 'x', 'y', 'empty']), r.choice([None, 'x', 'x', 'empty'])])
        asks = [r.choice(vs) if r.random() < 0.5 else (r.choice(vs), r.choice(vs)) for _ in range(5)] + [gver(r) for _ in range(2)]
        return {'vs': vs, 'files': fs, 's3': r.random() < 0.4, 'asks': asks, 'seed': r.randrange(1 << 20), 'len': r.choice([1, 60, 20000])}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        files = {'local': {}, 'remote': {}}
        s3 = h.s3() if p['s3'] else None
        for n, l, rem in p['files']:
            for st, k in (('local', l), ('remote', rem)):
                if k is None:
                    continue
                d = b'' if k == 'empty' else random.Random(n + k).randbytes(p['len'] + r.randrange(3))
                files[st][n] = d
                if st == 'remote' and s3:
                    s3.objects['ep.example.com', 'bk', 'r/' + n] = d
                else:
                    put(os.path.join(getattr(h, st), n), d)
        put(os.path.join(h.local, 'other'), b'other')
        w = World(files['remote'], files['local'])
        q = h.probe(s3)
        ix = q('open', local=h.local, remote='s3://bk.ep.example.com/r' if s3 else h.remote)
        check('ok' in ix, 'opening fails: %r', ix)
        ix = ix['ok']
        rem0 = snap(h.remote)
        for ask in p['asks']:
            before = snap(h.local)
            if isinstance(ask, str):
                n, known, g = bname(ask), ask in w.builds, q('get_build', h=ix, v=ask)
            else:
                if ambiguous(*ask):
                    continue
                n, known, g = pname(*ask), tuple(ask) in w.patches, q('get_patch', h=ix, a=ask[0], b=ask[1])
            now = snap(h.local)
            d = diff(before, now)
            check(snap(h.remote) == rem0, 'asking for %r changes the remote', ask)
            if not known:
                check('err' in g, '%r is unknown, but asking for it gives %r', ask, g)
                check(not d, 'asking for the unknown %r changes %r', ask, d)
                continue
            if files['local'].get(n):
                check('ok' in g and not d, 'asking for the local %r: %r, changes %r', ask, g, d)
                exp = files['local'][n]
            else:
                check('ok' in g, 'asking for %r fails: %r', ask, g)
                exp = files['remote'][n]
                if before.get(n, (0, b''))[1] != exp:
                    check(set(d) == {n}, 'asking for %r changes %r', ask, d)
                    e = os.stat(os.path.join(h.local, n))
                else:
                    check(not d, 'asking for %r again changes %r', ask, d)
                # from now on it is there without the remote
                if s3:
                    log = len(s3.log)
                ino = os.stat(os.path.join(h.local, n)).st_ino
                g2 = q('get_build', h=ix, v=ask) if isinstance(ask, str) else q('get_patch', h=ix, a=ask[0], b=ask[1])
                check(g2 == g and os.stat(os.path.join(h.local, n)).st_ino == ino and (not s3 or len(s3.log) == log), 'asking for %r again: %r, fetched again', ask, g2)
            check(now[n][0] == 'file' and now[n][1] == exp, 'asking for %r gives %d bytes instead of %d, or others', ask, len(now[n][1]), len(exp))
            check(g['ok'] == {'path': os.path.join(h.local, n), 'size': len(exp)}, 'asking for %r gives %r', ask, g)
        # what was fetched is known as local: with the remote's size different, a chain through it starts at it
        x = q('push', h=ix)
        check('ok' in x, 'sync after fetching fails: %r', x)


@case('C09')
class fetching_fails:
    """a download that fails leaves nothing"""
    @staticmethod
    def gen(r):
        return {'how': r.choice(['corrupt', 'short', 'gone', 'eio', 'dir']), 'patch': r.random() < 0.4, 'len': r.choice([10, 20000]), 'old': r.random() < 0.3}

    @staticmethod
    def run(h, p):
        s3 = h.s3() if p['how'] in ('corrupt', 'short') else None
        n = 'EIO-x---b.patch.zst' if p['patch'] else 'b.tar.zst'
        for f in ('EIO-x.tar.zst', 'b.tar.zst') + ((n,) if p['patch'] else ()):
            d = random.Random(f).randbytes(p['len'])
            if s3:
                s3.objects['ep.example.com', 'bk', 'r/' + f] = d
            else:
                put(os.path.join(h.remote, f), d)
        n = n if p['patch'] else 'EIO-x.tar.zst'
        if p['how'] == 'dir':
            os.mkdir(os.path.join(h.local, n))
        elif p['old']:
            put(os.path.join(h.local, n), b'')
        k = ('ep.example.com', 'bk', 'r/' + n)
        kw = {}
        if p['how'] == 'eio':
            kw = {'LD_PRELOAD': SHIM, 'VSHIM_EIO': 'remote/' + n}
        q = h.probe(s3, **kw)
        ix = q('open', local=h.local, remote='s3://bk.ep.example.com/r' if s3 else h.remote)
        check('ok' in ix, 'opening fails: %r', ix)
        if p['how'] == 'corrupt':
            s3.bad_get[k] = lambda d: d[:-1] + bytes([d[-1] ^ 255])
        elif p['how'] == 'short':
            s3.bad_get[k] = lambda d: d[:-1]
        elif p['how'] == 'gone':
            os.remove(os.path.join(h.remote, n))
        before = snap(h.local)
        g = q('get_patch', h=ix['ok'], a='EIO-x', b='b') if p['patch'] else q('get_build', h=ix['ok'], v='EIO-x')
        check('err' in g, 'a download that is %s gives %r', p['how'], g) if p['how'] != 'dir' else check('err' in g, 'a directory with the name of the file gives %r', g)
        d = diff(before, snap(h.local))
        check(not d, 'a download that is %s changes %r', p['how'], d)


@case('C09')
class fetching_links:
    """symlinks are none of the files of a store"""
    @staticmethod
    def gen(r):
        return {'patch': r.random() < 0.5, 'at': r.choice(['local', 'remote']), 'to': r.choice(['same', 'other', 'out']), 'other': r.choice(['none', 'real'])}
    fixed = [{'patch': p, 'at': a, 'to': t, 'other': o} for p in (False, True) for a in ('local', 'remote') for t in ('same', 'other', 'out') for o in ('none', 'real')]

    @staticmethod
    def run(h, p):
        L = lambda n: os.path.join(h.local, n)
        R = lambda n: os.path.join(h.remote, n)
        d = lambda n: random.Random(n).randbytes(500)
        n, m = (pname('a', 'b'), pname('c', 'd')) if p['patch'] else (bname('a'), bname('c'))
        for v in 'abcd':
            put(L(bname(v)), d(v))
        put(R(m), d('m-remote'))
        at = getattr(h, p['at'])
        if p['patch']:
            # (a, b) is known from this file only, which has another name than its patch file
            put(L('a---b.patch.zst'), d('odd'))
        else:
            put(L(n), d('local'))
        q = h.probe()
        ix = q('open', local=h.local, remote=h.remote)['ok']
        if not p['patch']:
            os.remove(L(n))
        to = {'same': os.path.join(at, 'x-' + n), 'other': os.path.join(at, m), 'out': os.path.join(h.aux, m)}[p['to']]
        if p['to'] != 'other' or not os.path.exists(to):
            put(to, d('to'))
        os.symlink(to, os.path.join(at, n))
        if p['other'] == 'real' and p['at'] == 'local':
            put(R(n), d('real'))
        before, aux, rem = snap(h.local), snap(h.aux), snap(h.remote)
        g = q('get_patch', h=ix, a='a', b='b') if p['patch'] else q('get_build', h=ix, v='a')
        df = diff(before, snap(h.local))
        check(snap(h.remote) == rem and snap(h.aux) == aux, 'fetching past a link changes other places')
        if p['other'] == 'real' and p['at'] == 'local':
            check('ok' in g and set(df) == {n} and snap(h.local)[n][:2] == ('file', d('real')), 'a link in the place of the local file: %r, changes %r', g, sorted(df))
        else:
            check('err' in g and not df, 'a link in the place of the file: %r, changes %r', g, sorted(df))


# ---------------------------------------------------------------- sync
@case('C10', 3)
class syncing:
    @staticmethod
    def gen(r):
        vs = sorted({gver(r, simple=r.random() < 0.6) for _ in range(r.randint(1, 6))})
        fs = []
        for v in vs:
            fs.append([bname(v), r.choice(['x', 'x', 'x', None, 'empty']), r.choice([None, None, 'y', 'x', 'empty'])])
        for a in vs:
            for b in vs:
                if r.random() < 0.4 and not ambiguous(a, b):
                    fs.append([pname(a, b), r.choice(['x', 'x', None, 'empty']), r.choice([None, None, 'y', 'empty'])])
        noise = [list(store_noise(r)) for _ in range(r.randint(0, 3))]
        return {'vs': vs, 'files': fs, 'noise': noise, 's3': r.random() < 0.4, 'late': r.random() < 0.4, 'cli': r.random() < 0.4, 'fail': r.choice([None, None, 'put', 'corrupt', 'err']), 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        files = {'local': {}, 'remote': {}}
        s3 = h.s3() if p['s3'] else None
        pre = ('ep.example.com', 'bk')
        for n, l, rem in p['files']:
            for st, k in (('local', l), ('remote', rem)):
                if k is None:
                    continue
                d = b'' if k == 'empty' else random.Random(n + k).randbytes(r.choice([1, 50, 9000]))
                files[st][n] = d
                if st == 'remote' and s3:
                    s3.objects[pre + ('r/' + n,)] = d
                else:
                    put(os.path.join(getattr(h, st), n), d)
        tgt = os.path.join(h.aux, 't')
        put(tgt, b'target')
        for n, k in p['noise']:
            if n not in files['local'] and n not in files['remote']:
                place(h.local, n, k, b'noise', tgt)
                if k == 'file' and (n.endswith('.tar.zst') or n.endswith('.patch.zst')):
                    files['local'][n] = b'noise'
        w = World(files['remote'], files['local'])
        todo = {bname(v) for v in w.lb if v not in w.rb} | {pname(*x) for x in w.lp if x not in w.rp}
        rem = 's3://bk.ep.example.com/r' if s3 else h.remote
        state = lambda: {k[2][2:]: d for k, d in s3.objects.items()} if s3 else {n: e[1] for n, e in snap(h.remote).items()}
        local0 = snap(h.local)
        fail = p['fail'] if todo else None
        victim = sorted(todo)[p['seed'] % len(todo)] if todo else None
        if fail in ('put', 'corrupt') and not s3 or fail == 'err' and (s3 or not p['cli']):
            fail = None
        if fail == 'put':
            s3.fail_put[pre + ('r/' + victim,)] = r.choice([400, 403, 404])
        elif fail == 'corrupt':
            s3.bad_put.add(pre + ('r/' + victim,))
        before = state()
        if p['cli']:
            if fail == 'err':
                c, out, ops = shim_run(h, ['sync'], h.remote, 1 + p['seed'] % 3, 'err', remote=rem)
                ok = c == 0
                fail = fail if ops else None
            else:
                c, out = h.cli('sync', remote=rem, s3=s3)
                ok = c == 0
        else:
            q = h.probe(s3)
            ix = q('open', local=h.local, remote=rem)
            check('ok' in ix, 'opening fails: %r', ix)
            if p['late'] and not fail:
                # other people change the remote meanwhile: what was known stays as they leave it
                for n in list(files['remote']):
                    if (n[:-8] in w.rb if n.endswith('.tar.zst') else parse_patch(n) in w.rp):
                        if s3:
                            s3.objects[pre + ('r/' + n,)] = b'changed meanwhile'
                        else:
                            put(os.path.join(h.remote, n), b'changed meanwhile')
            before = state()
            x = q('push', h=ix['ok'])
            ok, out = 'ok' in x, repr(x)
        after = state()
        if fail:
            check(not ok, 'sync succeeds although the upload of %s failed (%s)', victim, fail)
        else:
            check(ok, 'sync fails: %s', out[-500:])
            check(todo <= set(after), 'sync does not upload %r', sorted(todo - set(after)))
        for n in set(before) | set(after):
            if n in todo:
                if not fail:
                    check(after[n] == files['local'][n], 'sync uploads other bytes as %s', n)
            elif not is_temp(n):
                check(before.get(n) == after.get(n), 'sync changes %s on the remote', n)
        if s3:
            puts = [k for o, k, x in s3.log if o == 'PUT']
            check(all(k[:2] == pre and k[2][2:] in todo for k in puts), 'sync writes %r, missing were %r', puts, sorted(todo))
            check(not any(o not in ('PUT', 'GET', 'LIST') for o, k, x in s3.log), 'requests %r', s3.log)
        check(snap(h.local) == local0, 'sync changes the local store: %r', diff(local0, snap(h.local)))


# ---------------------------------------------------------------- add
@case('C11', 3)
class adding:
    @staticmethod
    def gen(r):
        v = gver(r, simple=r.random() < 0.4)
        return {'v': v, 'kind': r.choice(['ok', 'ok', 'ok', 'missing', 'empty', 'dashes', 'inside', 'inside_link', 'nonutf8', 'other_ext', 'replace', 'sub_inside']), 'upload': r.random() < 0.4, 'rel': r.random() < 0.3, 's3': r.random() < 0.3, 'cli': r.random() < 0.5,
                'len': r.choice([1, 9, 8192, 70000]), 'dir': r.choice(['', 'a.tar', 'x---y', 'q.patch.zst'])}

    @staticmethod
    def run(h, p):
        k = p['kind']
        s3 = h.s3() if p['s3'] else None
        rem = 's3://bk.ep.example.com/r' if s3 else h.remote
        data = random.Random(p['v']).randbytes(p['len'])
        v, name = p['v'], bname(p['v'])
        d = os.path.join(h.src, p['dir'])
        os.makedirs(d, exist_ok=True)
        if k == 'dashes':
            name = v + '---x.tar.zst'
        elif k == 'other_ext':
            name = v + '.tar.gz'
        f = os.path.join(d, name)
        put(os.path.join(h.local, 'have.tar.zst'), b'have')
        put(os.path.join(h.local, 'only.tar.zst'), b'only here')
        put(os.path.join(h.remote, 'have.tar.zst'), b'have')
        if s3:
            s3.objects['ep.example.com', 'bk', 'r/have.tar.zst'] = b'have'
        if k == 'replace':
            put(os.path.join(h.local, name), b'the older one')
        if k in ('inside', 'inside_link'):
            f = os.path.join(h.local, name)
        if k == 'sub_inside':
            os.mkdir(os.path.join(h.local, 'sub'))
            f = os.path.join(h.local, 'sub', name)
        if k == 'nonutf8':
            f = os.fsencode(d) + b'/\xff\xfe' + os.fsencode(name)
        if k != 'missing':
            put(f, b'' if k == 'empty' else data)
        if k == 'inside_link':
            os.symlink(f, os.path.join(d, name))
            f = os.path.join(d, name)
        good = k in ('ok', 'other_ext', 'replace')
        arg = f
        if p['rel'] and k != 'nonutf8':
            arg = os.path.relpath(f, h.dir)
        if isinstance(arg, str) and arg.startswith('-'):
            arg = './' + arg
        before, rb = snap(h.local), snap(h.remote)
        sb = dict(s3.objects) if s3 else None
        src0 = snap(h.src)
        if p['cli'] or k == 'nonutf8':
            if p['rel'] and k != 'nonutf8' and os.path.isabs(arg):
                arg = f
            c, out = h.cli('add', *(['--upload'] if p['upload'] else []), '--', arg, remote=rem, s3=s3)
            ok = c == 0
        else:
            q = h.probe(s3)
            ix = q('open', local=h.local, remote=rem)
            check('ok' in ix, 'opening fails: %r', ix)
            x = q('add', h=ix['ok'], path=arg, upload=p['upload'])
            ok, out = 'ok' in x, repr(x)
            if ok:
                g = q('get_build', h=ix['ok'], v=v)
                check(g == {'ok': {'path': os.path.join(h.local, bname(v)), 'size': len(data)}}, 'the added build %r: %r', v, g)
        d1 = diff(before, snap(h.local))
        check(snap(h.src) == src0, 'adding %r changes its source', f)
        if not good:
            check(not ok, 'adding a file that is %s succeeds', k)
            check(not d1, 'adding a file that is %s changes %r', k, d1)
            check(snap(h.remote) == rb and (not s3 or s3.objects == sb), 'adding a file that is %s changes the remote', k)
            return
        check(ok, 'adding %r fails: %s', f, out[-500:])
        check(set(d1) == {bname(v)} and snap(h.local)[bname(v)][:2] == ('file', data), 'adding %r changes %r, or not to its content', f, d1)
        now = {x[2][2:]: y for x, y in s3.objects.items()} if s3 else {n: e[1] for n, e in snap(h.remote).items()}
        was = {x[2][2:]: y for x, y in sb.items()} if s3 else {n: e[1] for n, e in rb.items()}
        if p['upload']:
            was.update({bname(v): data, 'only.tar.zst': b'only here'})
        check(now == was, 'after adding %r the remote has %r', f, sorted(now))


@case('C11')
class adding_packages:
    @staticmethod
    def gen(r):
        return {'v': gver(r, simple=r.random() < 0.5), 'upload': r.random() < 0.5, 'kind': r.choice(['dir', 'dir', 'file', 'missing', 'again']), 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        v = p['v']
        d = os.path.join(h.src, 'tree')
        if p['kind'] in ('dir', 'again'):
            os.mkdir(d)
            put(os.path.join(d, 'x'), b'x' * (p['seed'] % 1000))
        elif p['kind'] == 'file':
            put(d, b'one file')
        if p['kind'] == 'again':
            put(os.path.join(h.local, bname(v)), h.zenc(b'older'))
        before, rb = snap(h.local), snap(h.remote)
        c, out = h.cli('add-package', *(['--upload'] if p['upload'] else []), '--', v, d)
        now, rn = snap(h.local), snap(h.remote)
        check(not os.listdir(h.tmp), 'left over: %r', os.listdir(h.tmp))
        if p['kind'] == 'missing':
            check(c != 0 and now == before and rn == rb, 'adding a package that does not exist: %d, %r', c, diff(before, now))
            return
        check(c == 0, 'add-package fails: %s', out[-500:])
        check(set(diff(before, now)) == {bname(v)}, 'add-package changes %r', diff(before, now))
        o = h.path()
        x = h.probe()('package', src=os.path.realpath(d), out=o)
        check('ok' in x and h.zdec(now[bname(v)][1]) == get(o), 'the stored build is not the package')
        # with upload everything that was not known there is on the remote; a version that both had stays
        check(rn == (dict(rb, **{bname(v): now[bname(v)]}) if p['upload'] else rb) or {k: e[1] for k, e in rn.items()} == {k: e[1] for k, e in dict(rb, **({bname(v): now[bname(v)]} if p['upload'] else {})).items()}, 'add-package leaves %r on the remote', sorted(rn))


# ---------------------------------------------------------------- packages
def gtree(r):
    names = ['a', 'b', 'B', 'a.b', 'a-b', 'a b', 'é', 'a0', 'ab', '.hidden', 'x' * 60, 'lib', 'z.tar', 'new\nline', '-x', 'n\udcff', 'Up']
    out = {}

    def fill(pre, depth):
        for _ in range(r.randint(0 if depth else 1, 5)):
            n = pre + r.choice(names)
            if n in out:
                continue
            x = r.random()
            if x < 0.3 and depth < 4:
                out[n] = ['dir', 0, 0o755]
                fill(n + '/', depth + 1)
            elif x < 0.4:
                out[n] = ['link', 0, 0]
            else:
                out[n] = ['file', r.choice([0, 1, 511, 512, 513, 3000]), r.choice([0o644, 0o755, 0o600, 0o640, 0o777, 0o444, 0o4755, 0o2750, 0o000])]
    fill('', 0)
    return out


def mktree(d, t, order, seed, mtime):
    os.makedirs(d)
    for n, (k, size, mode) in t.items():
        if k == 'dir':
            os.makedirs(os.path.join(d, n))
    for n in order:
        k, size, mode = t[n]
        f = os.path.join(d, n)
        if k == 'file':
            put(f, random.Random('%s%d' % (n.encode('utf-8', 'surrogateescape'), seed)).randbytes(size))
            os.chmod(f, mode)
            if mtime:
                os.utime(f, (mtime, mtime))
                os.chown(f, 1234, 4321)
                os.chmod(f, mode)
        elif k == 'link':
            os.symlink('a', f)


@case('C12', 3)
class packages:
    @staticmethod
    def gen(r):
        t = gtree(r)
        o = [n for n in t if t[n][0] != 'dir']
        r.shuffle(o)
        return {'tree': t, 'order': o, 'seed': r.randrange(1 << 20), 'store': r.random() < 0.2}

    @staticmethod
    def run(h, p):
        t = p['tree']
        a, b = os.path.join(h.src, 'one'), os.path.join(h.src, 'deeper/and/two')
        mktree(a, t, [n for n in t if t[n][0] != 'dir'], p['seed'], 0)
        mktree(b, t, p['order'], p['seed'], 1000000007)
        q = h.probe()
        o1, o2 = h.path(), h.path()
        x, y = q('package', src=a, out=o1), q('package', src=b, out=o2)
        check('ok' in x and 'ok' in y, 'packaging fails: %r %r', x, y)
        d1 = get(o1)
        tf = tarfile.open(fileobj=io.BytesIO(d1), encoding='utf-8', errors='surrogateescape')
        got = [(m.name, m.type in (b'0', b'\0'), m.mode & 0o7777, tf.extractfile(m).read() if m.isreg() else None) for m in tf.getmembers()]
        files = sorted((n for n in t if t[n][0] == 'file'), key=lambda n: [os.fsencode(c) for c in n.split('/')])
        exp = [(n, True, t[n][2], random.Random('%s%d' % (n.encode('utf-8', 'surrogateescape'), p['seed'])).randbytes(t[n][1])) for n in files]
        check([g[0] for g in got] == [e[0] for e in exp], 'the archive has the entries %r instead of %r', [g[0] for g in got], [e[0] for e in exp])
        for g, e in zip(got, exp):
            check(g[1:3] == e[1:3], 'entry %r has type and mode %r instead of %r', g[0], g[1:3], (e[1], oct(e[2])))
            check(g[3] == e[3], 'entry %r has other content', g[0])
        check(d1 == get(o2), 'the archive depends on more than names, permissions and contents')
        if p['store']:
            outs = []
            for k, src in enumerate((a, b)):
                loc = os.path.join(h.aux, 'store%d' % k)
                os.mkdir(loc)
                c, out = h.cli('add-package', 'v1', src, local=loc)
                check(c == 0, 'add-package fails: %s', out[-400:])
                outs.append(get(os.path.join(loc, 'v1.tar.zst')))
                check(h.zdec(outs[-1]) == d1, 'the package in the store is not the archive')
            check(outs[0] == outs[1], 'two packages of the same files differ')


@case('C12')
class package_one_file:
    @staticmethod
    def gen(r):
        return {'name': r.choice(['x', 'a b', 'é.bin', 'x.tar.zst', 'y' * 120]), 'mode': r.choice([0o644, 0o755, 0o600]), 'len': r.choice([0, 1, 600, 9000])}

    @staticmethod
    def run(h, p):
        f = os.path.join(h.src, p['name'])
        data = random.Random(p['name']).randbytes(p['len'])
        put(f, data, p['mode'])
        o = h.path()
        x = h.probe()('package', src=f, out=o)
        check('ok' in x, 'packaging one file fails: %r', x)
        tf = tarfile.open(o)
        got = [(m.name, m.mode & 0o7777, tf.extractfile(m).read()) for m in tf.getmembers()]
        check(got == [(p['name'], p['mode'], data)], 'the archive of one file has %r', [(g[0], oct(g[1]), len(g[2])) for g in got])


@case('C12')
class package_unreadable:
    @staticmethod
    def gen(r):
        t = gtree(r)
        fs = [n for n in t if t[n][0] == 'file' and t[n][1] > 0]
        t['sub'] = ['dir', 0, 0o755]
        t['sub/EIO'] = ['file', r.choice([0, 10, 5000]), 0o644]
        return {'tree': t, 'seed': 1, 'kind': r.choice(['file', 'dir'])}

    @staticmethod
    def run(h, p):
        t = p['tree']
        a = os.path.join(h.src, 'one')
        mktree(a, t, [n for n in t if t[n][0] != 'dir'], p['seed'], 0)
        o = h.path()
        if p['kind'] == 'file':
            x = h.probe(LD_PRELOAD=SHIM, VSHIM_EIO='one/sub/EIO')('package', src=a, out=o)
        else:
            # a directory only root may read, read by somebody else
            os.chmod(os.path.join(a, 'sub'), 0o700)
            os.chmod(h.dir, 0o755), os.chmod(h.src, 0o755), os.chmod(a, 0o755)
            loc, rem, tmp = (os.path.join(h.dir, 'n' + x) for x in ('l', 'r', 't'))
            for d in (loc, rem, tmp):
                os.mkdir(d)
                os.chmod(d, 0o777)
            cli = os.path.join(h.dir, 'artefacta')
            shutil.copy(CLI, cli)
            os.chmod(cli, 0o755)
            e = h.env()
            e['TMPDIR'] = tmp
            r = subprocess.run([cli, '--local', loc, '--remote', rem, 'add-package', 'v', a], env=e, cwd=h.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, user=65534, group=65534, extra_groups=[])
            x = {'ok': 0} if r.returncode == 0 else {'err': 0}
            check(os.listdir(loc) == [] or 'ok' in x, 'failed, but %r is there', os.listdir(loc))
        check('ok' not in x, 'packaging succeeds although a %s cannot be read', p['kind'])


# ---------------------------------------------------------------- tags
def slices(s):
    return re.split(r'[.-]', s.lower())


def human(a, b):
    """natural order: -1, 0, 1"""
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i] == b[j] and not a[i].isdigit():
            i, j = i + 1, j + 1
        elif a[i].isdigit() and b[j].isdigit():
            m, n = re.match(r'\d+', a[i:]).group(), re.match(r'\d+', b[j:]).group()
            if int(m) != int(n):
                return -1 if int(m) < int(n) else 1
            i, j = i + len(m), j + len(n)
        else:
            return -1 if a[i] < b[j] else 1
    return 0 if a == b else -1 if a < b else 1


def pick(current, tags):
    """what has to be picked: for each position the acceptable tags"""
    import functools
    cur = slices(current)
    out = []
    for pos in range(len(cur) - 1, -1, -1):
        if not re.fullmatch(r'[0-9]+', cur[pos]) or int(cur[pos]) == 0:
            continue
        pre = cur[:pos] + [str(int(cur[pos]) - 1)]
        m = [t for t in tags if slices(t)[:pos + 1] == pre]
        if m:
            m.sort(key=functools.cmp_to_key(human))
            out.append(m[-1])
    return out


def gtag(r, like=None):
    ps = like.split('.') if like else []
    n = r.randint(1, 4)
    out = []
    for i in range(n):
        if i < len(ps) and r.random() < 0.8:
            x = ps[i]
            if x.isdigit() and r.random() < 0.6:
                x = str(max(0, int(x) + r.choice([-1, -1, -1, 0, 1, -2])))
            if r.random() < 0.2:
                x = x.swapcase()
        else:
            x = r.choice(['IL40', 'v', 'rc1', '0', '1', '2', '9', '10', '11', '99', '100', '101', 'x', 'beta', '4294967296', '20201119120000', '199'])
        out.append(x)
    return ''.join(x + (r.choice('.....-') if i + 1 < n else '') for i, x in enumerate(out))


@case('C13', 3)
class tag_choice:
    @staticmethod
    def gen(r):
        cur = '.'.join(r.choice(['IL40', 'v', '1', '2', '3', '10', '11', '100', '0', 'x', 'RC', '4294967296', '20201119120000', '199']) for _ in range(r.randint(1, 4)))
        tags = sorted({gtag(r, cur) for _ in range(r.randint(0, 25))})
        if r.random() < 0.5:
            # several in the same series
            ps = cur.split('.')
            for i, x in enumerate(ps):
                if x.isdigit() and int(x) > 0:
                    for _ in range(4):
                        tags.append('.'.join(ps[:i] + [str(int(x) - 1)] + [str(r.choice([1, 2, 9, 10, 11, 99, 100])) for _ in range(r.randint(0, 2))] + r.choice([[], ['rc'], ['0']])))
        tags = sorted(set(tags))
        r.shuffle(tags)
        o2 = list(tags)
        r.shuffle(o2)
        return {'cur': cur, 'tags': tags, 'tags2': o2}

    @staticmethod
    def run(h, p):
        q = h.probe()
        x, y = q('tags', current=p['cur'], tags=p['tags']), q('tags', current=p['cur'], tags=p['tags2'])
        check('ok' in x, 'choosing tags fails: %r', x)
        exp = pick(p['cur'], p['tags'])
        check(x['ok'] == exp, 'for %r of %r the tags %r are picked instead of %r', p['cur'], p['tags'], x['ok'], exp)
        check(x == y, 'the order of the tags matters: %r, %r', x, y)


# ---------------------------------------------------------------- S3
@case('C14', 3)
class transfers:
    @staticmethod
    def gen(r):
        return {'how': r.choice(['ok', 'flip', 'short', 'long', 'other', 'empty', 'lie', 'part', 'part', 'no_tag', 'multipart', 'flip_multi_ok']), 'len': r.choice([1, 100, 70000]), 'at': r.random(), 'cmd': r.choice(['get_build', 'get_patch', 'install', 'upgrade']), 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        s3 = h.s3()
        K = lambda n: ('ep.example.com', 'bk', 'r/' + n)
        r = random.Random(p['seed'])
        n = 'a-b.patch.zst' if p['cmd'] == 'get_patch' else 'b.tar.zst'
        for f in ('a.tar.zst', 'b.tar.zst') + (('a-b.patch.zst',) if p['cmd'] == 'get_patch' else ()):
            s3.objects[K(f)] = r.randbytes(p['len'])
        d = s3.objects[K(n)]
        i = int(p['at'] * len(d))
        how = p['how']
        if how == 'flip':
            s3.bad_get[K(n)] = lambda d: d[:i] + bytes([d[i] ^ (1 << p['seed'] % 8)]) + d[i + 1:]
        elif how == 'short':
            s3.bad_get[K(n)] = lambda d: d[:i]
        elif how == 'long':
            s3.bad_get[K(n)] = lambda d: d + b'x'
        elif how == 'other':
            s3.bad_get[K(n)] = lambda d: random.Random(7).randbytes(len(d)) + b'y'
        elif how == 'empty':
            s3.bad_get[K(n)] = lambda d: b''
        elif how == 'lie':
            m = hashlib.md5(d).hexdigest()
            j = p['seed'] % 32
            s3.lie[K(n)] = '"%s"' % (m[:j] + ('0' if m[j] != '0' else '1') + m[j + 1:])
        elif how in ('part', 'no_tag'):
            # only a part of the checksum, or none, for something else
            m = hashlib.md5(d[:i] + bytes([d[i] ^ 1]) + d[i + 1:]).hexdigest()
            j, k = sorted((p['seed'] % 33, p['seed'] // 33 % 33))
            s3.bad_get[K(n)] = lambda d: d[:i] + bytes([d[i] ^ 1]) + d[i + 1:]
            s3.lie[K(n)] = None if how == 'no_tag' else '"%s"' % (m[:0] if p['seed'] % 5 == 0 else m[j:k] if k - j < 32 else m[1:])
        elif how in ('multipart', 'flip_multi_ok'):
            s3.multipart.add(K(n))
        good = how in ('ok', 'multipart', 'flip_multi_ok')
        before = snap(h.local)
        rem = 's3://bk.ep.example.com/r'
        if p['cmd'] == 'install':
            c, out = h.cli('install', 'b', remote=rem, s3=s3)
            ok = c == 0
        else:
            q = h.probe(s3)
            ix = q('open', local=h.local, remote=rem)
            check('ok' in ix, 'opening fails: %r', ix)
            ix = ix['ok']
            x = {'get_build': lambda: q('get_build', h=ix, v='b'), 'get_patch': lambda: q('get_patch', h=ix, a='a', b='b'), 'upgrade': lambda: q('upgrade', h=ix, a='a', b='b')}[p['cmd']]()
            ok, out = 'ok' in x, repr(x)
        now = snap(h.local)
        if good:
            check(ok, 'a good download fails: %s', out[-500:])
            check(now.get(n, (0, 0))[1] == d, 'the download has other bytes')
        else:
            check(not ok, 'a download that is not what the server announced (%s) is accepted: %s', how, out[-300:])
            check(diff(before, now) == {}, 'a rejected download (%s) leaves %r', how, diff(before, now))


@case('C14')
class uploads:
    @staticmethod
    def gen(r):
        return {'how': r.choice(['ok', 'ok', 'corrupt', 'reject']), 'status': r.choice([400, 403, 404, 409]), 'cmd': r.choice(['sync', 'add']), 'len': r.choice([1, 100, 70000]), 'n': r.randint(1, 4), 'which': r.randrange(4)}

    @staticmethod
    def run(h, p):
        s3 = h.s3()
        K = lambda n: ('ep.example.com', 'bk', 'r/' + n)
        names = ['b%d.tar.zst' % i for i in range(p['n'])]
        src = None
        for n in names:
            put(os.path.join(h.local, n), random.Random(n).randbytes(p['len']))
        if p['cmd'] == 'add':
            src = os.path.join(h.src, 'new.tar.zst')
            put(src, random.Random('new').randbytes(p['len']))
            names.append('new.tar.zst')
        bad = names[p['which'] % len(names)]
        if p['how'] == 'corrupt':
            s3.bad_put.add(K(bad))
        elif p['how'] == 'reject':
            s3.fail_put[K(bad)] = p['status']
        c, out = h.cli(*(['sync'] if p['cmd'] == 'sync' else ['add', '--upload', src]), remote='s3://bk.ep.example.com/r', s3=s3)
        for o, k, x in s3.log:
            if o == 'PUT':
                f = os.path.join(h.local, k[2][2:])
                check(x['data'] == get(f), 'uploads other bytes as %s', k[2])
                check(x['md5'] == base64.b64encode(hashlib.md5(x['data']).digest()).decode(), 'the upload of %s has the Content-MD5 %r', k[2], x['md5'])
        check((c == 0) == (p['how'] == 'ok'), 'upload (%s): exit status %d: %s', p['how'], c, out[-400:])
        if c == 0:
            check(all(K(n) in s3.objects for n in names), 'uploaded %r', sorted(s3.objects))
        check(K(bad) not in s3.objects or p['how'] == 'ok', 'a corrupted upload was accepted')


@case('C15', 3)
class addresses:
    @staticmethod
    def gen(r):
        return {'path': r.choice(['', '/', '/r', '/r/', '/r/s', '/r/s//', '//r', '/release-1.0', '/a.b/c_d', '/Builds', '/R/sUb/']), 'bucket': r.choice(['bk', 'my-bucket', 'b1']), 'ep': r.choice(['ep.example.com', 'ams3.do.example.org', 'localhost']), 'page': r.choice([1, 2, 3, 7, 1000]),
                'n': r.randint(0, 6), 'odd': r.random() < 0.4, 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        s3 = h.s3()
        s3.page = p['page']
        r = random.Random(p['seed'])
        root = p['path'].strip('/')
        pre = (p['ep'], p['bucket'])
        K = lambda n: pre + (root + '/' + n,)
        vs = sorted({('v%d' % i) + (r.choice(['', ' x', '+1', 'é', '%20', '#', '?a', '&', '~', "'"]) if p['odd'] else '') for i in range(p['n'])})
        data = {v: r.randbytes(r.randint(1, 50)) for v in vs}
        for v in vs:
            s3.objects[K(bname(v))] = data[v]
        hidden = {}
        for i in range(r.randint(0, 5)):
            k = r.choice([root + '/sub/h%d.tar.zst', root + '2/h%d.tar.zst', 'h%d.tar.zst', 'other/' + root + '/h%d.tar.zst', root + '/a/b/h%d.tar.zst', root + 'h%d.tar.zst']) % i
            if k != root + '/' + 'h%d.tar.zst' % i:
                s3.objects[pre + (k,)] = b'hidden'
                hidden['h%d' % i] = k
        s3.objects[p['ep'], 'otherbucket', root + '/' + 'o.tar.zst'] = b'other bucket'
        s3.objects['other.example.com', p['bucket'], root + '/' + 'o.tar.zst'] = b'other endpoint'
        url = 's3://%s.%s%s' % (p['bucket'], p['ep'], p['path'])
        put(os.path.join(h.local, 'up.tar.zst'), b'to upload')
        put(os.path.join(h.local, 'x y+%é.tar.zst'), b'to upload, too')
        q = h.probe(s3)
        ix = q('open', local=h.local, remote=url)
        check('ok' in ix, 'cannot open %s: %r', url, ix)
        ix = ix['ok']
        for v in list(hidden) + ['o']:
            g = q('get_build', h=ix, v=v)
            check('err' in g, '%s lists the build %s, which is at %r', url, v, hidden.get(v, 'another bucket or endpoint'))
        for v in vs:
            o = q('clone', h=ix)['ok']
            g = q('get_build', h=o, v=v)
            check('ok' in g, '%s does not list or fetch %r: %r', url, bname(v), g)
            check(get(os.path.join(h.local, bname(v))) == data[v], '%s: %r has other bytes', url, v)
            os.remove(os.path.join(h.local, bname(v)))
        known = set(s3.objects)
        x = q('push', h=ix)
        check('ok' in x, 'sync to %s fails: %r', url, x)
        new = set(s3.objects) - known
        check(new == {K('up.tar.zst'), K('x y+%é.tar.zst')}, 'sync to %s writes %r', url, sorted(new))
        bad = [(o, k) for o, k, _ in s3.log if k[:2] != pre]
        check(not bad, 'requests for %s go to %r', url, bad[:3])
        # what was uploaded is found by the next run
        for n in ('up.tar.zst', 'x y+%é.tar.zst'):
            os.remove(os.path.join(h.local, n))
        ix = q('open', local=h.local, remote=url)['ok']
        g = q('get_build', h=ix, v='up')
        check('ok' in g and get(os.path.join(h.local, 'up.tar.zst')) == b'to upload', 'the uploaded build is not found again at %s: %r', url, g)
        g = q('get_build', h=ix, v='x y+%é')
        check('ok' in g, 'the uploaded build is not found again at %s: %r', url, g)


# ---------------------------------------------------------------- create-patch
@case('C16', 3)
class creating:
    @staticmethod
    def gen(r):
        a, b = r.choice([('a', 'b'), ('v-1', 'v-2'), ('x.1', 'x.10'), ('a', 'b-c')])
        return {'a': a, 'b': b, 'wa': r.choice(['local', 'remote', 'both', 'none']) if r.random() < 0.5 else r.choice(['local', 'remote']), 'wb': r.choice(['local', 'remote', 'both', 'none']) if r.random() < 0.5 else r.choice(['local', 'remote']),
                'patch': r.choice([None, None, 'local', 'remote', 'both', 'local_empty']), 'same': r.random() < 0.2, 'cmd': r.choice(['create', 'create', 'add_from', 'cli']), 'len': r.choice([10, 3000]), 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        a, b = p['a'], p['b']
        if p['same']:
            b = a
        ta, tb = content(p['seed'], p['len']), content(p['seed'] + 1, p['len'])
        if p['same']:
            tb = ta
        L = lambda n: os.path.join(h.local, n)
        R = lambda n: os.path.join(h.remote, n)
        za, zb = h.zenc(ta), h.zenc(tb)
        for v, w, z in ((a, p['wa'], za), (b, p['wb'], zb)):
            if w in ('local', 'both'):
                put(L(bname(v)), z)
            if w in ('remote', 'both'):
                put(R(bname(v)), z)
        old = b'an existing patch'
        if p['patch'] in ('local', 'both'):
            put(L(pname(a, b)), old)
        if p['patch'] in ('remote', 'both'):
            put(R(pname(a, b)), old)
        if p['patch'] == 'local_empty':
            put(L(pname(a, b)), b'')
        put(L('other.tar.zst'), b'other')
        known = lambda v: os.path.exists(L(bname(v))) or os.path.exists(R(bname(v)))
        rk = lambda v: os.path.exists(R(bname(v)))
        had = p['patch'] in ('local', 'both') and known(a) and known(b) or p['patch'] in ('remote', 'both') and rk(a) and rk(b)
        src = os.path.join(h.src, bname(b))
        before, rb = snap(h.local), snap(h.remote)
        should = known(a) and known(b) and not p['same']
        if p['cmd'] == 'add_from':
            put(src, zb)
            should = known(a) and not p['same']
            had = p['patch'] in ('local', 'both') and (known(a) and known(b)) or p['patch'] in ('remote', 'both') and rk(a) and rk(b)
            c, out = h.cli('add', '--calc-patch-from', a, src)
            ok = c == 0
        elif p['cmd'] == 'cli':
            c, out = h.cli('create-patch', a, b)
            ok = c == 0
        else:
            q = h.probe()
            ix = q('open', local=h.local, remote=h.remote)
            check('ok' in ix, 'opening fails: %r', ix)
            x = q('create_patch', h=ix['ok'], a=a, b=b)
            ok, out = 'ok' in x, repr(x)
            if ok:
                g = q('get_patch', h=ix['ok'], a=a, b=b)
                check('ok' in g, 'the created patch is not known: %r', g)
        now = snap(h.local)
        d = diff(before, now)
        what = 'creating the patch %s -> %s (%s)' % (a, b, {k: p[k] for k in ('wa', 'wb', 'patch', 'cmd')})
        check(ok == should, '%s %s: %s', what, 'succeeds' if ok else 'fails', out[-500:])
        check(snap(h.remote) == rb, '%s changes the remote', what)
        pn = pname(a, b)
        allowed = {bname(a), bname(b)} | ({pn} if not p['same'] else set())
        check(set(d) <= allowed, '%s changes %r', what, d)
        if p['same']:
            check(now.get(pn) == before.get(pn), '%s makes a patch between the same versions', what)
        if not ok:
            return
        check(now[pn][0] == 'file' and now[pn][1], '%s leaves no patch', what)
        if had:
            check(now[pn][1] == old, '%s replaces the existing patch', what)
        else:
            raw = h.zdec(now[pn][1])
            check(raw is not None and h.bpatch(raw, ta) == tb, '%s makes a patch that does not give %s', what, b)
        if not (p['cmd'] == 'add_from' and had):
            check(now.get(bname(a), (0, 0))[1] == za, '%s: build %s is not local', what, a)
        check(now.get(bname(b), (0, 0))[1] == zb, '%s: build %s is not local', what, b)


# ---------------------------------------------------------------- auto-patch
@case('C17', 3)
class auto:
    @staticmethod
    def gen(r):
        cur = r.choice(['IL40.2.%d', '1.%d.3', '%d.1.2', '2.%d', 'v-%d-4']) % r.randint(1, 12)
        prefix = r.choice(['', '', 'mod-', 'x.', 'P'])
        sep = '-' if '-' in cur else '.'
        ps = cur.split(sep)
        tags = set()
        for i, x in enumerate(ps):
            if x.isdigit() and int(x) > 0:
                for _ in range(r.randint(0, 3)):
                    tags.add(sep.join(ps[:i] + [str(int(x) - 1)] + [str(r.randrange(12)) for _ in range(r.randint(0, 2))]))
        for _ in range(r.randint(0, 4)):
            tags.add(r.choice(['v0.1', 'release-9', 'IL40.1.7', '1.0.1', 'zz']))
        tags = sorted(tags)
        picked = pick(cur, tags)
        have = [t for t in tags if r.random() < 0.85]
        bad = [t for t in picked if r.random() < 0.12]
        pre = [t for t in picked if r.random() < 0.15]
        return {'cur': cur, 'prefix': prefix, 'tags': tags, 'have': have, 'bad': bad, 'pre': pre, 'where': r.choice(['local', 'remote']), 'known': r.random() < 0.88, 'annotated': r.random() < 0.3, 'sub': r.random() < 0.2, 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        if not shutil.which('git'):
            raise Broken('no git')
        repo = os.path.join(h.aux, 'repo')
        os.mkdir(repo)
        env = h.env(GIT_AUTHOR_NAME='x', GIT_AUTHOR_EMAIL='x@x', GIT_COMMITTER_NAME='x', GIT_COMMITTER_EMAIL='x@x', GIT_CONFIG_GLOBAL='/dev/null')
        G = lambda *a: subprocess.run(['git'] + list(a), cwd=repo, env=env, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            G('init', '-q')
            G('commit', '-q', '--allow-empty', '-m', 'x')
            for t in p['tags']:
                G('tag', *(['-a', '-m', 't'] if p['annotated'] else []), t)
        except (OSError, subprocess.CalledProcessError) as e:
            raise Broken('git: %s' % e)
        if p['sub']:
            os.mkdir(os.path.join(repo, 'sub'))
        pre, cur = p['prefix'], p['cur']
        store = getattr(h, p['where'])
        new = pre + cur
        text = {}
        for i, t in enumerate(p['have'] + ([cur] if p['known'] else [])):
            v = pre + t
            text[v] = content(p['seed'] + i, 500)
            put(os.path.join(store, bname(v)), h.zenc(text[v]) if t not in p['bad'] else b'not a build')
        for t in p['pre']:
            v = pre + t
            if v in text and new in text:
                put(os.path.join(store, pname(v, new)), b'existing')
        before, rb = snap(h.local), snap(h.remote)
        c, out = h.cli('auto-patch', '--repo-root', os.path.join(repo, 'sub') if p['sub'] else repo, *(['--prefix', pre] if pre else []), '--', cur)
        now = snap(h.local)
        d = diff(before, now)
        check(snap(h.remote) == rb, 'auto-patch changes the remote')
        if not p['known']:
            check(c != 0, 'auto-patch succeeds for an unknown build')
            check(not d, 'auto-patch for an unknown build changes %r', d)
            return
        picked = pick(cur, p['tags'])
        ok, made = True, set()
        for t in picked:
            v = pre + t
            if v not in text or (t in p['bad'] and t not in p['pre']):
                ok = False
                continue
            made.add(pname(v, new))
        check((c == 0) == ok, 'auto-patch for %r of the tags %r with the builds %r (bad: %r) picks %r and exits with %d: %s', cur, p['tags'], p['have'], p['bad'], picked, c, out[-600:])
        for n in made:
            check(now.get(n, ('', b''))[1] != b'', 'auto-patch did not make %s (%r)', n, picked)
            v = parse_patch(n)[0]
            if before.get(n, rb.get(n, (0, 0)))[1] != b'existing':
                raw = h.zdec(now[n][1])
                check(raw is not None and h.bpatch(raw, text[v]) == text[new], '%s does not make %s from %s', n, new, v)
        ps = {n for n in d if n.endswith('.patch.zst')}
        check(ps <= made, 'auto-patch makes %r instead of %r', sorted(ps), sorted(made))
        bs = {bname(pre + t) for t in picked} | {bname(new)}
        check(set(d) - ps <= bs, 'auto-patch changes %r', sorted(set(d) - ps))


# ---------------------------------------------------------------- outside
@case('C18', 3)
class outside:
    """random commands with odd names: everything outside of the stores stays as it is"""
    ODD = ['../src/evil', '../evil', '../aux/evil', 'sub/evil', '../local/evil', './evil', '../src/keep', '..', '.', '', 'a/../../src/evil', 'ABS/aux/evil', 'a---b', 'x\\..\\y', '~', '$HOME', 'a b', 'é', '...', '..x', 'current', 'current.tar.zst']

    @staticmethod
    def gen(r):
        ops = []
        for _ in range(r.randint(2, 5)):
            ops.append([r.choice(['add', 'package', 'package', 'create', 'create', 'install', 'install', 'sync', 'add_from', 'auto']), r.choice(outside.ODD + ['v1', 'v2', 'v-3']), r.choice(outside.ODD + ['v1', 'v2']), r.random() < 0.3])
        return {'ops': ops, 's3': r.random() < 0.2, 'seed': r.randrange(1 << 20), 'evil_link': r.random() < 0.2}

    @staticmethod
    def run(h, p):
        s3 = h.s3() if p['s3'] else None
        rem = 's3://bk.ep.example.com/r' if s3 else h.remote
        for d in (h.local, h.remote):
            os.mkdir(os.path.join(d, 'sub'))
            put(os.path.join(d, 'sub', 'keep'), b'keep')
        for i, v in enumerate(('v1', 'v2', 'v-3')):
            d = h.local if i != 1 else h.remote
            z = h.zenc(content(i, 2000))
            if d == h.remote and s3:
                s3.objects['ep.example.com', 'bk', 'r/' + bname(v)] = z
            else:
                put(os.path.join(d, bname(v)), z)
        if s3:
            for n in ('../../src/evil.tar.zst', '../evil-x.patch.zst', '../evil.tar.zst', 'sub/../../evil.tar.zst'):
                s3.objects['ep.example.com', 'bk', 'r/' + n] = b'evil'
        if p['evil_link']:
            os.symlink(os.path.join(h.src, 'keep.tar.zst'), os.path.join(h.local, 'lnk.tar.zst'))
        os.mkdir(os.path.join(h.src, 'tree'))
        put(os.path.join(h.src, 'tree', 'x'), b'x')
        put(os.path.join(h.src, 'keep.tar.zst'), b'keep')
        put(os.path.join(h.aux, 'keep'), b'keep')
        put(os.path.join(h.src, 'new.tar.zst'), h.zenc(b'new'))
        h.ref
        before = snap(h.dir, skip=('local', 'remote', 'tmp'))
        inner = {d: {n for n in snap(d) if '/' in n} for d in (h.local, h.remote)}
        keep = {d: {n: e for n, e in snap(d).items() if '/' in n or e[0] == 'dir'} for d in (h.local, h.remote)}
        for op, x, y, up in p['ops']:
            x, y = x.replace('ABS', h.dir), y.replace('ABS', h.dir)
            a = {'add': ['add'] + ['--upload'] * up + ['--', os.path.join(h.src, 'new.tar.zst')], 'package': ['add-package'] + ['--upload'] * up + ['--', x, os.path.join(h.src, 'tree')], 'create': ['create-patch', '--', x, y],
                 'install': ['install', '--', x], 'sync': ['sync'], 'add_from': ['add', '--calc-patch-from', x, '--', os.path.join(h.src, 'new.tar.zst')], 'auto': ['auto-patch', '--repo-root', h.src, '--prefix', y, '--', x]}[op]
            if op == 'auto' and y.startswith('-'):
                continue
            c, out = h.cli(*a, remote=rem, s3=s3)
            now = snap(h.dir, skip=('local', 'remote', 'tmp'))
            check(now == before, '%r changes %r', a, diff(before, now))
            check(os.listdir(h.tmp) == [], '%r leaves %r in the temporary directory', a, os.listdir(h.tmp))
            for d in (h.local, h.remote):
                n2 = {n: e for n, e in snap(d).items() if '/' in n or e[0] == 'dir'}
                check(n2 == keep[d], '%r changes %r, below a directory of %s', a, diff(keep[d], n2), d)
            for v in (x, y):
                if '/' in v and op in ('package', 'create', 'install', 'add_from'):
                    if v == y and op != 'create':
                        continue
                    check(c != 0, '%r succeeds', a)
        if s3:
            bad = [k for k in s3.log if k[0] not in ('LIST', 'GET', 'PUT') or k[0] == 'PUT' and (not k[1][2].startswith('r/') or '/' in k[1][2][2:])]
            check(not bad, 'requests: %r', bad)


@case('C18')
class temporaries:
    """also if a command fails in the middle"""
    @staticmethod
    def gen(r):
        return {'at': r.randint(1, 25), 'errno': r.choice([5, 28, 13]), 'op': r.choice(['package', 'package_upload', 'create', 'install']), 'mode': r.choice(['err', 'full'])}

    @staticmethod
    def run(h, p):
        put(os.path.join(h.local, 'a.tar.zst'), h.zenc(content(1, 2000)))
        put(os.path.join(h.remote, 'b.tar.zst'), h.zenc(content(2, 2000)))
        os.mkdir(os.path.join(h.src, 'tree'))
        put(os.path.join(h.src, 'tree', 'x'), content(3, 30000))
        before = snap(h.dir, skip=('local', 'remote', 'tmp', 'aux'))
        a = {'package': ['add-package', 'v', os.path.join(h.src, 'tree')], 'package_upload': ['add-package', '--upload', 'v', os.path.join(h.src, 'tree')], 'create': ['create-patch', 'a', 'b'], 'install': ['install', 'b']}[p['op']]
        c, out, ops = shim_run(h, a, h.dir, p['at'], p['mode'], p['errno'])
        at = ops[p['at'] - 1] if len(ops) >= p['at'] else ''
        check(snap(h.dir, skip=('local', 'remote', 'tmp', 'aux')) == before, '%r changes something else', a)
        for o in ops:
            f = o.split(' ', 2)[2]
            check(any(f.startswith(d + '/') and '/' not in f[len(d) + 1:] for d in (h.local, h.remote, h.tmp)) or f.startswith(h.tmp + '/'), '%r: operation %r', a, o)
        if not (' unlink' in at or ' rmdir' in at):
            check(os.listdir(h.tmp) == [], '%r with %s at %r leaves %r', a, p['mode'], at, os.listdir(h.tmp))


# ---------------------------------------------------------------- compression
@case('C19', 3)
class compressing:
    @staticmethod
    def gen(r):
        return {'level': r.choice([None, '', 'x', '3.5', ' 3', '3 ', '1', '2', '3', '5', '9', '14', '15', '19', '0', '-1', '-7', '-100', '22', '23', '100', '+4', '007', '0x3', '1e1', '-', '2147483647', '-2147483648', 'high', '１']), 'len': r.choice([0, 1, 100, 4000, 200000]), 'kind': r.choice(['random', 'zero', 'text']), 'chunk': r.choice([1 << 20, 1 << 20, 777]), 'seed': r.randrange(1 << 20)}
    fixed = [{'level': l, 'len': 60000, 'kind': 'text', 'chunk': 1 << 20, 'seed': 1} for l in (None, '', 'x', '1', '19', '-5', '14', '3.5')]

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        d = {'random': lambda: r.randbytes(p['len']), 'zero': lambda: bytes(p['len']), 'text': lambda: b' '.join(r.choice([b'lorem', b'ipsum', b'dolor', b'sit', b'amet', b'consectetur', b'%d' % r.randrange(999)]) for _ in range(p['len'] // 6))}[p['kind']]()
        q = h.probe(ARTEFACTA_COMPRESSION_LEVEL='1')
        i, o, o2 = h.path(), h.path(), h.path()
        put(i, d)
        e = h.env()
        e.pop('ARTEFACTA_COMPRESSION_LEVEL')
        if p['level'] is not None:
            e['ARTEFACTA_COMPRESSION_LEVEL'] = p['level']
        pr = Probe(e, h.dir)
        h.probes.append(pr)
        lev = p['level']
        lev = int(lev) if lev is not None and re.fullmatch(r'[+-]?[0-9]+', lev) else 14
        if p['len'] > 4000 and lev > 19:
            d = d[:4000]
            put(i, d)
        x = pr('compress', out=o, chunk=p['chunk'], **{'in': i})
        check('ok' in x, 'compressing with level %r fails: %r', p['level'], x)
        check(h.zdec(get(o)) == d, 'compressing with level %r changes the content', p['level'])
        x = pr('decompress', out=o2, **{'in': o})
        check('ok' in x and get(o2) == d, 'decompressing gives other bytes: %r', x)
        if p['chunk'] >= len(d):
            check(get(o) == h.zenc(d, level=lev), 'ARTEFACTA_COMPRESSION_LEVEL=%r does not give level %d', p['level'], lev)


@case('C19')
class decompressing:
    @staticmethod
    def gen(r):
        return {'kind': r.choice(['garbage', 'cut', 'cut', 'trailing', 'flip_magic', 'text', 'gzip', 'second_cut']), 'len': r.choice([1, 300, 5000, 400000]), 'at': r.random(), 'seed': r.randrange(1 << 20)}

    @staticmethod
    def run(h, p):
        r = random.Random(p['seed'])
        d = r.randbytes(p['len'])
        z = h.zenc(d)
        k = p['kind']
        i = max(1, min(len(z) - 1, int(p['at'] * len(z))))
        bad = {'garbage': lambda: b'\x00' + r.randbytes(p['len']), 'cut': lambda: z[:i], 'trailing': lambda: z + b'xyz', 'flip_magic': lambda: bytes([z[0] ^ 1]) + z[1:], 'text': lambda: b'hello', 'gzip': lambda: __import__('gzip').compress(d), 'second_cut': lambda: z + z[:i]}[k]()
        a, o = h.path(), h.path()
        put(a, bad)
        q = h.probe()
        x = q('decompress', out=o, **{'in': a})
        check('err' in x, 'decompressing something that is not valid (%s) gives %r', k, x)

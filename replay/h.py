"""Runs the real code of /repo (its command line program and, through the probe, its library) in scratch directories."""
import base64, hashlib, http.client, http.server, json, os, random, shutil, ssl, stat, subprocess, sys, tempfile, threading, time, urllib.parse

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
CLI = os.path.join(BUILD, 'probe', 'debug', 'artefacta')
PROBE = os.path.join(BUILD, 'probe', 'debug', 'probe')
TLS = os.path.join(HERE, 'tls')
SHIM = os.path.join(BUILD, 'shim.so')


class Violation(Exception):
    pass


class Broken(Exception):
    """the harness itself cannot go on"""


def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='',
             CARGO_TERM_COLOR='never', PATH='/root/.cargo/bin:' + e.get('PATH', ''))
    for k in ('CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG', 'RUST_LOG'):
        e.pop(k, None)
    return e


def build(log):
    """builds the program and the probe from /repo's working tree; (cli, probe) say which of them can be used"""
    os.makedirs(BUILD, exist_ok=True)
    ok = {}
    for hook, bins in (('--cfg artefacta_verif ', ('artefacta', 'probe')), ('--cfg artefacta_verif ', ('artefacta',)), ('--cfg artefacta_verif ', ('probe',)), ('', ('artefacta',)), ('', ('probe',))):
        if all(b in ok for b in bins):
            continue
        if True:
            e = cargo_env()
            e['RUSTFLAGS'] = hook + '-Awarnings'
            r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--target-dir', os.path.join(BUILD, 'probe')] + [x for b in bins for x in ('--bin', b)],
                               cwd=os.path.join(HERE, 'probe'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log.write('build %s %r: %d\n%s\n' % (bins, hook, r.returncode, r.stdout[-3000:] if r.returncode else ''))
            if r.returncode == 0:
                for b in bins:
                    ok[b] = True
                    ok['hook'] = ok.get('hook', True) and bool(hook)
    src = os.path.join(HERE, 'shim', 'shim.c')
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', SHIM, src, '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log.write(r.stdout)
    ok['shim'] = os.path.exists(SHIM)
    return ok


class S3:
    """an S3 server on the loopback network; objects are keyed by (endpoint, bucket, key)"""
    def __init__(self):
        self.objects, self.log, self.page = {}, [], 1000
        self.bad_get, self.bad_put, self.fail_put, self.multipart, self.lie = {}, set(), {}, set(), {}
        self.lock = threading.Lock()
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'

            def log_message(self, *a):
                pass

            def send(self, code, body=b'', **head):
                self.send_response(code)
                head.setdefault('Content-Length', str(len(body)))
                for k, v in head.items():
                    self.send_header(k.replace('_', '-'), v)
                self.end_headers()
                if self.command != 'HEAD':
                    self.wfile.write(body)

            def where(self):
                u = urllib.parse.urlsplit(self.path)
                parts = u.path.lstrip('/').split('/', 2)
                parts += [''] * (3 - len(parts))
                return (urllib.parse.unquote(parts[0]), urllib.parse.unquote(parts[1]), urllib.parse.unquote(parts[2])), dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))

            def do_GET(self):
                k, q = self.where()
                with outer.lock:
                    outer.log.append(('LIST' if not k[2] else 'GET', k, q))
                    if not k[2]:
                        return self.list(k, q)
                    if k not in outer.objects:
                        return self.send(404, b'<Error><Code>NoSuchKey</Code></Error>')
                    d = outer.objects[k]
                    tag = '"%s"' % hashlib.md5(d).hexdigest()
                    if k in outer.multipart:
                        tag = '"%s-2"' % hashlib.md5(d).hexdigest()
                    tag = outer.lie.get(k, tag)
                    sent = outer.bad_get.get(k, lambda x: x)(d)
                    heads = dict(Content_Length=str(len(sent)))
                    if tag is not None:
                        heads['ETag'] = tag
                    return self.send(200, sent, **heads)

            def list(self, k, q):
                pre, delim = q.get('prefix', ''), q.get('delimiter')
                names = sorted(x[2] for x in outer.objects if x[:2] == k[:2] and x[2].startswith(pre) and x[2] > q.get('start-after', ''))
                items, seen = [], set()
                for n in names:
                    if delim and delim in n[len(pre):]:
                        c = pre + n[len(pre):].split(delim)[0] + delim
                        if c not in seen:
                            seen.add(c)
                            items.append(('P', c))
                    else:
                        items.append(('K', n))
                start = int(q['continuation-token'].split(':')[1]) if 'continuation-token' in q else 0
                n = min(outer.page, int(q.get('max-keys', '1000')))
                part, more = items[start:start + n], start + n < len(items)
                esc = lambda t: t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
                x = '<?xml version="1.0" encoding="UTF-8"?><ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>%s</Name><Prefix>%s</Prefix><KeyCount>%d</KeyCount><MaxKeys>%d</MaxKeys><IsTruncated>%s</IsTruncated>' % (esc(k[1]), esc(pre), len(part), n, 'true' if more else 'false')
                if more:
                    x += '<NextContinuationToken>tok:%d</NextContinuationToken>' % (start + n)
                for t, v in part:
                    if t == 'K':
                        x += '<Contents><Key>%s</Key><LastModified>2020-01-01T00:00:00.000Z</LastModified><ETag>&quot;%s&quot;</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass></Contents>' % (esc(v), hashlib.md5(outer.objects[k[:2] + (v,)]).hexdigest(), len(outer.objects[k[:2] + (v,)]))
                    else:
                        x += '<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>' % esc(v)
                return self.send(200, (x + '</ListBucketResult>').encode(), Content_Type='application/xml')

            def do_PUT(self):
                k, q = self.where()
                d = self.rfile.read(int(self.headers.get('Content-Length', '0')))
                m = self.headers.get('Content-MD5')
                with outer.lock:
                    outer.log.append(('PUT', k, {'md5': m, 'data': d}))
                    if k in outer.fail_put:
                        return self.send(outer.fail_put[k], b'<Error><Code>InternalError</Code></Error>')
                    if k in outer.bad_put:
                        d = bytes([d[0] ^ 1]) + d[1:] if d else b'x'
                    if m is not None and m != base64.b64encode(hashlib.md5(d).digest()).decode():
                        return self.send(400, b'<?xml version="1.0" encoding="UTF-8"?><Error><Code>BadDigest</Code><Message>no</Message></Error>')
                    outer.objects[k] = d
                    return self.send(200, b'', ETag='"%s"' % hashlib.md5(d).hexdigest())

            def other(self):
                k, q = self.where()
                with outer.lock:
                    outer.log.append((self.command, k, q))
                self.send(405)
            do_DELETE = do_POST = do_HEAD = other

        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(os.path.join(TLS, 'server.pem'), os.path.join(TLS, 'server.key'))

        class Srv(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def get_request(self):
                s, a = super().get_request()
                return ctx.wrap_socket(s, server_side=True, do_handshake_on_connect=False), a

            def handle_error(self, *a):
                pass
        self.srv = Srv(('127.0.0.1', 0), H)
        self.url = 'https://localhost:%d' % self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, kwargs={'poll_interval': 0.02}, daemon=True).start()
        # does the server itself work here?
        try:
            c = http.client.HTTPSConnection('localhost', self.srv.server_address[1], timeout=10, context=ssl.create_default_context(cafile=os.path.join(TLS, 'ca.pem')))
            c.request('GET', '/self/test/key')
            if c.getresponse().status != 404:
                raise Broken('the S3 server does not answer')
            c.close()
        except OSError as e:
            raise Broken('the S3 server cannot be reached: %s' % e)
        self.log.clear()

    def stop(self):
        self.srv.shutdown()
        self.srv.server_close()


class Probe:
    def __init__(self, env, cwd):
        self.p = subprocess.Popen([PROBE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=cwd)

    def __call__(self, op, **kw):
        kw['op'] = op
        try:
            self.p.stdin.write((json.dumps(kw) + '\n').encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b''
        if not l:
            return {'panic': 'process ended with %s' % self.p.wait()}
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class H:
    """one scratch directory: stores, temporary directory, source files"""
    def __init__(self, have):
        self.have = have
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='avx-'))
        self.probes, self.servers = [], []
        self._ref = None
        for d in ('local', 'remote', 'tmp', 'src', 'aux'):
            os.mkdir(os.path.join(self.dir, d))
        self.local, self.remote, self.tmp, self.src, self.aux = (os.path.join(self.dir, d) for d in ('local', 'remote', 'tmp', 'src', 'aux'))
        self.n = 0

    def close(self):
        for p in self.probes:
            p.close()
        for s in self.servers:
            s.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self, s3=None, **kw):
        e = {'PATH': os.environ.get('PATH', ''), 'HOME': self.aux, 'TMPDIR': self.tmp, 'AWS_ACCESS_KEY_ID': 'x', 'AWS_SECRET_ACCESS_KEY': 'y',
             'GIT_CONFIG_NOSYSTEM': '1', 'ARTEFACTA_COMPRESSION_LEVEL': '1', 'LC_ALL': 'C.UTF-8'}
        if s3:
            e['ARTEFACTA_VERIF_S3'] = s3.url
            e['SSL_CERT_FILE'] = os.path.join(TLS, 'ca.pem')
        e.update({k: v for k, v in kw.items() if v is not None})
        return e

    def probe(self, s3=None, **kw):
        if not self.have.get('probe'):
            raise Broken('no probe')
        p = Probe(self.env(s3, **kw), self.dir)
        self.probes.append(p)
        return p

    @property
    def ref(self):
        if self._ref is None:
            self._ref = self.probe()
        return self._ref

    def s3(self):
        if not self.have.get('hook'):
            raise Broken('built without the hook')
        s = S3()
        self.servers.append(s)
        return s

    def cli(self, *args, local=None, remote=None, s3=None, shim=None, timeout=60, cwd=None, **kw):
        """runs the program; (exit status, output)"""
        if not self.have.get('artefacta'):
            raise Broken('no program')
        e = self.env(s3, **kw)
        if shim is not None:
            if not self.have.get('shim'):
                raise Broken('no shim')
            e['LD_PRELOAD'] = SHIM
            e.update(shim)
        try:
            r = subprocess.run([CLI, '--local', local or self.local, '--remote', remote or self.remote] + list(args), env=e, cwd=cwd or self.dir,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return -9, 'timeout'
        return r.returncode, r.stdout.decode('utf-8', 'replace')

    # ---- files
    def path(self):
        self.n += 1
        return os.path.join(self.aux, 'f%d' % self.n)

    def zenc(self, data, pad=0, level=3):
        a, b = self.path(), self.path()
        put(a, data)
        r = self.ref('ref_zenc', **{'in': a, 'out': b, 'pad': pad, 'level': level})
        if 'ok' not in r:
            raise Broken('ref_zenc %r' % r)
        return get(b)

    def zdec(self, data):
        a, b = self.path(), self.path()
        put(a, data)
        r = self.ref('ref_zdec', **{'in': a, 'out': b})
        return get(b) if 'ok' in r else None

    def bdiff(self, old, new):
        a, b, c = self.path(), self.path(), self.path()
        put(a, old), put(b, new)
        r = self.ref('ref_bdiff', old=a, new=b, out=c)
        if 'ok' not in r:
            raise Broken('ref_bdiff %r' % r)
        return get(c)

    def bpatch(self, patch, old):
        a, b, c = self.path(), self.path(), self.path()
        put(a, patch), put(b, old)
        r = self.ref('ref_bpatch', patch=a, old=b, out=c)
        return get(c) if 'ok' in r else None

    def mkpatch(self, old, new, pad=0):
        return self.zenc(self.bdiff(old, new), pad)


def put(p, data, mode=None):
    with open(p, 'wb') as f:
        f.write(data)
    if mode is not None:
        os.chmod(p, mode)


def get(p):
    with open(p, 'rb') as f:
        return f.read()


def snap(d, skip=()):
    """everything below a directory: {relative path: (kind, content or target, mode)}"""
    out = {}
    for base, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, d)
            if rel in skip or any(rel.startswith(s + '/') for s in skip):
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', os.readlink(p), 0)
            elif stat.S_ISREG(st.st_mode):
                out[rel] = ('file', get(p), stat.S_IMODE(st.st_mode))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir', b'', stat.S_IMODE(st.st_mode))
            else:
                out[rel] = ('special', b'', 0)
    return out


def diff(a, b):
    """names that are different, with what happened"""
    out = {}
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out[k] = 'removed'
        elif k not in a:
            out[k] = 'new'
        elif a[k] != b[k]:
            out[k] = 'changed'
    return out


def is_temp(n):
    return os.path.basename(n).startswith('._artefacta-temp')


def check(ok, msg, *a):
    if not ok:
        raise Violation(msg % a if a else msg)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'

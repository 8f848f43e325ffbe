"""C17: configuration files are loaded faithfully and bad ones are refused safely."""
import json
import os
import re
import shutil
import socket
import struct
import subprocess
import tempfile
import time

from checks import c22
from vlib import build as B
from vlib import harness
from vlib import server as S
from vlib import ws
from vlib.check import Scenario, Violation
from vlib.work import Model, converse

PROPERTY = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('oracle monitoring: the program itself, whose start of the server is replaced by writing down what it was configured with, is run on generated, '
             'ill-typed, cut and mutated files under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer and compared with an independent reading of '
             'each file; servers are started with ordinary and extreme values and probed for them')
NOTE = ('Not judged: repeated keys, integers outside the range of the field, top-level keys that begin with a known name, unknown objects inside setup '
        'that contain known names, nesting of more than some thousand levels below setup (searched recursively).')
VARIANTS = ['rel', 'asan', 'poll', 'asan2']
HARNESSES = {v: ('config_main',) for v in ('rel', 'asan')}
RULE = 'a case is one file (or command line) loaded by the program, or one value probed on a running server; distinct are the files'
ASSUMPTIONS = ['memory is available', 'the file does not change while it is read']

DEFAULTS = {
    'port_http': 80, 'port_https': 443, 'log': None, 'size_uri': 8192, 'size_payload': 16777215, 'size_header': 8192, 'size_thread': 2097152, 'size_buffer': 32768,
    'size_ringbuffer': 128, 'size_frame': 1048576, 'max_frames': 1048576, 'pool_workers': 4, 'pool_retries': 5, 'timeout_pings': 1, 'timeout_poll': -1,
    'timeout_read': 1000, 'timeout_write': 1000, 'timeout_client': 60000, 'ssl_compression': 0, 'ssl_peer_cert': 0, 'ssl_key': None, 'ssl_cert': None,
    'ssl_ca_file': None, 'ssl_ca_path': None, 'ssl_cipher_list': None, 'ssl_cipher_suites': None, 'ssl_dhparam': None, 'favicon': None,
    'hosts': [], 'paths': [], 'queries': [], 'origins': [],
    'subprotocols': ['subprotocols/echo/echo.so', 'subprotocols/broadcast/broadcast.so'], 'subprotocols_config': [None, None], 'extensions': [], 'extensions_config': [],
}
INTS = {('timeouts', k): 'timeout_' + k for k in ('poll', 'read', 'write', 'client', 'pings')}
INTS.update({('size', k): 'size_' + k for k in ('payload', 'header', 'uri', 'buffer', 'thread', 'ringbuffer', 'frame')})
INTS.update({('size', 'fragmented'): 'max_frames', ('pool', 'workers'): 'pool_workers', ('pool', 'retries'): 'pool_retries', ('port', 'http'): 'port_http', ('port', 'https'): 'port_https'})
STRS = {('ssl', k): 'ssl_' + k for k in ('key', 'cert', 'ca_file', 'ca_path', 'dhparam', 'cipher_list', 'cipher_suites')}
BOOLS = {('ssl', 'compression'): 'ssl_compression', ('ssl', 'peer_cert'): 'ssl_peer_cert'}
SECTIONS = sorted({k[0] for k in list(INTS) + list(STRS)})


class Raw(bytes):
    """Text of a value"""


def emit(rng, v, style):
    """Any of the ways to write the value"""
    sp = lambda: c22.space(rng, style)
    if isinstance(v, Raw):
        return bytes(v)
    if isinstance(v, dict):
        v = list(v.items())
        rng.shuffle(v)
        return b'{' + b','.join(sp() + string(rng, k) + sp() + b':' + sp() + emit(rng, x, style) + sp() for k, x in v) + (b'' if v else sp()) + b'}'
    if isinstance(v, list):
        return b'[' + b','.join(sp() + emit(rng, x, style) + sp() for x in v) + (b'' if v else sp()) + b']'
    if isinstance(v, str):
        return string(rng, v)
    return json.dumps(v).encode()


def string(rng, s):
    out = ''
    for c in s:
        if c in '"\\' or ord(c) < 32 or rng.random() < 0.03:
            u = c.encode('utf-16-be')
            out += ''.join('\\u%04x' % struct.unpack('>H', u[i:i + 2]) for i in range(0, len(u), 2))
        else:
            out += c
    return b'"' + out.encode() + b'"'


def text(rng):
    k = rng.random()
    if k < 0.1:
        return ''
    if k < 0.7:
        return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789./-_:') for _ in range(rng.choice([1, 3, 9, 20, 60])))
    if k < 0.95:
        return ''.join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(0xa0, 0x800), rng.randrange(0x10000, 0x11000)])) for _ in range(rng.choice([1, 3, 9, 20])))
    return 'x' * rng.choice([255, 256, 4095, 5000, 70000])


WRONG = [None, True, False, 0, 7, -3, 1.5, 0.0, '', 'x', '17', [], ['x'], [1], {}, {'a': 1}, [[]], [{}], {'file': 1}]


def wrong(rng, kinds):
    """A value of another type"""
    while True:
        v = rng.choice(WRONG)
        if not isinstance(v, kinds) or (isinstance(v, bool) and bool not in kinds):
            return v


def document(rng):
    """(value, fields expected, the fields that were given ill-typed values)"""
    doc, want, ill = {}, dict(DEFAULTS), set()
    bad = 0.03 if rng.random() < 0.4 else 0
    p = rng.choice([0.05, 0.3, 0.6, 0.95, 1])

    def here():
        return rng.random() < p

    def is_bad():
        return rng.random() < bad
    for name in ('hosts', 'paths', 'queries', 'origins'):
        if here():
            if is_bad():
                doc[name] = wrong(rng, (list,)) if rng.random() < 0.5 else [text(rng) for _ in range(rng.randrange(3))] + [wrong(rng, (str,))] + [text(rng)]
                ill.add(name)
            else:
                doc[name] = want[name] = [text(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 10]))]
    setup = {}
    for name in ('subprotocols', 'extensions'):
        if here():
            if is_bad():
                k = rng.randrange(4)
                setup[name] = [wrong(rng, (list,)), [wrong(rng, (dict,))], [{'file': 'a'}, {'file': wrong(rng, (str,))}], [{'file': 'a.so', 'config': wrong(rng, (str,))}]][k]
                ill.update((name, name + '_config'))
            else:
                l = []
                for _ in range(rng.choice([0, 1, 1, 2, 5])):
                    l.append({k: text(rng) for k in rng.choice([('file', 'config'), ('file', 'config'), ('file',), ('config', 'file')])})
                setup[name] = l
                if l or name == 'extensions':
                    want[name] = [x['file'] for x in l]
                    want[name + '_config'] = [x.get('config') for x in l]
    if here():
        if is_bad():
            setup['favicon'] = wrong(rng, (str,))
            ill.add('favicon')
        else:
            setup['favicon'] = want['favicon'] = text(rng)
    if here():
        if is_bad():
            setup['log_level'] = wrong(rng, (int,))
            ill.add('log')
        else:
            setup['log_level'] = want['log'] = rng.randrange(0, 7)
    for s in SECTIONS:
        if not here():
            continue
        sec = {}
        mine = [(k, f, int) for (q, k), f in INTS.items() if q == s] + [(k, f, str) for (q, k), f in STRS.items() if q == s] + [(k, f, bool) for (q, k), f in BOOLS.items() if q == s]
        if is_bad():
            setup[s] = wrong(rng, (dict,))
            ill.update(f for _, f, _ in mine)
            continue
        for k, f, t in mine:
            if not here():
                continue
            if is_bad():
                sec[k] = wrong(rng, (t,))
                ill.add(f)
            elif t is int:
                if s == 'timeouts':
                    v = rng.choice([-1, -1, 0, 1, 50, 1000, 3600000, 2**31 - 1, -2, -1000, rng.randrange(2**31)]) if k != 'pings' else rng.randrange(10)
                    want[f] = max(v, -1)
                elif s == 'port':
                    v = want[f] = rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535, rng.randrange(65536)])
                else:
                    v = want[f] = rng.choice([0, 1, 2, 100, 4096, 65536, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32)])
                sec[k] = v
            elif t is str:
                v = rng.choice([text(rng), None])
                sec[k] = want[f] = v
            else:
                sec[k] = rng.random() < 0.5
                want[f] = int(sec[k])
        if rng.random() < 0.1:
            sec['unknown'] = rng.choice([1, None, 'http', [1, 2]])
        setup[s] = sec
    if here() and is_bad():
        doc['setup'] = wrong(rng, (dict,))
        ill.update(DEFAULTS)
        for n in ('hosts', 'paths', 'queries', 'origins'):
            ill.discard(n)
    elif setup or here():
        doc['setup'] = setup
    for k in ('comment', 'Hosts', 'x-setup', 'origin', 'path', 'query', 'host'):
        if rng.random() < 0.05:
            doc[k] = rng.choice([1, None, 'x', ['y'], {'port': {'http': 1}, 'hosts': ['z']}])
    return doc, want, ill


def unhex(v):
    return None if v == '-' else bytes.fromhex(v[1:]).decode('utf-8', 'surrogateescape')


class Program:
    def __init__(self, ctx, variant):
        self.ctx, self.variant = ctx, variant
        self.exe = os.path.join(B.build(variant, ('config_main',)), 'config_main')
        self.dir = tempfile.mkdtemp(prefix='wssc-')
        os.mkdir(os.path.join(self.dir, 'log'))
        self.env = harness.environment(self.dir)
        self.dump = os.path.join(self.dir, 'dump')
        self.env['CONFIG_DUMP'] = self.dump

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, args, what, timeout=60):
        """(exit status, fields or None)"""
        if os.path.exists(self.dump):
            os.unlink(self.dump)
        try:
            p = subprocess.run([self.exe] + args, cwd=self.dir, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation('config:hang', 'loading did not end within %d s: %s' % (timeout, what()), hang=True)
        text = ''
        for f in os.listdir(self.dir):
            if f.startswith('san.'):
                with open(os.path.join(self.dir, f), errors='replace') as fh:
                    text += fh.read()
        reps = S.parse_reports(text)
        if reps:
            raise Violation('config:' + reps[0].signature, '%s\n%s' % (what(), reps[0].text[:5000]))
        if p.returncode not in (0, 1):
            raise Violation('config:exit', 'exit status %d: %s\n%s' % (p.returncode, what(), p.stdout[-1500:]))
        if not os.path.exists(self.dump):
            return p.returncode, None
        got = {}
        with open(self.dump) as fh:
            lines = fh.read().split('\n')
        if 'END' not in lines:
            raise Violation('config:exit', 'the dump is incomplete: %s' % what())
        for l in lines:
            w = l.split(' ')
            if len(w) != 2:
                continue
            if w[0].endswith('#'):
                got[w[0][:-1]] = []
            elif isinstance(got.get(w[0]), list):
                got[w[0]].append(unhex(w[1]))
            else:
                got[w[0]] = int(w[1]) if re.fullmatch(r'-?\d+', w[1]) else unhex(w[1])
        return p.returncode, got

    def load(self, data, what):
        path = os.path.join(self.dir, 'c.json')
        with open(path, 'wb') as f:
            f.write(data)
        return self.run(['-c', path], what)


def with_ports(hosts, want):
    out = list(hosts)
    for f in ('port_http', 'port_https'):
        if want[f]:
            out += ['%s:%d' % (h, want[f]) for h in hosts]
    return sorted(out)


def compare(ctx, got, want, ill, what):
    for f, v in want.items():
        g = got.get(f)
        if f == 'hosts':
            if 'port_http' in ill or 'port_https' in ill or f in ill:
                continue
            v, g = with_ports(v, want), sorted(g)
        if f == 'log' and v is None:
            continue
        if f in ill:
            v = DEFAULTS[f]
            if v is None and f == 'log':
                continue
            if f.startswith(('subprotocols', 'extensions', 'paths', 'queries', 'origins')):
                continue
        if g != v:
            raise Violation('config:' + f, '%s is %r instead of %r (%s): %s' % (f, g, v, 'ill-typed' if f in ill else 'given or default', what()))


def faithful(ctx, variant, n):
    """Whatever is in the file arrives"""
    rng = ctx.rng
    with Program(ctx, variant) as prog:
        for _ in range(n):
            doc, want, ill = document(rng)
            data = emit(rng, doc, rng.choice([0, 1, 2]))
            what = lambda: repr(data[:3000])
            rc, got = prog.load(data, what)
            none = want['port_http'] == 0 and want['port_https'] == 0
            if ill and rc == 1:
                ctx.count('ill_typed_refused')
                ctx.check(got is None, 'config:refusal', lambda: 'refused after the start: ' + what())
            elif none and not ill & {'port_http', 'port_https'}:
                ctx.check(rc == 1 and got is None, 'config:port', lambda: 'started without a port: ' + what())
                ctx.count('no_port_refused')
            else:
                ctx.check(rc == 0 and got is not None, 'config:refused', lambda: 'a valid file was refused: ' + what())
                compare(ctx, got, want, ill, what)
                ctx.count('ill_typed_defaults' if ill else 'loaded')
            ctx.case(hash(data), nontrivial=len(doc) > 0, sample=repr(data[:150]) if ctx.evaluations % 300 == 0 else None)


def broken(ctx, variant, n):
    """Cut and mutated files are refused if they are no JSON, and are loaded or refused without harm otherwise"""
    rng = ctx.rng
    with Program(ctx, variant) as prog:
        def one(data, deep=False):
            what = lambda: repr(data[:3000])
            ref = None if deep else c22.Reference(data, 1).document()
            rc, got = prog.load(data, what)
            if ref is None:
                ctx.check(rc == 1 and got is None, 'config:accepted', lambda: 'a broken file was accepted: ' + what())
                ctx.count('broken_refused')
            elif ref != '?' and ref[0] != '{':
                ctx.check(rc == 1 and got is None, 'config:accepted', lambda: 'a file without an object was accepted: ' + what())
                ctx.count('no_object_refused')
            else:
                ctx.count('mutated_loaded' if rc == 0 else 'mutated_refused')
            ctx.case(hash(data), nontrivial=True)
        for d in (b'', b' ', b'{}', b'[]', b'null', b'"x"', b'17', b'\0', b'{}\0', b'\xef\xbb\xbf', b'\xef\xbb\xbf{}', b'//', b'/*', b'{', b'}', b'{"setup":{"port":{"http":0,"https":0}}}'):
            one(d)
        for d in (b'{"hosts":["a"' * 3000, b'{"a":' * 50000, b'[' * 100000, b'{"setup":{"port":' + b'[' * 5000):
            one(d, True)
        for _ in range(n):
            doc, _, _ = document(rng)
            data = emit(rng, doc, rng.choice([0, 1, 2]))
            if rng.random() < 0.5:
                for _ in range(3):
                    one(data[:rng.randrange(len(data) + 1)])
            else:
                one(c22.mutate(rng, data))
                # a value replaced by another one
                spots = [m.span() for m in re.finditer(rb'"(?:[^"\\]|\\.)*"|-?\d+|true|false|null|\[|\{', data)]
                for _ in range(2):
                    a, b = rng.choice(spots)
                    new = rng.choice([b'null', b'[]', b'{}', b'-1', b'0', b'4294967296', b'18446744073709551616', b'1e400', b'"%s%n%d"', b'"\\u0000"', b'["a"]', b'[[[]]]', b'{"file":{"file":"a"}}', b'{"port":5}', b'true'])
                    one(data[:a] + new + data[b:])


def command_line(ctx, variant):
    """No file, bad files, options"""
    with Program(ctx, variant) as prog:
        d = prog.dir
        p = os.path.join

        def write(name, data):
            with open(p(d, name), 'wb') as f:
                f.write(data)
            return p(d, name)
        good = write('good.json', b'{"hosts":["a"],"setup":{"port":{"http":5,"https":6}}}')
        want = dict(DEFAULTS, hosts=['a'], port_http=5, port_https=6)
        write('other.json', b'{"hosts":["b","c"],"origins":["o"],"setup":{"favicon":"f","port":{"http":7,"https":8}}}')
        cases = [
            ([], 0, dict(DEFAULTS)), (['-c', good], 0, want), (['--config', good], 0, want), (['--config=' + good], 0, want), (['-c' + good], 0, want),
            (['-c', p(d, 'missing')], 1, None), (['-c', d], 1, None), (['-c', '/dev/null'], 1, None), (['-c', ''], 1, None), (['-c'], 1, None), (['-h'], 0, None), (['--help'], 0, None),
            (['-x'], 1, None), (['-c', good, '-h'], 0, None), (['-c', good, '-x'], 1, None), (['-c', good, '-c', p(d, 'missing')], 1, None), (['-c', p(d, 'other.json'), '-c', good], 0, want), (['-c', p(d, 'x' * 300)], 1, None),
            (['-c', '/proc/self/status'], 1, None), (['-c', good + '/'], 1, None),
        ]
        for args, rc, fields in cases:
            what = lambda: 'arguments %r' % (args,)
            r, got = prog.run(args, what)
            ctx.check(r == rc, 'config:status', lambda: 'exit status %d instead of %d: %s' % (r, rc, what()))
            ctx.check((got is None) == (fields is None), 'config:started', lambda: ('started: ' if got else 'did not start: ') + what())
            if fields:
                compare(ctx, got, fields, set(), what)
            ctx.case(hash(tuple(args)), nontrivial=True, sample=what())
        # without a directory for the log
        shutil.rmtree(p(d, 'log'))
        r, got = prog.run(['-c', good], lambda: 'no log directory')
        ctx.check(r == 1 and got is None, 'config:status', lambda: 'exit status %d without a directory for the log' % r)
        ctx.case(nontrivial=True)


LEVELS = ['FATAL', 'ERROR', 'WARN', 'INFO', 'DEBUG', 'TRACE']


def obey(ctx, variant, n):
    """A server does what it was told"""
    rng = ctx.rng
    for _ in range(n):
        w, F, M, U, L = rng.randrange(1, 10), rng.choice([128, 200, 1000, 4096]), rng.randrange(1, 12), rng.randrange(1, 200), rng.randrange(0, 6)
        tls = rng.random() < 0.5
        B_ = rng.choice([1, 100, 4096, 32768])
        conf = {'hosts': ['localhost', 'example.org'][:rng.choice([0, 1, 2])], 'origins': rng.choice([[], ['http://a.b']]),
                'setup': {'pool': {'workers': w}, 'log_level': L, 'size': {'frame': F, 'fragmented': M, 'uri': U, 'buffer': B_, 'thread': rng.choice([1, 65536, 131072, 2097152])}}}
        with ctx.server(variant, conf, tls=tls) as s:
            desc = lambda: 'configuration %r, tls %s' % (conf, tls)
            threads = s.threads()
            if variant == 'rel':
                end = time.monotonic() + 10
                want = 2 + (1 + w) * (2 if tls else 1)
                while s.threads() != want and time.monotonic() < end:
                    time.sleep(0.02)
                ctx.check(s.threads() == want, 'obey:workers', lambda: '%d threads instead of %d: %s' % (s.threads(), want, desc()))
            ctx.check(tls or not s.listening(s.https), 'obey:port', lambda: 'listens on the secure port without TLS: ' + desc())
            for secure in ((False, True) if tls else (False,)):
                port = s.https if secure else s.http
                org = conf['origins'][0] if conf['origins'] else None

                def connect(path='/', **kw):
                    c = ws.Client(port, tls=secure or None)
                    kw.setdefault('host', 'localhost')
                    kw.setdefault('origin', org)
                    return c, c.handshake(path=path, expect=None, **kw)
                for k in (max(1, U - 1), U, U + 1, U + 50):
                    c, r = connect('/' + 'p' * (k - 1))
                    ctx.check((r.status == 414) == (k > U), 'obey:uri', lambda: 'a path of %d bytes is answered with %d: %s' % (k, r.status, desc()))
                    c.close()
                    ctx.case((variant, 'uri', U, k - U, secure))
                if conf['hosts']:
                    for h in ('localhost', 'example.org', 'other', 'localhost:%d' % port, 'localhost:%d' % (port + 1)):
                        c, r = connect(host=h)
                        ok = h.split(':')[0] in conf['hosts'] and (':' not in h or h == 'localhost:%d' % port)
                        ctx.check((r.status == 101) == ok, 'obey:hosts', lambda: 'host %s is answered with %d: %s' % (h, r.status, desc()))
                        c.close()
                        ctx.case((variant, 'host', h.rstrip('0123456789'), len(conf['hosts']), secure))
                for size in (F, F + 1):
                    c, r = connect()
                    ctx.check(r.status == 101, 'obey:handshake', desc)
                    c.max_frame = F
                    model = Model(F, M)
                    data = b'q' * size
                    converse(ctx, c, ws.frame(ws.BIN, data), model.feed(ws.BIN, data), desc=desc(), key='obey:frame')
                    c.close()
                    ctx.case((variant, 'frame', F, size - F, B_, secure))
                for parts in (M, M + 1):
                    c, r = connect()
                    c.max_frame = F
                    model, wire, expect = Model(F, M), b'', []
                    for i in range(parts):
                        d = b'%d' % i * rng.choice([1, 30])
                        expect += model.feed(ws.BIN if i == 0 else ws.CONT, d, fin=i == parts - 1)
                        wire += ws.frame(ws.BIN if i == 0 else ws.CONT, d, fin=i == parts - 1)
                    converse(ctx, c, wire, expect, desc=desc(), key='obey:fragmented')
                    c.close()
                    ctx.case((variant, 'parts', M, parts - M, B_, secure))
            with open(os.path.join(s.dir, 'log', 'WSServer.log'), errors='replace') as f:
                seen = set(m.group(1) for m in re.finditer(r'^\[\d+\] \S+ \S+ +(FATAL|ERROR|WARN|INFO|DEBUG|TRACE) +\S*/(?!config|str|main)\w+\.c:', f.read(), re.M))
            ctx.check(all(LEVELS.index(x) <= L for x in seen), 'obey:log', lambda: 'level %d but %r: %s' % (L, seen, desc()))
            ctx.check(L < 3 or 'INFO' in seen, 'obey:log', lambda: 'level %d but only %r: %s' % (L, seen, desc()))
            ctx.case((variant, 'log', L))


TAME = {('size', 'payload'): (0, 1, 2**31, 2**32 - 1, -1), ('size', 'header'): (2**31 - 1, 2**31, 2**32 - 1), ('size', 'uri'): (1, 2, 2**31 - 1, 2**32 - 1), ('size', 'buffer'): (1, 2, 3, 10**6, 3 * 10**7),
        ('size', 'thread'): (1, 2, 16384), ('size', 'ringbuffer'): (2, 3, 65536), ('size', 'frame'): (2**31 - 1, 2**31, 2**32 - 1), ('size', 'fragmented'): (1, 2, 2**32 - 1), ('pool', 'workers'): (1, 2, 64),
        ('pool', 'retries'): (0, 1, 2**32 - 1), ('timeouts', 'poll'): (0, 1, 2, 1000, 2**31 - 1, -1), ('timeouts', 'read'): (-1, 1000, 2**31 - 1), ('timeouts', 'write'): (-1, 1000, 2**31 - 1),
        ('timeouts', 'client'): (-1, 2**31 - 1, 2**32), ('timeouts', 'pings'): (0, 1, 2**31 - 1)}
WILD = {('size', 'header'): (0, 1, 3), ('size', 'uri'): (0,), ('size', 'buffer'): (0,), ('size', 'thread'): (0, 2**31 - 1, 2**31, -1), ('size', 'ringbuffer'): (0, 1), ('size', 'frame'): (0, 1, 2),
        ('size', 'fragmented'): (0,), ('pool', 'workers'): (0, -1), ('timeouts', 'client'): (0, 1, 2), ('timeouts', 'read'): (0,), ('timeouts', 'write'): (0,), ('timeouts', 'poll'): (2**31, -2**31, 2**63 - 1)}


def extreme(ctx, variant, table, part):
    """Smallest and largest values"""
    for k, (key, v) in enumerate((key, v) for key, vs in sorted(table.items()) for v in vs):
        if k % 4 != part:
            continue
        desc = '%s.%s = %d' % (key + (v,))
        ctx.log(desc)
        with ctx.server(variant, {'setup': {key[0]: {key[1]: v}}}, start=False) as s:
            try:
                s.start()
            except S.StartError as e:
                reps = s.reports()
                ctx.check(not reps, 'extreme:report', lambda: desc + ': ' + reps[0].text[:4000])
                ctx.check(table is WILD, 'extreme:start', lambda: desc + ': ' + str(e))
                ctx.check('exit status 1' in str(e), 'extreme:start', lambda: desc + ': ' + str(e))
                ctx.count('refused')
                s.proc = None
                ctx.case((desc, variant))
                continue
            def talk():
                c = ws.Client(s.http, timeout=20 if table is TAME else 1.5)
                c.handshake(host='localhost')
                for size in (0, 33, 125, 300, 70000):
                    d = b'%d' % (size % 10) * size
                    c.send(ws.frame(ws.BIN, d))
                    ctx.check(c.read_message() == (ws.BIN, d), 'extreme:echo', desc)
                c.goodbye()
            if table is TAME:
                talk()
                ctx.count('served')
            else:
                for _ in range(3):
                    try:
                        talk()
                        ctx.count('served')
                    except (ws.Closed, ws.Timeout, ws.ProtocolError, OSError):
                        ctx.count('not_served')
                st = s.stop(40)
                reps = s.reports()
                ctx.check(not reps, 'extreme:report', lambda: desc + ': ' + reps[0].text[:4000])
                ctx.check(st in (0, 1), 'extreme:exit', lambda: '%s: exit status %s, %s' % (desc, st, getattr(s, 'stuck', '')))
                s.proc = None
            ctx.case((desc, variant), sample=desc if k < 3 else None)


def own_ports(s, tries=1500):
    """The ports the process listens on, once they are as many as it should be; those drawn by the kernel as well."""
    need = 2 if s.tls else 1
    found = []
    for _ in range(tries):
        if s.proc.poll() is not None:
            break
        with open('/proc/net/tcp6') as f:
            socks = {'socket:[%s]' % p[9]: int(p[1].rsplit(':', 1)[1], 16) for p in (l.split() for l in f) if p[3] == '0A'}
        found = []
        for n in os.listdir('/proc/%d/fd' % s.pid):
            try:
                found += [socks[x] for x in [os.readlink('/proc/%d/fd/%s' % (s.pid, n))] if x in socks]
            except OSError:
                pass
        if len(found) >= need:
            break
        time.sleep(0.02)
    return found


def entries(rng, plain):
    """A list as somebody may write it: empty, with empty strings, with one or very many entries"""
    k = rng.randrange(9)
    if k == 0:
        return ['']
    if k == 1:
        return [''] * rng.randrange(2, 5)
    if k == 2:
        x = ['', plain]
        rng.shuffle(x)
        return x
    if k == 3:
        return [plain] + ['%s%d' % (plain, i) for i in range(rng.choice([1, 30, 400]))]
    if k == 4:
        return [plain, 'x' * rng.choice([255, 1000, 5000])]
    if k == 5:
        return [plain]
    return []


def mixed(ctx, variant, n):
    """Several unusual, but valid, values at once: the server starts, listens where it should, admits
    whom it should and ends."""
    rng = ctx.rng
    has_tls = variant in ('rel', 'asan', 'poll')
    for _ in range(n):
        tls = has_tls and rng.random() < 0.4
        conf = {'hosts': entries(rng, 'localhost'), 'paths': entries(rng, 'chat'), 'queries': entries(rng, 'k=v'), 'origins': entries(rng, 'http://o'), 'setup': {}}
        for key in rng.sample(sorted(TAME), rng.randrange(0, 4)):
            if key != ('size', 'uri'):
                # expressions are not matched on 16 kilobytes of stack
                conf['setup'].setdefault(key[0], {})[key[1]] = rng.choice(TAME[key] if key != ('size', 'thread') else (1, 262144))
        with ctx.server(variant, conf, start=False, tls=tls) as s:
            drawn = rng.choice([None, None, 0, 1 if tls else 0])
            for attempt in range(4):
                ports = S.free_ports(2)
                if drawn is not None:
                    ports[drawn] = 0        # any port
                s.conf['setup']['port'] = {'http': ports[0], 'https': ports[1]}
                cfg = s.write_config()
                s.stderr = open(os.path.join(s.dir, 'stderr'), 'ab')
                s.proc = subprocess.Popen([os.path.join(s.bdir, 'WSServer'), '-c', cfg], cwd=s.dir, stdin=subprocess.DEVNULL, stdout=s.stderr, stderr=s.stderr, env=s.environment())
                found = own_ports(s)
                if s.proc.poll() is None or 'already in use' not in s.tail_log():
                    break
            what = lambda: '%s: %s' % (variant, json.dumps({k: conf[k] if k == 'setup' else [x[:20] for x in conf[k][:4]] for k in conf})[:1500] + ' ports %r' % s.conf['setup']['port'])
            reps = s.reports()
            ctx.check(not reps, 'mixed:report', lambda: what() + ': ' + reps[0].text[:4000])
            ctx.check(s.proc.poll() is None, 'mixed:start', lambda: 'exit status %s: %s\n%s' % (s.proc.returncode, what(), s.tail_log()[-800:]))
            ctx.check(len(found) == (2 if tls else 1), 'mixed:ports', lambda: 'listens on %r: %s' % (found, what()))
            asked = [p for p in (ports if tls else ports[:1]) if p]
            ctx.check(set(asked) <= set(found), 'mixed:ports', lambda: 'listens on %r: %s' % (found, what()))
            if tls:
                secure = ports[1] or [p for p in found if p != ports[0]][0]
                plain = ports[0] or [p for p in found if p != secure][0]
            else:
                plain, secure = found[0], None
            host = next((h for h in conf['hosts'] if h), 'localhost' if not conf['hosts'] else None)
            origin = next((o for o in conf['origins'] if o), None if not conf['origins'] else '')
            limited = bool(conf['hosts'] or conf['paths'] or conf['queries'])
            for port, t in ((plain, None), (secure, '1.3')):
                if port is None:
                    continue
                for path, ok in (('/', True), ('/chat', not limited or 'chat' in conf['paths']), ('/?k=v', not limited or 'k=v' in conf['queries']),
                                 ('/zz', not limited), ('/?z', not limited)):
                    c = ws.Client(port, tls=t, timeout=30)
                    kw = {} if host is None else {'host': host}
                    if origin is not None:
                        kw['origin'] = origin
                    r = c.handshake(path=path, expect=None, **kw)
                    if host is None or origin == '':
                        ctx.check(r.status in (101, 400, 403, 404), 'mixed:status', lambda: '%s is answered with %d: %s' % (path, r.status, what()))
                    else:
                        ctx.check(r.status == (101 if ok else 404), 'mixed:status', lambda: '%s is answered with %d: %s' % (path, r.status, what()))
                    if r.status == 101:
                        c.max_frame = None
                        for size in (0, 5, 300):
                            d = b'%d' % (size % 10) * size
                            c.send(ws.frame(ws.BIN, d))
                            ctx.check(c.read_message() == (ws.BIN, d), 'mixed:echo', what)
                    c.close()
                    ctx.case((variant, path, ok, tuple(min(len(conf[k]), 3) + 10 * ('' in conf[k]) for k in ('hosts', 'paths', 'queries', 'origins')), bool(t), drawn), sample=what() if ctx.evaluations % 200 == 0 else None)
            st = s.stop(40)
            reps = s.reports()
            ctx.check(not reps, 'mixed:report', lambda: what() + ': ' + reps[0].text[:4000])
            ctx.check(st == 0, 'mixed:exit', lambda: '%s: exit status %s, %s' % (what(), st, getattr(s, 'stuck', '')))
            s.proc = None
            ctx.count('mixed_served')
            if drawn is not None:
                ctx.count('any_port')


def unusable(ctx, variant, part):
    """Files that are missing or no such files, ports in use"""
    rng = ctx.rng
    R = S.RES
    junk = [R + '/favicon.ico', '/nope', '/', '', '/dev/null']
    cases = []
    for k in ('key', 'cert', 'ca_file'):
        for f in junk:
            cases.append(('%s %s' % (k, f), {'setup': {'ssl': {k: f}}}, None, True, (1,) if f != '/' or k != 'ca_file' else (0, 1)))
    cases.append(('certificate of another key', {'setup': {'ssl': {'cert': R + '/rootCA.crt'}}}, None, True, (1,)))
    for f in junk:
        cases.append(('dhparam ' + f, {'setup': {'ssl': {'dhparam': f}}}, None, True, (0, 1)))
    cases.append(('ciphers', {'setup': {'ssl': {'cipher_list': 'nope', 'cipher_suites': 'nope'}}}, None, True, (0, 1)))
    cases += [('http port in use', {}, 0, True, (1,)), ('https port in use', {}, 1, True, (1,)), ('port in use', {}, 0, False, (1,))]
    odd = [{'file': '/nope.so', 'config': ''}, {'config': 'x'}, {'file': ''}, {'file': R + '/favicon.ico'}, {'file': 'libm.so.6'}, {'file': '/'}, {}, {'file': 'x' * 5000}]
    cases.append(('no such plugins', {'setup': {'subprotocols': odd, 'extensions': odd}}, None, False, (0,)))
    cases.append(('plugins without the echo protocol', {'setup': {'subprotocols': ['broadcast'] + odd[:3], 'extensions': odd}}, None, False, (0,)))
    for k, (name, conf, busy, tls, codes) in enumerate(cases):
        if k % 2 != part:
            continue
        with ctx.server(variant, conf, start=False, tls=tls) as s:
            sock = None
            if busy is not None:
                sock = socket.socket(socket.AF_INET6)
                sock.bind(('::', 0))
                sock.listen()
                s.fixed_ports = S.free_ports(2)
                s.fixed_ports[busy] = sock.getsockname()[1]
                s.listening = lambda p: False        # the port of the other one
            s.wait = 4
            up = True
            try:
                s.start()
            except S.StartError as e:
                up = False
                text = str(e)
            reps = s.reports()
            ctx.check(not reps, 'unusable:report', lambda: name + ': ' + reps[0].text[:4000])
            if not up:
                ctx.check(1 in codes and 'exit status 1' in text, 'unusable:exit', lambda: '%s: %s' % (name, text))
                ctx.count('refused')
                s.proc = None
            else:
                # it may fail a little later than it listens
                try:
                    rc = s.proc.wait(0.5)
                except subprocess.TimeoutExpired:
                    rc = None
                    try:
                        c = ws.Client(s.http, timeout=5)
                        c.handshake(host='localhost', expect=None)
                    except (ws.Closed, ws.Timeout, OSError):
                        pass
                    try:
                        rc = s.proc.wait(3) if 0 not in codes else None
                    except subprocess.TimeoutExpired:
                        raise Violation('unusable:started', name)
                if rc is None:
                    rc = s.stop(30)
                reps = s.reports()
                ctx.check(not reps, 'unusable:report', lambda: name + ': ' + reps[0].text[:4000])
                ctx.check(rc in codes, 'unusable:exit', lambda: '%s: exit status %s %s' % (name, rc, getattr(s, 'stuck', '')))
                s.proc = None
                ctx.count('ran' if rc == 0 else 'refused')
            if sock:
                sock.close()
            ctx.case((name, variant), sample=name if k < 3 else None)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    for i in range(8 if deep else 2):
        out.append(Scenario('faithful-asan-%d' % i, faithful, variant='asan', n=2500 if deep else 600, timeout=800))
        out.append(Scenario('faithful-rel-%d' % i, faithful, variant='rel', n=10000 if deep else 2500, timeout=800))
        out.append(Scenario('broken-asan-%d' % i, broken, variant='asan', n=1000 if deep else 200, timeout=800))
        out.append(Scenario('broken-rel-%d' % i, broken, variant='rel', n=4000 if deep else 900, timeout=800))
    for i, v in enumerate(('rel', 'asan', 'poll', 'asan2', 'rel', 'asan')):
        for k in range(6 if deep else 1):
            out.append(Scenario('mixed-%d-%d' % (i, k), mixed, variant=v, n=40 if deep else 14, timeout=400))
    for i in range(4):
        out.append(Scenario('tame-poll-%d' % i, extreme, variant='poll', table=TAME, part=i, timeout=400))
        out.append(Scenario('wild-poll-%d' % i, extreme, variant='poll', table=WILD, part=i, timeout=400))
    for v in ('rel', 'asan'):
        for i in range(6 if deep else 1):
            out.append(Scenario('obey-%s-%d' % (v, i), obey, variant=v, n=6, timeout=400))
        for i in range(4):
            out.append(Scenario('tame-%s-%d' % (v, i), extreme, variant=v, table=TAME, part=i, timeout=400))
            out.append(Scenario('wild-%s-%d' % (v, i), extreme, variant=v, table=WILD, part=i, timeout=400))
        for i in range(2):
            out.append(Scenario('unusable-%s-%d' % (v, i), unusable, variant=v, part=i, timeout=400))
        out.append(Scenario('command-line-' + v, command_line, variant=v))
    return out

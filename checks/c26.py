"""C26: the favicon is served byte for byte with correct metadata."""
import calendar
import hashlib
import os
import random
import tempfile
import shutil
import threading
import time

from vlib.check import Scenario, Violation, short
from vlib.ws import TEXT, Client, Closed, frame, request

PROPERTY = 'C26'
LEVEL = 'exploration'
TECHNIQUE = ('conformance monitoring of the response bytes against the file: body, length, SHA-1 entity tag, dates and end of stream, under replacement of the '
             'file, slow readers, concurrent requests, injected short writes and AddressSanitizer')
NOTE = 'Sizes around every power of ten and of two, powers of the block and record sizes; contents are random bytes. As root no file is unreadable, so directories and dangling links stand in.'
VARIANTS = ['rel', 'poll', 'asan', 'relc']
RULE = 'a case is one response; distinct by the size of the file, the transport and the form of the request. Every byte of the response is compared.'
ASSUMPTIONS = ['an empty file counts as no favicon', 'a file is replaced by renaming another over it']

EDGES = sorted(set([0, 1, 2, 3, 55, 56, 57, 63, 64, 65, 119, 120, 121] + [x + d for k in range(1, 7) for x in [10 ** k] for d in (-1, 0, 1)] +
                   [x + d for k in range(7, 18) for x in [1 << k] for d in (-1, 0, 1)]))


def when(v, key):
    try:
        if not v.endswith((' GMT', ' UTC')):
            raise ValueError
        return calendar.timegm(time.strptime(v[:-4], '%a, %d %b %Y %H:%M:%S'))
    except (ValueError, AttributeError):
        raise Violation('favicon:date', '%s is %r' % (key, v))


class Icon:
    def __init__(self, path, rng):
        self.path, self.rng, self.n = path, rng, 0

    def put(self, data):
        self.n += 1
        t = '%s.%d' % (self.path, self.n)
        with open(t, 'wb') as f:
            f.write(data)
        self.when = self.rng.choice([1, 86400 * 365 * 20, 1700000000, int(time.time()) - 5, self.rng.randrange(0, 2000000000)])
        os.utime(t, (self.when, self.when))
        os.rename(t, self.path)
        self.data = data

    def gone(self, how='missing'):
        if os.path.isdir(self.path) and not os.path.islink(self.path):
            os.rmdir(self.path)
        elif os.path.lexists(self.path):
            os.unlink(self.path)
        if how == 'directory':
            os.mkdir(self.path)
        elif how == 'dangling':
            os.symlink(self.path + '.nothing', self.path)


def ask(rng, c, port):
    """Sends one of the forms of a request for the icon."""
    k = rng.randrange(4)
    if k == 0:
        r = request('/favicon.ico', port=port)[0]
    elif k == 1:
        r = b'GET /favicon.ico HTTP/1.1\r\nHost: x\r\n\r\n'
    else:
        r = request('/favicon.ico', port=port, drop=['Upgrade', 'Connection', 'Sec-WebSocket-Key', 'Sec-WebSocket-Version'],
                    extra=[('Accept', 'image/*,*/*;q=0.8'), ('User-Agent', 'x' * rng.randrange(0, 300)), ('If-None-Match', '"x"')][:rng.randrange(0, 4)])[0]
    if rng.random() < 0.2:
        c.send_segments(r, [rng.randrange(1, 20) for _ in range(60)], 0.0005)
    else:
        c.send(r)


def look(ctx, c, contents, mtime=None, slow=False):
    """Reads the response; returns the content it has."""
    if slow:
        time.sleep(ctx.rng.choice([0.05, 0.2]))
    r = c.read_http(30)
    left = c.expect_eof(20)
    if left:
        raise Violation('favicon:surplus', '%d bytes after the response: %r' % (len(left), left[:40]))
    if contents is None:
        if r.status != 404:
            raise Violation('favicon:no-404', '%r' % r)
        return None
    if r.status != 200:
        raise Violation('favicon:status', '%r for a file of %s bytes' % (r, [len(x) for x in contents]))
    if r.body not in contents:
        raise Violation('favicon:body', '%d bytes %r are not the file' % (len(r.body), r.body[:40]))
    want = hashlib.sha1(r.body).hexdigest()
    tags = r.all('etag')
    if len(tags) != 1 or tags[0].strip('"').lower() != want:
        raise Violation('favicon:etag', 'Etag %s, SHA-1 of the content %s, %d bytes' % (tags, want, len(r.body)))
    if r.all('content-length') != [str(len(r.body))]:
        raise Violation('favicon:length', '%s' % r.all('content-length'))
    if not (r.get('content-type') or '').startswith('image/'):
        raise Violation('favicon:type', '%s' % r.get('content-type'))
    if abs(when(r.get('date'), 'Date') - time.time()) > 60:
        raise Violation('favicon:date', 'Date is %s' % r.get('date'))
    if mtime is not None and when(r.get('last-modified'), 'Last-Modified') != mtime:
        raise Violation('favicon:modified', 'Last-Modified is %s, the file is of %s' % (r.get('last-modified'), time.ctime(mtime)))
    return r.body


def connect(rng, s, tls, **kw):
    t = rng.choice([None, '1.2', '1.3']) if tls else None
    return Client(s.https if t else s.http, tls=t, timeout=30, **kw), t


def echoes(s, tls=None):
    with Client(s.https if tls else s.http, tls=tls) as c:
        c.handshake()
        c.send(frame(TEXT, b'still here'))
        if c.read_message()[1] != b'still here':
            raise Violation('favicon:service', 'echo is broken')
        c.goodbye()


def sizes(ctx, variant, which, tls, chaos=None):
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='fav-')
    icon = Icon(d + '/icon.ico', rng)
    try:
        icon.put(b'x')
        with ctx.server(variant, {'setup': {'favicon': icon.path}}, tls=tls, chaos=chaos) as s:
            for n in which:
                data = rng.randbytes(n) if rng.random() < 0.8 else bytes([rng.choice([0, 10, 13, 255])]) * n
                icon.put(data)
                for k in range(2):
                    c, t = connect(rng, s, tls, rcvbuf=rng.choice([None, None, 4096]))
                    ask(rng, c, c.port)
                    look(ctx, c, [data] if n else None, icon.when, slow=n > 100000 and k == 0)
                    c.close()
                    ctx.case((n, t), nontrivial=n > 0, sample='%d bytes' % n)
            echoes(s, '1.3' if tls else None)
    finally:
        shutil.rmtree(d)


def absent(ctx, variant, start, tls):
    """No icon at the start, then one that comes and goes."""
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='fav-')
    icon = Icon(d + '/icon.ico', rng)
    cf = {'setup': {'favicon': icon.path}}
    if start == 'unset':
        cf = {}
    elif start in ('missing', 'directory', 'dangling'):
        icon.gone(start)
    try:
        with ctx.server(variant, cf, tls=tls) as s:
            for i in range(12):
                there = start != 'unset' and rng.random() < 0.5
                if there:
                    icon.gone()
                    icon.put(rng.randbytes(rng.choice([1, 10, 777, 100000])))
                elif start != 'unset' and i:
                    icon.gone(rng.choice(['missing', 'directory', 'dangling']))
                    if rng.random() < 0.3:
                        icon.gone()
                        icon.put(b'')
                c, t = connect(rng, s, tls)
                ask(rng, c, c.port)
                look(ctx, c, [icon.data] if there else None, icon.when if there else None)
                c.close()
                ctx.case((start, there, t))
                # other paths that look like it are none
                p = rng.choice(['/favicon.icox', '/favicon.ic', '/favicon.ico/', '/x/favicon.ico', '/favicon.ico?a', '/Favicon.ico'])
                c, t = connect(rng, s, tls)
                c.handshake(path=p)
                c.send(frame(TEXT, b'x'))
                ctx.check(c.read_message() == (TEXT, b'x'), 'favicon:path', p)
                c.close()
            echoes(s)
    finally:
        icon.gone()
        shutil.rmtree(d)


def crowd(ctx, variant, seconds, tls, chaos=None):
    """Many readers while the file is replaced: each gets one of the contents."""
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='fav-')
    icon = Icon(d + '/icon.ico', rng)
    contents = [rng.randbytes(n) for n in (1, 100, 999, 5000, 65536, 65537, 300000)]
    stop = time.monotonic() + seconds
    err = []

    def run(seed):
        r = random.Random(seed)
        try:
            while time.monotonic() < stop and not err:
                c, t = connect(r, s, tls, rcvbuf=r.choice([None, None, 4096]))
                ask(r, c, c.port)
                if r.random() < 0.1:
                    c.close(abort=r.random() < 0.5)
                    continue
                b = look(ctx, c, contents)
                c.close()
                ctx.case(('crowd', len(b), t))
        except Exception as e:
            err.append(e)

    try:
        icon.put(contents[0])
        with ctx.server(variant, {'setup': {'favicon': icon.path, 'pool': {'workers': 8}}}, tls=tls, chaos=chaos) as s:
            ts = [threading.Thread(target=run, args=(rng.random(),)) for _ in range(12)]
            for t in ts:
                t.start()
            while time.monotonic() < stop and not err:
                icon.put(rng.choice(contents))
                ctx.count('replaced')
                time.sleep(rng.choice([0.001, 0.01, 0.1]))
            for t in ts:
                t.join()
            if err:
                raise err[0]
            echoes(s)
    finally:
        shutil.rmtree(d)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    small = [n for n in EDGES if n <= 20000]
    large = [n for n in EDGES if n > 20000]
    more = [rng.randrange(1, 3000) for _ in range(400 if deep else 40)]
    out.append(Scenario('sizes-rel', sizes, variant='rel', which=small + more, tls=False))
    out.append(Scenario('sizes-tls', sizes, variant='rel', which=small + more[:30], tls=True, weight=2))
    out.append(Scenario('sizes-large', sizes, variant='rel', which=large + [3000001, 10000000], tls=True, weight=2, timeout=120))
    out.append(Scenario('sizes-poll', sizes, variant='poll', which=rng.sample(EDGES, 40), tls=True))
    out.append(Scenario('sizes-asan', sizes, variant='asan', which=rng.sample(EDGES, 50 if deep else 25), tls=True, weight=2, timeout=150))
    out.append(Scenario('sizes-faults', sizes, variant='relc', which=rng.sample(EDGES, 40), tls=True, chaos=(50, 300, 100), weight=2, timeout=120))
    for st in ('unset', 'missing', 'directory', 'dangling'):
        out.append(Scenario('absent-' + st, absent, variant='asan' if st in ('unset', 'directory') else 'rel', start=st, tls=st == 'missing'))
    for i in range(6 if deep else 2):
        out.append(Scenario('crowd-%d' % i, crowd, variant=['rel', 'relc', 'asan'][i % 3], seconds=30 if deep else 5, tls=i % 2 == 0,
                            chaos=(50, 500, 30) if i % 3 == 1 else None, weight=2, timeout=120))
    if deep:
        for i in range(8):
            out.append(Scenario('sizes-more-%d' % i, sizes, variant=rng.choice(['rel', 'relc']), which=[rng.randrange(1, 400000) for _ in range(150)], tls=bool(i % 2),
                                chaos=None, weight=2, timeout=200))
    return out

"""C06: malformed or oversized requests get one well-formed error response."""
import time

from vlib import req as R
from vlib.check import Scenario, Violation, short
from vlib.work import segments
from vlib.ws import Client, Closed, ProtocolError, Timeout, frame

PROPERTY = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'fault-class and mutation workloads on the real server with an HTTP response oracle, under AddressSanitizer for a part, each request whole and in pieces (metamorphic)'
NOTE = ('Fault classes with a known status are generated exactly at and beyond every limit; beyond them requests are mutated at random and must get one valid '
        'response, the same however they are cut.')
VARIANTS = ['rel', 'poll', 'asan', 'ubsan']
RULE = ('a case is one request: either of a fault class with its expected status, or a mutated one where any documented status is right; sent whole and '
        'in two random segmentations. Distinct by class and parameters, or by the bytes.')
ASSUMPTIONS = ['a request ends at its first empty line: bytes after it are not part of what is compared between segmentations',
               'a request with several faults may be answered for any of them']

FATAL = {400, 403, 404, 405, 413, 414, 431, 501, 505, 200}
OPEN = {101, 426}


def answer(ctx, port, data, sizes, pause, desc, wait=8.0, tls=None):
    """Sends a request, returns the only response."""
    c = Client(port, tls=tls)
    try:
        c.send_segments(data, sizes, pause)
    except (ConnectionError, BrokenPipeError):
        pass       # answered before all of it was sent
    try:
        r = c.read_http(wait)
    except Closed as e:
        if e.reset and len(data) > 400:
            return None, c       # the reset overtook the answer
        raise Violation('request:no-response', 'closed without a response, %r: %s' % (e, desc))
    if r.status not in FATAL | OPEN:
        raise Violation('request:status-%d' % r.status, desc)
    if r.status != 101:
        if r.all('content-length') != [str(len(r.body))]:
            raise Violation('request:length', 'Content-Length %r, body of %d: %s' % (r.all('content-length'), len(r.body), desc))
        if r.status != 200 and not r.get('content-type'):
            raise Violation('request:type', 'no Content-Type: %s' % desc)
        if b'\0' in r.body and r.status != 200:
            raise Violation('request:body', 'NUL in the body: %s' % desc)
    if r.status in FATAL:
        try:
            rest = c.expect_eof(5)
        except Timeout:
            raise Violation('request:open', 'not closed after %d: %s' % (r.status, desc))
        if rest:
            raise Violation('request:trailing', 'more after the response %d: %r %s' % (r.status, rest[:60], desc))
        c.close()
    else:
        if c.pos != len(c.buf):
            raise Violation('request:trailing', 'more after the response %d: %r %s' % (r.status, bytes(c.buf[c.pos:c.pos + 60]), desc))
    return r, c


SIZES = dict(header=600, uri=200, payload=300)


def good(rng, port, target='/', version='HTTP/1.1', method='GET', more=(), drop=()):
    hs = [h for h in R.base(rng, 'h:%d' % port) if h[0] not in drop] + list(more)
    return R.render(rng, method, target, version, hs, fancy=False)


def fit(rng, port, total):
    """A valid request whose header lines add up to total bytes."""
    hs = R.base(rng, 'h:%d' % port)
    hs[2] = ('Connection', 'Upgrade')
    n = sum(len(k) + 2 + len(v) for k, v in hs)
    left = total - n
    while left > 0:
        k = min(left, rng.randrange(4, 120))
        if left - k in (1, 2, 3):
            k = left if left < 200 else k - 4
        hs.append(('X', 'y' * (k - 3)))
        left -= k
    assert sum(len(k) + 2 + len(v) for k, v in hs) == total
    return R.render(rng, 'GET', '/', 'HTTP/1.1', hs, fancy=False)


def fault(rng, port, big):
    """(class, bytes, statuses)"""
    k = rng.randrange(20)
    sz = SIZES
    if k == 0:
        m = rng.choice(['POST', 'HEAD', 'PUT', 'get', 'Get', 'GETT', 'GE', 'G', 'OPTIONS', 'TRACE', 'CONNECT', 'PRI', 'xGET', 'GET\t', '\x16\x03', 'X' * 100])
        return ('method', m), good(rng, port, method=m), {405}
    if k == 1:
        v = rng.choice(['HTTP/1.0', 'HTTP/2.0', 'HTTP/1.10', 'HTTP/1.', 'http/1.1', 'HTTP/1.1x', 'HTTP', 'HTTP/11', 'x', 'HTTP/0.9', 'HTTP/3', '/1.1', 'Y' * 150])
        return ('version', v), good(rng, port, version=v), {505}
    if k == 2:
        line = rng.choice([b'GET', b'GET ', b'GET /', b'GET / ', b'GET    ', b'GET /x', b'GET  /'])
        return ('line', line), line + b'\r\n' + good(rng, port).split(b'\r\n', 1)[1], {400}
    if k == 3:
        t = rng.choice(['x', 'chat', '*', 'ftp://a/b', 'ws:/a', 'ws//', '?a', '#', '\\', 'h', 'ws:', 'wsss://x/', 'http:/x', '.', '%2f'])
        return ('target', t), good(rng, port, target=t), {400}
    if k == 4:
        n = sz['uri'] + rng.choice([-2, -1, 0, 1, 2, 3, 50, 90])
        return ('uri', n), good(rng, port, target='/' + 'a' * (n - 1)), {101} if n <= sz['uri'] else {414}
    if k == 5:
        n = sz['header'] + rng.choice([-2, -1, 0, 1, 2, 3, 50, 90])
        return ('header', n), fit(rng, port, n), {101} if n <= sz['header'] else {431}
    if k == 6:
        h = rng.choice([('Sec-WebSocket-Version', '13'), ('Sec-WebSocket-Key', 'x3JJHMbDL1EzLkh9GBhXDw=='), ('sec-websocket-key', 'AAAA'), ('SEC-WEBSOCKET-VERSION', '8')])
        return ('twice', h), good(rng, port, more=[h]), {400}
    if k == 7:
        d = good(rng, port)
        lines = d.split(b'\r\n')
        i = rng.randrange(0, len(lines) - 3)
        sep = rng.choice([b'\rx', b'\r ', b'\rX: y'])
        d = b'\r\n'.join(lines[:i + 1]) + sep + b'\r\n'.join(lines[i + 1:])
        return ('bare', i, sep), d, {400}
    if k == 8:
        n = sz['header'] + sz['uri'] + sz['payload'] + rng.choice([1, 2, 50, 2000] + ([100000] if big else []))
        d = good(rng, port)[:-2]
        return ('total', n), d + b'X: ' + b'z' * (n - len(d) - 3), {413}
    if k == 9:
        n = sz['payload'] + rng.choice([1, 5])
        d = good(rng, port)
        return ('body', n), d + b'p' * n, {413}
    if k == 10:
        drop = rng.choice(['Upgrade', 'Connection', 'Sec-WebSocket-Key'])
        return ('without', drop), good(rng, port, drop=(drop,)), {426}
    if k == 11:
        return ('without', 'version'), good(rng, port, drop=('Sec-WebSocket-Version',)), {501}
    if k == 12:
        name = rng.choice(R.KNOWN[1:6] + R.KNOWN[6:7])
        form = rng.choice([': ', ':', ':\t', ''])
        want = {'Upgrade': {426}, 'Connection': {426}, 'Sec-WebSocket-Version': {501}, 'Sec-WebSocket-Key': {426}, 'Origin': {101}, 'Cookie': {101}}[name]
        d = good(rng, port, drop=(name,))
        return ('empty', name, form), d[:-2] + name.encode() + form.encode() + b'\r\n\r\n', want
    if k == 13:
        x = rng.choice([b'no colon at all', b':', b': value', b'::', b' folded', b'\tfolded: x', b'a b: c', b'\xff\xfe: \xfd', b'=', b'Name :x', b';', b'Sec-WebSocket-Key', b'Host'])
        d = good(rng, port)
        lines = d[:-4].split(b'\r\n')
        lines.insert(rng.randrange(1, len(lines) + 1), x)
        return ('odd', x), b'\r\n'.join(lines) + b'\r\n\r\n', {101, 400, 426}
    if k == 14:
        d = rng.choice([b'\r\n\r\n', b'\r\n' * 3, b'GET\r\n\r\n', b'\n\n\r\n\r\n', b' \r\n\r\n', b'\r\r\r\r\n\r\n', b'x\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'\0\r\n\r\n',
                        b'GET / HTTP/1.1 x\r\n\r\n', b'GET /\0 HTTP/1.1\r\n\r\n'])
        return ('short', d), d, {400, 405, 426}
    if k == 15:
        t = rng.choice(['http://', 'https://', 'HTTP://']) + 'h/x'
        return ('scheme', t), good(rng, port, target=t), {426}
    if k == 16:
        v = rng.choice(['4', '5', '6', '12', '14', 'x', '99999999999999999999', '-1'])
        return ('wsversion', v), good(rng, port, drop=('Sec-WebSocket-Version',), more=[('Sec-WebSocket-Version', v)]), {501}
    if k == 17:
        return ('favicon',), good(rng, port, target='/favicon.ico'), {404}
    if k == 18:
        h = rng.choice([[('Sec-WebSocket-Key1', '1 2'), ('Sec-WebSocket-Key2', '3 4')], [('WebSocket-Protocol', 'x')], [('WebSocket-Protocol', '')], [('Sec-WebSocket-Key1', '')]])
        drop = rng.choice([(), ('Sec-WebSocket-Version',), ('Sec-WebSocket-Key', 'Sec-WebSocket-Version')])
        return ('hixie', str(h), drop), good(rng, port, drop=drop, more=h), {501, 426} if drop else {101}
    return ('valid',), good(rng, port), {101}


def classes(ctx, variant, n, buf, tls):
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': dict(SIZES, buffer=buf)}}, tls=tls) as s:
        for i in range(n):
            port = s.https if tls else s.http
            cls, data, want = fault(rng, port, buf > 1000)
            desc = '%s\n%s' % (cls, short(data.decode('latin1'), 700))
            ctx.log(cls, data, want)
            for turn in range(2):
                sizes, pause = ([len(data)], 0) if turn == 0 or cls[0] == 'body' else segments(rng, data)
                r, c = answer(ctx, port, data, sizes, pause, desc, tls=tls)
                if r is None:
                    ctx.count('lost_in_reset')
                    c.close()
                    continue
                if r.status not in want:
                    raise Violation('request:%s:%d-for-%s' % (cls[0], r.status, '/'.join(map(str, sorted(want)))), 'status %d, expected %s: %s (segments %s)' % (r.status, sorted(want), desc, sizes[:6]))
                ctx.count('status_%d' % r.status)
                if r.status == 101 and rng.random() < 0.2:
                    c.send(frame(2, b'hello'))
                    ctx.check(c.read_event() == (2, b'hello'), 'request:echo', desc)
                elif r.status == 426:
                    # the connection is kept for another try
                    c.send(good(rng, port))
                    ctx.check(c.read_http().status == 101, 'request:retry', 'valid request after 426: %s' % desc)
                    ctx.count('retries')
                c.close()
            ctx.case(cls, sample='%s -> %s' % (cls, sorted(want)))


SNIPS = [b'\r\n', b'\r', b'\n', b'\r\n\r', b'\0', b':', b': ', b' ', b'  ', b',', b';', b'\t', b'HTTP/1.1', b'GET ', b'Host', b'Sec-WebSocket-Key: ', b'Sec-WebSocket-Protocol: ',
         b'Sec-WebSocket-Extensions: permessage-deflate', b'; client_max_window_bits=', b'Upgrade', b'websocket', b'%', b'%s%n', b'\xff', b'\x80', b'"', b'/', b'?', b'&', b'ws://',
         b'Sec-WebSocket-Protocol: ,,,', b'Sec-WebSocket-Version: 13, 8, ,', b'Connection: ,', b'Cookie:', b'WebSocket-Protocol:', b'Sec-WebSocket-Key1: x', b'A' * 300]


def mutate(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 3, 5, 10])):
        k = rng.randrange(8)
        p = rng.randrange(0, len(d) + 1)
        q = min(len(d), p + rng.choice([1, 1, 2, 5, 20]))
        if k == 0:
            d[p:p] = rng.choice(SNIPS)
        elif k == 1:
            del d[p:q]
        elif k == 2 and p < len(d):
            d[p] = rng.randrange(256)
        elif k == 3:
            d[p:p] = d[p:q]
        elif k == 4 and p < len(d):
            d[p] ^= 1 << rng.randrange(8)
        elif k == 5:
            d[p:q] = rng.choice(SNIPS)
        elif k == 6:
            lines = bytes(d).split(b'\r\n')
            rng.shuffle(lines)
            d = bytearray(b'\r\n'.join(lines))
        else:
            i = bytes(d).find(b':', p)
            if i >= 0:
                d[i:i + 1] = rng.choice([b'', b' :', b':  ', b': ,', b'::', b':\r\n', b':\0'])
    return bytes(d)


def mutated(ctx, variant, n, buf, deflate, tls):
    rng = ctx.rng
    conf = {'setup': {'size': dict(SIZES, buffer=buf)}}
    if rng.random() < 0.5:
        conf['paths'] = ['chat', 'x+']
        conf['hosts'] = ['h']
    with ctx.server(variant, conf, tls=tls, deflate='' if deflate else None) as s:
        for i in range(n):
            port = s.https if tls else s.http
            r = rng.random()
            if r < 0.08:
                data = rng.randbytes(rng.randrange(0, 400))
            else:
                hs = R.base(rng, 'h') + R.extras(rng)[:4]
                if rng.random() < 0.3:
                    hs.append(('Sec-WebSocket-Protocol', rng.choice(['echo', 'broadcast, echo', 'a,b,c', ',', 'echo ,'])))
                if rng.random() < 0.3:
                    hs.append(('Sec-WebSocket-Extensions', rng.choice(['permessage-deflate', 'permessage-deflate; client_max_window_bits, x', ';', ',', 'permessage-deflate;;=;'])))
                data = R.render(rng, 'GET', R.path(rng)[:150], 'HTTP/1.1', hs)
                data = mutate(rng, data)
            e = data.find(b'\r\n\r\n')
            data = data[:e + 4] if e >= 0 else data.rstrip(b'\r\n') + b'\r\n\r\n'
            if len(data) > sum(SIZES.values()):
                continue
            seen = {}
            ctx.log(data)
            for turn in range(3):
                sizes, pause = ([len(data)], 0) if turn == 0 else segments(rng, data, rng.choice(['random', 'head', 'tail']))
                res, c = answer(ctx, port, data, sizes, pause, short(data, 900), tls=tls)
                c.close()
                if res is None:
                    ctx.count('lost_in_reset')
                    continue
                seen[res.status] = sizes
                ctx.count('status_%d' % res.status)
            if len(seen) > 1:
                raise Violation('request:depends-on-segments', '%s: %s' % (sorted((k, v[:6]) for k, v in seen.items()), short(data, 900)))
            ctx.case(data, sample='%s -> %s' % (short(data, 200), sorted(seen)))


def waiting(ctx, variant, n):
    """An unfinished request is waited for, then answered."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': dict(SIZES, buffer=rng.choice([50, 4096]))}}) as s:
        for _ in range(n):
            cs = []
            for _ in range(25):
                data = mutate(rng, good(rng, s.http)) if rng.random() < 0.7 else good(rng, s.http)
                e = data.find(b'\r\n\r\n')
                data = data[:e + 4] if e >= 0 else data.rstrip(b'\r\n') + b'\r\n\r\n'
                if not 5 < len(data) < sum(SIZES.values()):
                    continue
                k = rng.randrange(0, len(data) - 3)
                c = Client(s.http)
                c.send(data[:k])
                cs.append((c, data, k))
            time.sleep(0.15)
            for c, data, k in cs:
                if not c.quiet(0.002):
                    raise Violation('request:early', 'answered after %d of %d bytes: %r, %r' % (k, len(data), data, bytes(c.buf[:80])))
            rng.shuffle(cs)
            for c, data, k in cs:
                if rng.random() < 0.15:
                    c.close(rng.random() < 0.5)
                    continue
                c.send(data[k:])
                r = c.read_http()
                ctx.check(r.status in FATAL | OPEN, 'request:status-%d' % r.status, short(data, 500))
                ctx.case(('waiting', data, k))
                c.close()
                ctx.count('waited')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 3000 if deep else 350
    for v, buf, tls in (('rel', 32768, None), ('poll', 50, None), ('asan', 1000, None), ('rel', 7, None), ('ubsan', 300, '1.3'), ('rel', 4096, '1.2')):
        out.append(Scenario('classes-%s-%d-%s' % (v, buf, tls), classes, variant=v, n=n, buf=buf, tls=tls))
    n = 3500 if deep else 300
    for i, (v, buf, df, tls) in enumerate((('rel', 32768, False, None), ('poll', 64, True, None), ('asan', 32768, True, None), ('asan', 100, False, None), ('ubsan', 32768, True, None),
                                           ('asan', 1000, True, '1.3'))):
        for k in range(2 if deep else 1):
            out.append(Scenario('mutated-%d-%d' % (i, k), mutated, variant=v, n=n, buf=buf, deflate=df, tls=tls))
    for v in ('rel', 'poll'):
        out.append(Scenario('waiting-' + v, waiting, variant=v, n=60 if deep else 8))
    return out

"""C04: a valid opening handshake is answered by the correct 101 response."""
import threading
import time

from vlib import req as R
from vlib.check import Scenario, Violation, short
from vlib.work import segments, text
from vlib.ws import BIN, PING, PONG, TEXT, Client, ProtocolError, accept_key, frame, parse_frame

PROPERTY = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'conformance monitoring at the socket: generated valid upgrade requests in all spellings and segmentations, responses judged by an independent HTTP parser and accept-key computation'
NOTE = ('Requests are sampled, except that a request is cut at each of its bytes in turn. Runs the OpenSSL build, the build without a TLS library '
        '(own SHA-1 and base64) and the secure port.')
VARIANTS = ['rel', 'poll', 'ubsan', 'nossl']
RULE = ('a case is one upgrade request (header order, spelling of names, white space, unknown and similar headers, Connection tokens, key, version, '
        'target) with one segmentation; distinct by these. The whole response is parsed and compared, then a frame is echoed so that a byte too '
        'many or too few would show.')
ASSUMPTIONS = ['white space around header values is any mix of spaces and tabs (RFC 7230 OWS)']


def judge(ctx, r, key, c, desc):
    bad = None
    if r.status != 101 or r.version != 'HTTP/1.1':
        bad = 'status %s %d' % (r.version, r.status)
    elif [x.lower() for x in r.all('upgrade')] != ['websocket']:
        bad = 'Upgrade is %r' % r.all('upgrade')
    elif [x.lower() for x in r.all('connection')] != ['upgrade']:
        bad = 'Connection is %r' % r.all('connection')
    elif r.all('sec-websocket-accept') != [accept_key(key)]:
        bad = 'accept is %r, expected %r' % (r.all('sec-websocket-accept'), accept_key(key))
    elif r.all('content-length') not in ([], ['0']):
        bad = 'Content-Length %r' % r.all('content-length')
    elif r.get('sec-websocket-protocol') is not None:
        bad = 'subprotocol %r was not offered' % r.get('sec-websocket-protocol')
    elif r.get('sec-websocket-extensions') is not None:
        bad = 'extension %r was not offered' % r.get('sec-websocket-extensions')
    if bad:
        raise Violation('handshake:' + bad.split(' ')[0], '%s for %s' % (bad, desc))


def first_frames(ctx, c, key):
    """Nothing but the echo of what is sent now follows the response."""
    if c.pos != len(c.buf):
        raise Violation('handshake:stray', 'bytes after the response: %r' % bytes(c.buf[c.pos:c.pos + 40]))
    m = text(ctx.rng, ctx.rng.choice([0, 1, 5, 130]))
    c.send(frame(PING, b'first') + frame(TEXT, m))
    got = [c.read_event(), c.read_event()]
    if sorted(got) != sorted([(PONG, b'first'), (TEXT, m)]):
        raise Violation('handshake:first', 'after the response: %s' % short(got))
    if c.pos != len(c.buf):
        raise Violation('handshake:stray', 'bytes after the echo: %r' % bytes(c.buf[c.pos:c.pos + 40]))


def build(rng, port, versions=(13,), lines=None):
    v = rng.choice(versions)
    key = R.key(rng)
    hs = R.base(rng, rng.choice(['127.0.0.1:%d' % port, 'localhost', 'example.com', '[::1]:%d' % port, 'a.b']), key, v)
    if rng.random() < 0.4:
        hs.append(('Origin' if v == 13 else 'Sec-WebSocket-Origin', rng.choice(['http://example.com', 'null', 'https://a:1'])))
    if rng.random() < 0.2:
        hs.append(('Cookie', 'a=b; c="d"'))
    hs += R.extras(rng, lines)
    target = R.path(rng)
    if rng.random() < 0.1:
        target = rng.choice(['ws://', 'WS://', 'wss://']) + 'example.com' + target
    return R.render(rng, 'GET', target, 'HTTP/1.1', hs), key, hs, target, v


def requests(ctx, variant, n, tls, buf, lines=None, limit=None):
    rng = ctx.rng
    size = {'buffer': buf}
    if limit:
        size['header'] = limit
    with ctx.server(variant, {'setup': {'size': size}}, tls=tls) as s:
        for i in range(n):
            port = s.https if tls else s.http
            data, key, hs, target, v = build(rng, port, (13, 13, 13, 8, 7), rng.choice(lines) if lines else None)
            c = Client(port, tls=rng.choice(['1.2', '1.3']) if tls else None)
            sizes, pause = segments(rng, data)
            if rng.random() < 0.15:
                # in the middle of the empty line at the end
                sizes, pause = [len(data) - rng.randrange(1, 5), 4], rng.choice([0.001, 0.01])
            desc = '%s %s, %d headers, segments %s' % (target[:40], v, len(hs), sizes[:5])
            ctx.log(data.decode('latin1'), sizes[:8])
            c.send_segments(data, sizes, pause)
            judge(ctx, c.read_http(), key, c, desc + '\n' + short(data.decode('latin1'), 800))
            first_frames(ctx, c, key)
            ctx.case(('request', v, target, tuple(hs), sizes[0]), sample=data.decode('latin1')[:300])
            ctx.count('requests')
            if rng.random() < 0.3:
                ctx.check(c.goodbye() == 1000, 'handshake:goodbye')
            c.close(abort=rng.random() < 0.3)


def every_cut(ctx, variant, tls, buf, step):
    """One request cut in two at each of its bytes, and in three around that."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': {'buffer': buf}}}, tls=tls) as s:
        port = s.https if tls else s.http
        data, key, hs, target, v = build(rng, port)
        while not 200 < len(data) < 700:
            data, key, hs, target, v = build(rng, port)
        for cut in list(range(1, len(data) - 8, step)) + list(range(len(data) - 8, len(data))):
            c = Client(port, tls='1.3' if tls else None)
            c.send(data[:cut])
            time.sleep(0.003)
            b = cut
            if rng.random() < 0.3:
                b = rng.randrange(cut, len(data))
                c.send(data[cut:b])
                time.sleep(0.002)
            if not c.quiet(0.001):
                raise Violation('handshake:early', 'answered after %d of %d bytes: %r' % (b, len(data), bytes(c.buf[:60])))
            c.send(data[b:])
            judge(ctx, c.read_http(), key, c, 'cut at %d of %d' % (cut, len(data)))
            first_frames(ctx, c, key)
            ctx.case(('cut', tls, buf, cut, len(data)), sample='cut at %d' % cut)
            ctx.count('cuts')
            c.close()
        # a byte at a time
        c = Client(port, tls='1.3' if tls else None)
        c.send_segments(data, [1], 0.0007)
        judge(ctx, c.read_http(), key, c, 'byte by byte')
        first_frames(ctx, c, key)
        c.close()
        ctx.case(('bytewise', tls, buf))


def parallel(ctx, variant, n, threads, tls):
    """Many handshakes at the same time: no answer is given to another's key."""
    errs = []
    with ctx.server(variant, {'setup': {'pool': {'workers': 8}}}, tls=tls) as s:
        port = s.https if tls else s.http
        import random
        seeds = [ctx.rng.random() for _ in range(threads)]

        def run(seed):
            try:
                rng = random.Random(seed)
                for i in range(n):
                    data, key, hs, target, v = build(rng, port, (13, 8, 7))
                    c = Client(port, tls='1.3' if tls else None)
                    k = rng.randrange(1, len(data))
                    c.send(data[:k])
                    if rng.random() < 0.5:
                        time.sleep(rng.random() * 0.004)
                    c.send(data[k:])
                    judge(ctx, c.read_http(), key, c, 'parallel')
                    first_frames(ctx, c, key)
                    c.close()
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=run, args=(x,)) for x in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        ctx.case(('parallel', tls, seeds[0]), n=n * threads)
        ctx.count('parallel_handshakes', n * threads)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 2500 if deep else 250
    for v, tls, buf in (('rel', False, 32768), ('poll', False, 100), ('ubsan', False, 1000), ('nossl', False, 32768), ('rel', True, 32768),
                        ('rel', False, 7), ('ubsan', True, 512)):
        out.append(Scenario('requests-%s-%s-%d' % (v, 'tls' if tls else 'plain', buf), requests, variant=v, n=n, tls=tls, buf=buf))
    for v, tls, buf in (('rel', False, 32768), ('poll', False, 64), ('rel', True, 32768)):
        for i in range(4 if deep else 1):
            out.append(Scenario('cuts-%s-%s-%d' % (v, tls, i), every_cut, variant=v, tls=tls, buf=buf, step=1 if deep or not tls else 3))
    # very many header lines, the ones that matter anywhere among them
    many = [20, 40, 63, 64, 65, 90, 100, 127, 128, 130, 200, 257, 300, 600, 1030]
    for v, tls, buf in (('rel', False, 32768), ('poll', True, 100), ('ubsan', False, 32768)):
        out.append(Scenario('many-%s' % v, requests, variant=v, n=400 if deep else 60, tls=tls, buf=buf, lines=many, limit=400000))
    for i in range(4 if deep else 1):
        out.append(Scenario('parallel-%d' % i, parallel, variant='rel', n=100 if deep else 25, threads=16, tls=False, weight=2))
        out.append(Scenario('parallel-tls-%d' % i, parallel, variant='rel', n=60 if deep else 12, threads=12, tls=True, weight=2))
    return out

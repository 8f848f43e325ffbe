"""C27: connections leave nothing behind."""
import os
import random
import socket
import struct
import threading
import time
import zlib

from checks import c06
from checks.c10 import judge
from checks.c14 import parallel
from checks.c24 import Siege
from vlib import hostile
from vlib import req as R
from vlib.check import Scenario, Violation
from vlib.work import blob, negotiated, peer, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

PROPERTY = 'C27'
LEVEL = 'exploration'
TECHNIQUE = ('resource accounting on the real server: an allocator shim counts the blocks and bytes in use (per size class) in shared memory while histories of connections of every kind '
             'are repeated, and after each series the counts and the open descriptors must be where they were; resident memory of the release build over long series; what is in use '
             'when the process ends is compared with a run that served nobody; LeakSanitizer at exit')
NOTE = 'Growth is judged over series of connections, so a leak that needs a history not sampled, or is rarer than one in fifty of its connections, is missed.'
VARIANTS = ['count', 'rel', 'asan', 'asan2']
RULE = ('a case is one connection of a kind of history (distinct by kind, transport and parameters); a series of them is judged by the blocks, bytes and descriptors in use '
        'before and after')
ASSUMPTIONS = ['caches that do not depend on the number of past connections may fill up during the first ones of each kind',
               'TLS clients take session tickets (without them OpenSSL keeps up to 20480 sessions in its cache, for a limited time)']


class Counts:
    def __init__(self, path):
        self.path = path

    def read(self):
        with open(self.path, 'rb') as f:
            d = f.read()
        v = struct.unpack('%dq' % (len(d) // 8), d)
        return v[0], v[1], v[2], v[4:]


class Histories:
    """Connections of one kind each; they end on their own."""
    def __init__(self, ctx, s, rng, tls=False, deflate=False):
        self.ctx, self.s, self.rng, self.tls, self.deflate = ctx, s, rng, tls, deflate
        self.t = None
        self.most = min(s.conf['setup']['size']['frame'], s.conf['setup']['size']['fragmented'])

    def raw(self, port=None):
        k = socket.create_connection(('127.0.0.1', port or (self.s.https if self.t else self.s.http)), 20)
        return k

    def conn(self, **kw):
        return Client(self.s.https if self.t else self.s.http, tls=self.t, timeout=20, **kw)

    def ws(self, proto='echo', ext=None, rcvbuf=None, **kw):
        c = self.conn(rcvbuf=rcvbuf)
        try:
            c.resp = c.handshake(protocols=proto, extensions=ext, timeout=20, **kw)
        except BaseException:
            c.close()
            raise
        return c

    def leave(self, c):
        k = self.rng.randrange(4)
        if k == 0:
            c.goodbye(timeout=20)
        elif k == 1:
            c.close(abort=True)
        elif k == 2:
            try:
                c.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            self.drain(c)
        else:
            c.close()

    def drain(self, c, wait=20):
        try:
            c.expect_eof(wait)
        except (Timeout, OSError):
            pass
        c.close()

    # connections that never get far
    def nothing(self):
        k = self.raw()
        if self.rng.random() < 0.5:
            k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        k.close()

    def part(self):
        c = self.conn()
        d = R.render(self.rng, 'GET', '/', 'HTTP/1.1', R.base(self.rng, 'h') + [('Cookie', 'a=b'), ('Sec-WebSocket-Protocol', 'x, y')])
        c.send(d[:self.rng.randrange(1, len(d))])
        self.leave_raw(c)

    def leave_raw(self, c):
        k = self.rng.randrange(3)
        if k == 2:
            try:
                c.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            self.drain(c)
        else:
            c.close(abort=k == 1)

    def pieces(self):
        """The buffer of the request grows bit by bit."""
        c = self.conn()
        d = R.render(self.rng, 'GET', '/', 'HTTP/1.1', R.base(self.rng, 'h') + R.extras(self.rng))
        for i in range(0, len(d) - 20, max(1, len(d) // 6)):
            c.send(d[i:i + max(1, len(d) // 6)])
            time.sleep(0.001)
        self.leave_raw(c)

    def fault(self):
        c = self.conn()
        cls, d, want = c06.fault(self.rng, c.port, True)
        try:
            c.send(d)
            r = c.read_http(0.2)    # it is not a fault where larger requests are allowed
        except (Closed, OSError):
            c.close()
            return
        except Timeout:
            return self.leave_raw(c)
        if r.status in (101, 426):
            self.leave_raw(c)
        else:
            self.drain(c)

    def mutant(self):
        c = self.conn()
        d = hostile.mutate(self.rng, hostile.odd_request(self.rng, c.port))
        try:
            c.send(d)
            c.read_http(0.05)
        except (Closed, OSError, Timeout, ProtocolError):
            pass
        self.leave_raw(c)

    def icon(self):
        c = self.conn()
        c.send(request(path='/favicon.ico', port=c.port)[0])
        r = c.read_http(20)
        self.ctx.check(r.status in (200, 404), 'left:icon', 'status %d' % r.status)
        self.drain(c)

    def again(self):
        """Kept open after each refusal."""
        c = self.conn()
        for _ in range(self.rng.randrange(1, 8)):
            c.send(self.rng.choice([request(path='http://h/a?b=c', port=c.port, protocols='echo, x', extra=[('Cookie', 'x')]),
                                    request(port=c.port, drop=('Sec-WebSocket-Key',)), request(port=c.port, drop=('Upgrade',), extensions='permessage-deflate'),
                                    request(port=c.port, connection='close')])[0])
            r = c.read_http(20)
            self.ctx.check(r.status == 426, 'left:again', 'status %d' % r.status)
        if self.rng.random() < 0.5:
            c.handshake()
        self.leave_raw(c)

    def rich(self):
        """Every header the server keeps, several times."""
        rng = self.rng
        more = []
        for _ in range(rng.randrange(1, 10)):
            more.append(rng.choice([('Cookie', 'a=%d' % rng.randrange(99)), ('Origin', 'http://x'), ('Sec-WebSocket-Origin', 'http://y'), ('Sec-WebSocket-Protocol', 'x, y, echo'),
                                    ('Sec-WebSocket-Protocol', 'broadcast'), ('WebSocket-Protocol', 'echo'), ('Sec-WebSocket-Extensions', rng.choice(hostile.OFFERS)),
                                    ('Sec-WebSocket-Extensions', 'x; y=1, permessage-deflate; client_max_window_bits=12'), ('Connection', 'keep-alive'), ('Host', 'h'),
                                    ('Sec-WebSocket-Key1', '12 3'), ('Sec-WebSocket-Key2', '4 5'), ('X', 'y' * 100), ('Upgrade', 'websocket')]))
        c = self.conn()
        c.send(request(path='/chat?a=b&c=d&' + 'e=f&' * rng.randrange(5), port=c.port, extra=more, version=rng.choice([13, 8, 7]))[0])
        try:
            r = c.read_http(20)
            if r.status == 101:
                c.rsv1_ok = True
                c.send(frame(TEXT, b'hi') + frame(PING, b'x'))
                while c.read_frame(20).opcode != PONG:
                    pass
        except (Closed, OSError):
            pass
        self.leave_raw(c)

    # conversations
    def talk(self):
        c = self.ws()
        for _ in range(self.rng.randrange(0, 8)):
            op, d = self.rng.choice([TEXT, BIN]), text(self.rng, min(self.most, self.rng.choice([0, 1, 125, 126, 3000, 70000])))
            if self.rng.random() < 0.5 and len(d) > 3:
                k = self.rng.randrange(len(d))
                c.send(frame(op, d[:k], fin=False) + frame(CONT, b'', fin=False) + frame(PING, b'x') + frame(CONT, d[k:]))
                self.ctx.check(c.read_event(20) == (PONG, b'x'), 'left:pong', 'no pong')
            else:
                c.send(frame(op, d))
            self.ctx.check(c.read_event(20) == (op, d), 'left:echo', 'wrong echo')
        self.leave(c)

    def unfinished(self):
        c = self.ws(self.rng.choice(['echo', 'broadcast']))
        d = b''
        for _ in range(self.rng.randrange(1, 8)):
            d += frame(self.rng.choice([TEXT, BIN]) if not d else CONT, blob(self.rng, self.rng.choice([0, 10, 5000, 60000])), fin=False)
        d += frame(CONT, bytes(self.rng.choice([10, 1000, 100000])))[:self.rng.randrange(0, 15)]
        c.send(d)
        if self.rng.random() < 0.7:
            time.sleep(0.003)
        self.leave_raw(c)

    def cut(self):
        c = self.ws()
        f = frame(BIN, blob(self.rng, self.rng.choice([1, 200, 40000, 400000])))
        c.send(f[:self.rng.randrange(1, len(f))])
        if self.rng.random() < 0.7:
            time.sleep(0.003)
        self.leave_raw(c)

    def wrong(self):
        rng = self.rng
        c = self.ws(rng.choice(['echo', 'broadcast']))
        d = b''.join(frame(BIN, blob(rng, rng.choice([0, 10, 5000]))) for _ in range(rng.randrange(0, 4)))
        if rng.random() < 0.4:
            d += frame(TEXT, b'start', fin=False)
        bad = rng.choice([frame(3, b'x'), frame(TEXT, b'x', mask=False), frame(TEXT, b'\xff\xff'), frame(PING, bytes(126)), frame(PING, b'', fin=False), frame(TEXT, b'x', rsv=2),
                          frame(BIN, b'', length=1 << 40), frame(CONT, b'x') * 2, frame(CLOSE, b'x'), frame(CLOSE, b'\x03\xed'), frame(CLOSE, b'\x03\xe8\xff'), frame(BIN, bytes(1048577)),
                          frame(TEXT, b'x', fin=False) * 2])
        try:
            c.send(d + bad + frame(BIN, b'more') * rng.randrange(0, 3))
            if rng.random() < 0.7:
                return self.drain(c, 1)
        except OSError:
            pass
        c.close(abort=rng.random() < 0.5)

    def unread(self):
        """Answers that are never read pile up."""
        rng = self.rng
        c = self.ws(rng.choice(['echo', 'broadcast']), rcvbuf=2048)
        d = frame(BIN, blob(rng, rng.choice([10, 3000, 60000]))) * rng.choice([1, 10, 40])
        raw = c.sock.sock if self.t else c.sock
        raw.settimeout(0.03)
        try:
            for _ in range(rng.choice([1, 5, 20])):
                c.send(d)
        except OSError:
            pass
        c.close(abort=rng.random() < 0.6)

    def overflow(self):
        """More messages at once than the ring holds."""
        c = self.ws('echo', rcvbuf=2048)
        raw = c.sock.sock if self.t else c.sock
        raw.settimeout(0.05)
        try:
            for _ in range(10):
                c.send(frame(BIN, bytes(1000)) * 100 + frame(PING, b'x' * 100) * 100)
        except OSError:
            pass
        c.close(abort=self.rng.random() < 0.6)

    def room(self):
        """Messages to members who leave with some of them unread."""
        rng = self.rng
        ms = [self.ws('broadcast', rcvbuf=rng.choice([None, 2048])) for _ in range(rng.randrange(2, 5))]
        for _ in range(rng.randrange(1, 10)):
            try:
                rng.choice(ms).send(frame(BIN, blob(rng, rng.choice([0, 100, 5000, 60000]))))
            except OSError:
                pass
            if rng.random() < 0.2 and len(ms) > 1:
                self.leave_raw(ms.pop())
        for m in ms:
            self.leave_raw(m)

    def ping(self):
        c = self.ws()
        n = self.rng.randrange(1, 20)
        c.send(frame(PING, b'ping') * n + frame(PONG, b'pong') * self.rng.randrange(0, 5))
        for _ in range(n):
            self.ctx.check(c.read_event(20) == (PONG, b'ping'), 'left:pong', 'no pong')
        self.leave(c)

    def odd(self):
        c = self.ws(self.rng.choice(['echo', 'broadcast']))
        try:
            c.send(b''.join(hostile.odd_frame(self.rng) for _ in range(self.rng.randrange(1, 6))))
            c.sock.settimeout(0.02)
            c.sock.recv(65536)
        except (OSError, Closed):
            pass
        self.leave_raw(c)

    def close_twice(self):
        c = self.ws()
        c.send(frame(CLOSE, b'\x03\xe8bye') + frame(CLOSE, b'\x03\xe8') + frame(TEXT, b'x') * 3)
        self.drain(c)

    # compression
    OFFERS = ['permessage-deflate', 'permessage-deflate; client_max_window_bits', 'permessage-deflate; server_no_context_takeover; client_no_context_takeover',
              'permessage-deflate; server_max_window_bits=9', 'permessage-deflate; server_no_context_takeover', 'x, permessage-deflate; server_max_window_bits=10; client_max_window_bits=10']

    def packed(self):
        c = self.ws(ext=self.rng.choice(self.OFFERS))
        p = negotiated(c.resp)
        self.ctx.check(p is not None, 'left:deflate', 'not negotiated')
        c.deflate = peer(p)
        c.rsv1_ok = True
        for _ in range(self.rng.randrange(0, 6)):
            d = blob(self.rng, self.rng.choice([0, 1, 1000, 70000]))
            z = c.deflate.compress(d)
            if self.rng.random() < 0.5 and len(z) > 1:
                k = self.rng.randrange(len(z))
                c.send(frame(BIN, z[:k], fin=False, rsv=4) + frame(CONT, z[k:]))
            else:
                c.send(frame(BIN, z, rsv=4))
            self.ctx.check(c.read_event(20) == (BIN, d), 'left:echo', 'wrong echo')
        self.leave(c)

    def packed_badly(self):
        c = self.ws(self.rng.choice(['echo', 'broadcast']), ext=self.rng.choice(self.OFFERS))
        try:
            for _ in range(self.rng.randrange(1, 4)):
                z = hostile.odd_deflate(self.rng)
                k = self.rng.randrange(len(z) + 1)
                c.send(self.rng.choice([frame(BIN, z, rsv=4), frame(BIN, z[:k], fin=False, rsv=4) + frame(CONT, z[k:], fin=self.rng.random() < 0.8)]))
            if self.rng.random() < 0.5:
                c.sock.settimeout(0.03)
                c.sock.recv(65536)
        except (OSError, Closed):
            pass
        self.leave_raw(c)

    def offered(self):
        c = self.conn()
        c.send(request(port=c.port, extensions=[self.rng.choice(hostile.OFFERS) for _ in range(self.rng.randrange(1, 4))])[0])
        try:
            c.read_http(20)
        except Closed:
            pass
        self.leave_raw(c)

    def packed_room(self):
        ms = [self.ws('broadcast', ext=self.rng.choice(self.OFFERS + [None])) for _ in range(3)]
        for _ in range(self.rng.randrange(1, 6)):
            m = self.rng.choice(ms)
            d = blob(self.rng, self.rng.choice([0, 100, 20000]))
            p = negotiated(m.resp)
            if p is not None:
                m.deflate = m.deflate or peer(p)
                m.send(frame(BIN, m.deflate.compress(d), rsv=4))
            else:
                m.send(frame(BIN, d))
        time.sleep(0.002)
        for m in ms:
            self.leave_raw(m)

    # TLS
    def not_tls(self):
        k = self.raw(self.s.https)
        m = hostile.Mob(self.ctx, self.s, self.rng, tls=True, patience=0.01)
        c = Client(self.s.https, timeout=5)
        k.close()
        try:
            m.do_tlsbytes(c)
        except (OSError, Closed):
            pass
        c.close(abort=self.rng.random() < 0.5)

    def tls_cut(self):
        m = hostile.Mob(self.ctx, self.s, self.rng, tls=True, patience=0.01)
        c = Client(self.s.https, timeout=5)
        try:
            m.do_tlscut(c)
        except (OSError, Closed):
            pass

    def tls_stop(self):
        from checks.c23 import hello
        k = self.raw(self.s.https)
        d = hello(self.rng, self.rng.choice(['1.2', '1.3']))[2].read()
        k.sendall(d if self.rng.random() < 0.5 else d[:self.rng.randrange(1, len(d))])
        if self.rng.random() < 0.5:
            time.sleep(0.003)
        if self.rng.random() < 0.5:
            k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        k.close()

    PLAIN = ['nothing', 'part', 'pieces', 'fault', 'mutant', 'icon', 'again', 'rich', 'talk', 'unfinished', 'cut', 'wrong', 'unread', 'overflow', 'room', 'ping', 'odd', 'close_twice']
    PACKED = ['packed', 'packed_badly', 'offered', 'packed_room', 'rich', 'mutant', 'unfinished']
    TLS = ['not_tls', 'tls_cut', 'tls_stop']

    def one(self, kind, t=None):
        self.t = t
        try:
            getattr(self, kind)()
        except (Closed, OSError, Timeout) as e:
            # e.g. the server refused the session under overload
            self.ctx.count('cut_short_' + kind)
            if kind in ('talk', 'ping', 'packed'):
                raise Violation('left:refused', '%s over %s: %r' % (kind, t or 'TCP', e))
        self.ctx.count('connections')
        self.ctx.count('kind_' + kind)


def settle(ctx, s, base, counts=None, what=''):
    """Waits until the descriptors are back and nothing happens any more."""
    now = s.settled(len(base), 25)
    if len(now) > len(base):
        raise Violation('left:descriptors', 'after %s: %d descriptors, before %d: %s' % (what, len(now), len(base), now))
    if counts is None:
        time.sleep(0.15)
        return None
    end = time.monotonic() + 20
    last, since = counts.read(), time.monotonic()
    while time.monotonic() < end and time.monotonic() - since < 0.12:
        time.sleep(0.02)
        x = counts.read()
        if x[:3] != last[:3]:
            last, since = x, time.monotonic()
    return last


def grown(a, b):
    """The size classes that have grown, the most first."""
    d = [(b[3][i] - a[3][i], i * 16) for i in range(len(a[3])) if b[3][i] != a[3][i]]
    return ', '.join('%+d of %d bytes' % x for x in sorted(d, key=lambda x: -abs(x[0]))[:12])


CONF = {'setup': {'favicon': '/repo/resources/favicon.ico', 'size': {'ringbuffer': 64, 'fragmented': 200000}, 'pool': {'workers': 2}}}


def counted(s):
    p = os.path.join(s.dir, 'count')
    s.env['COUNT_FILE'] = p
    s.env['LD_PRELOAD'] = os.path.join(s.bdir, 'count.preload')
    s.start()
    return Counts(p)


def series(ctx, variant, kinds, n, tls=None, deflate=None, conf=None, threads=1):
    """Many connections of one kind, and what they left."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': dict(CONF['setup'], **(conf or {}))}, tls=bool(tls), deflate=deflate, start=False) as s:
        counts = counted(s)
        hostile.served(ctx, s, tls=bool(tls))
        base = s.settled(wait=5)
        for kind in kinds:
            def run(m):
                def some(seed, m):
                    h = Histories(ctx, s, random.Random(seed))
                    for i in range(m):
                        h.one(kind, h.rng.choice(tls) if tls else None)
                parallel(ctx, [lambda x=rng.random(): some(x, m // threads) for _ in range(threads)])
                return settle(ctx, s, base, counts, '%s connections' % kind)
            settle(ctx, s, base, counts, kind)
            a = run(40)
            done = 0
            for more in (n, 2 * n, 4 * n):
                # what a cache keeps does not grow with the next series
                b = run(more)
                blocks, size = b[0] - a[0], b[1] - a[1]
                done += more
                ctx.counters['blocks_observed'] = ctx.counters.get('blocks_observed', 0) + b[2] - a[2]
                bad = blocks > 6 + 0.02 * more or size > 4096 + 8 * more
                if not bad:
                    break
                a = b
            ctx.case((kind, variant, tls, deflate, str(conf), threads), sample='%d of %s: %+d blocks, %+d bytes in use' % (done, kind, blocks, size))
            ctx.counters['most_blocks_kept'] = max(ctx.counters.get('most_blocks_kept', 0), blocks)
            if bad:
                raise Violation('left:memory:' + kind, '%d connections (%s, over %s) left %+d blocks, %+d bytes: %s' % (more, kind, tls or 'TCP', blocks, size, grown(a, b) or b))
        hostile.served(ctx, s, tls=bool(tls))


def mixture(ctx, variant, n, rounds=3, threads=4, tls=None, deflate=None, limit=None):
    """All kinds at the same time; counted, or by resident memory."""
    rng = ctx.rng
    with ctx.server(variant, CONF, tls=bool(tls), deflate=deflate, start=False) as s:
        counts = None
        if variant == 'count':
            counts = counted(s)
        else:
            s.start()
        hostile.served(ctx, s, tls=bool(tls))
        base = s.settled(wait=5)
        kinds = Histories.PLAIN + (Histories.PACKED if deflate is not None else []) + (Histories.TLS if tls else [])

        def crowd(m):
            def some(seed):
                h = Histories(ctx, s, random.Random(seed))
                for _ in range(m // threads):
                    h.one(h.rng.choice([k for k in kinds]), h.rng.choice(tls) if tls and h.rng.random() < 0.5 else None)
            parallel(ctx, [lambda x=rng.random(): some(x) for _ in range(threads)])
            x = settle(ctx, s, base, counts, '%d mixed connections' % m)
            return x if counts else s.rss()
        crowd(n)
        a = crowd(n)
        for r in range(rounds):
            b = crowd(n)
            if counts:
                bad, what = b[0] - a[0] > max(30, 0.05 * n) or b[1] - a[1] > 65536 + 16 * n, '%+d blocks, %+d bytes: %s' % (b[0] - a[0], b[1] - a[1], grown(a, b))
                ctx.counters['blocks_observed'] = ctx.counters.get('blocks_observed', 0) + b[2] - a[2]
            else:
                bad, what = b - a > limit, 'resident memory %+d KB to %d KB' % ((b - a) // 1024, b // 1024)
            ctx.case(('mixture', variant, bool(tls), deflate, r), sample='%d mixed: %s' % (n, what[:120]))
            a = b
            if not bad:
                break
        if bad:
            raise Violation('left:memory', 'each of %d times %d connections made it worse, at last by %s' % (rounds, n, what))
        hostile.served(ctx, s, tls=bool(tls))


def timeouts(ctx, variant, n, tls=None):
    """Connections that the server ends because nothing happens."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': dict(CONF['setup'], timeouts={'client': 200, 'pings': 2, 'read': 60, 'write': 60})}, tls=bool(tls), deflate='', start=False) as s:
        counts = counted(s)
        base = s.settled(wait=5)

        def crowd(m):
            def some(seed):
                h = Histories(ctx, s, random.Random(seed))
                for _ in range(m // 20):
                    ks = []
                    for _ in range(20):
                        h.t = h.rng.choice(tls) if tls and h.rng.random() < 0.5 else None
                        k = h.rng.randrange(6)
                        try:
                            if k == 0:
                                ks.append(h.conn())
                            elif k == 1:
                                ks.append(h.conn())
                                ks[-1].send(b'GET / HTTP/1.1\r\nHost: x\r\nCookie: y\r\n')
                            else:
                                c = h.ws(h.rng.choice(['echo', 'broadcast']), ext=h.rng.choice([None] + h.OFFERS), rcvbuf=2048)
                                ks.append(c)
                                if k == 3:
                                    c.send(frame(TEXT, b'never ends', fin=False))
                                elif k == 4:
                                    c.send(frame(BIN, bytes(5000))[:h.rng.randrange(1, 5000)])
                                elif k == 5:
                                    (c.sock.sock if h.t else c.sock).settimeout(0.05)
                                    c.send(frame(BIN, bytes(60000)) * 40)
                        except (OSError, Closed, Timeout):
                            ctx.count('too_late')
                    for c in ks:
                        h.drain(c)
                        ctx.count('timed_out')
            parallel(ctx, [lambda x=rng.random(): some(x) for _ in range(3)])
            return settle(ctx, s, base, counts, 'timeouts')
        crowd(60)
        a = crowd(60)
        for r in range(3):
            b = crowd(n)
            bad = b[0] - a[0] > max(10, 0.1 * n) or b[1] - a[1] > 32768 + 16 * n
            ctx.case(('timeouts', bool(tls), r), sample='%d timed out: %+d blocks' % (n, b[0] - a[0]))
            if not bad:
                break
            if r == 2:
                raise Violation('left:memory:timeouts', '%d connections left %+d blocks, %+d bytes: %s' % (n, b[0] - a[0], b[1] - a[1], grown(a, b)))
            a = b
        hostile.served(ctx, s, tls=bool(tls))


def final(ctx, variant, n, tls=None, deflate=None, conf=None):
    """What is in use when the process ends, with and without a history; some
    connections are still open then, in every state."""
    rng = ctx.rng
    left = []
    for busy in (False, True):
        with ctx.server(variant, {'setup': dict(CONF['setup'], **(conf or {}))}, tls=bool(tls), deflate=deflate, start=False) as s:
            counts = counted(s)
            hostile.served(ctx, s, tls=bool(tls))
            if busy:
                kinds = Histories.PLAIN + (Histories.PACKED if deflate is not None else []) + (Histories.TLS if tls else [])
                h = Histories(ctx, s, rng)
                for _ in range(n):
                    h.one(rng.choice(kinds), rng.choice(tls) if tls and rng.random() < 0.5 else None)
                sg = Siege(s, rng, bool(tls))
                for k in Siege.KINDS * 2:
                    sg.add(k)
                for _ in range(10):
                    h.t = rng.choice(tls) if tls else None
                    c = h.ws(rng.choice(['echo', 'broadcast']), ext=rng.choice(h.OFFERS) if deflate is not None else None)
                    sg.keep.append(c)
                    c.send(frame(BIN, bytes(300)) * 5 + frame(BIN, b'x', fin=False))
            alive = s.alive()
            code = s.stop(40)
            left.append(counts.read())
            judge(ctx, s, alive, code)
            s.proc = None
            if busy:
                sg.lift()
    a, b = left
    ctx.case(('final', variant, bool(tls), deflate, str(conf)), sample='%d blocks in use at the end, %d without connections' % (b[0], a[0]))
    ctx.counters['blocks_observed'] = ctx.counters.get('blocks_observed', 0) + b[2]
    if b[0] - a[0] > 10 or b[1] - a[1] > 16384:
        raise Violation('left:final', 'at the end %d blocks (%d bytes) are in use, but %d (%d) when nobody ever connected: %s' % (b[0], b[1], a[0], a[1], grown(a, b)))


def lsan(ctx, variant, n, tls=None, deflate=None):
    """LeakSanitizer, with a history and connections that are still open."""
    rng = ctx.rng
    with ctx.server(variant, CONF, tls=bool(tls), deflate=deflate) as s:
        kinds = Histories.PLAIN + (Histories.PACKED if deflate is not None else []) + (Histories.TLS if tls else [])
        h = Histories(ctx, s, rng)
        for i in range(n):
            h.one(rng.choice(kinds), rng.choice(tls) if tls and rng.random() < 0.5 else None)
            ctx.case(('lsan', i % 40))
        sg = Siege(s, rng, bool(tls))
        for k in Siege.KINDS:
            sg.add(k)
        alive = s.alive()
        judge(ctx, s, alive, s.stop(40))
        s.proc = None
        sg.lift()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    P, Z, T = Histories.PLAIN, Histories.PACKED, Histories.TLS
    both = ['1.2', '1.3']
    n = 600 if deep else 100
    for rep in range(4 if deep else 1):
        x = '-%d' % rep if rep else ''
        for i in range(3):
            out.append(Scenario('plain-%d%s' % (i, x), series, variant='count', kinds=P[i::3], n=n))
        for i in range(2):
            out.append(Scenario('packed-%d%s' % (i, x), series, variant='count', kinds=Z[i::2], n=n, deflate=''))
        for i in range(4):
            out.append(Scenario('tls-%d%s' % (i, x), series, variant='count', kinds=(P + T)[i::4], n=n * 6 // 10, tls=both))
        out.append(Scenario('tls-packed' + x, series, variant='count', kinds=['packed', 'packed_badly', 'packed_room'], n=n * 6 // 10, tls=both, deflate=''))
        out.append(Scenario('small' + x, series, variant='count', kinds=['talk', 'unfinished', 'cut', 'wrong', 'fault', 'pieces'], n=n,
                            conf={'size': dict(c06.SIZES, frame=3000, buffer=100, ringbuffer=16, fragmented=5000)}))
        out.append(Scenario('crowd' + x, series, variant='count', kinds=['talk', 'room', 'wrong', 'unread', 'fault'], n=n, threads=4))
        out.append(Scenario('mixture' + x, mixture, variant='count', n=n * 4, deflate=''))
        out.append(Scenario('mixture-tls' + x, mixture, variant='count', n=n * 3, tls=both, deflate=''))
        out.append(Scenario('resident' + x, mixture, variant='rel', n=n * 10, limit=4 << 20, rounds=4, weight=2))
        out.append(Scenario('resident-deflate' + x, mixture, variant='rel', n=n * 6, limit=4 << 20, rounds=4, deflate=''))
        out.append(Scenario('resident-tls' + x, mixture, variant='rel', n=n * 4, limit=4 << 20, rounds=4, tls=both))
        out.append(Scenario('timeouts' + x, timeouts, variant='count', n=180))
        out.append(Scenario('timeouts-tls' + x, timeouts, variant='count', n=120, tls=both))
        out.append(Scenario('final' + x, final, variant='count', n=n))
        out.append(Scenario('final-deflate' + x, final, variant='count', n=n, deflate=''))
        out.append(Scenario('final-tls' + x, final, variant='count', n=n, tls=both, deflate=''))
        out.append(Scenario('lsan' + x, lsan, variant='asan', n=n))
        out.append(Scenario('lsan-deflate' + x, lsan, variant='asan', n=n, deflate=''))
        out.append(Scenario('lsan-tls' + x, lsan, variant='asan', n=n, tls=both))
        out.append(Scenario('lsan-poll' + x, lsan, variant='asan2', n=n))
    return out

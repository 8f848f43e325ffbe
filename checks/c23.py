"""C23: secure connections behave exactly like plain ones."""
import gc
import os
import random
import re
import socket
import ssl
import struct
import subprocess
import threading
import time

from checks.c02 import Conv
from checks.c14 import parallel
from vlib import hostile
from vlib.check import Scenario, Violation, short
from vlib.work import Exchange, Pump, blob, differ, negotiated, peer, segments, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request, tls_context

PROPERTY = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('differential monitoring: the same request and the same frames are sent over plain TCP and over TLS 1.2 and 1.3 with random record and TCP segmentation and '
             'all that comes back is compared; hostile and broken TLS peers run next to clients whose service is checked, under AddressSanitizer and with injected faults')
NOTE = 'Sampled streams, segmentations and broken handshakes; TLS 1.2 and 1.3 with the OpenSSL back end (WolfSSL, LibreSSL and BoringSSL are not installed).'
VARIANTS = ['rel', 'poll', 'relc', 'asan', 'tsan']
RULE = ('a case is one conversation that is held over plain TCP and over TLS (distinct by its frames, protocol version, record sizes and segmentation) or one broken TLS '
        'peer (distinct by kind and position) next to served clients')
ASSUMPTIONS = ['a reset that follows bytes the server does not read may overtake its last answers, on either kind of connection']


def pieces(rng, total):
    """How TLS records and TCP segments are cut."""
    k = rng.randrange(6)
    if k == 0:
        return dict(records=[16384], together=4), None, 0
    if k == 1 and total < 3000:
        return dict(records=[1], together=rng.choice([1, 50])), None, 0
    if k == 2:
        return dict(records=[rng.choice([100, 1000, 16383, 16384])], together=1), [rng.choice([1, 5, 100]) if total < 3000 else rng.choice([700, 1460, 5000])], 0
    if k == 3:
        return dict(records=[rng.choice([1, 2, 14, 100, 1000, 4096, 16000]) for _ in range(7)], together=rng.choice([1, 3, 20])), [rng.choice([3, 50, 1460, 16384, 16405]) if total < 20000 else 30000], 0
    if k == 4:
        return dict(records=[rng.choice([200, 16384])], together=8), [rng.randrange(1, 60), rng.randrange(1, 60), 1 << 16], 0.002
    return dict(records=[rng.randrange(1, 16385)], together=rng.choice([1, 2, 100])), None, 0


def apply(c, p):
    r, cut, pause = p
    c.sock.records, c.sock.together, c.sock.cut, c.sock.pause = r['records'], r['together'], cut, pause


def collect(c, wire, size=None, pump=None):
    """All events up to the end of the connection."""
    c.max_frame = size
    p = Pump(c, [(wire, [max(1, len(wire))] if c.tls else pump or [len(wire)], 0)])
    ev, reset = c.ended(25)
    p.join(5)
    return ev, reset


def same(ctx, a, b, lossy, what):
    (ea, ra), (eb, rb) = a, b
    if ea == eb:
        return
    if lossy or ra or rb:
        n = min(len(ea), len(eb))
        # pongs and messages may overtake each other only as the server decides, not by the transport
        if ea[:n] == eb[:n] and (lossy or (ra if len(ea) < len(eb) else rb)):
            ctx.count('cut_short_by_reset')
            return
    for i in range(max(len(ea), len(eb))):
        x, y = ea[i] if i < len(ea) else None, eb[i] if i < len(eb) else None
        if x != y:
            raise Violation('parity:differs', '%s: event %d is %s over TCP (%d events) and %s over TLS (%d events)' % (
                what, i, short(x, 100), len(ea), short(y, 100), len(eb)))


def build(rng, size, frag, k):
    cv = Conv(rng, size, frag)
    cv.filler(rng.randrange(0, k))
    for _ in range(rng.randrange(0, 4)):
        # around the sizes of records and buffers
        n = rng.choice([16383, 16384, 16385, 32767, 32768, 32769, 16384 * 3, rng.randrange(0, 200000)])
        cv.add(BIN, blob(rng, min(n, size)))
        cv.filler(rng.randrange(0, 3))
    if rng.random() < 0.55:
        # something that is wrong, or a close
        op = rng.choice([TEXT, BIN, CONT, CLOSE, CLOSE, PING, PONG, 3, 11])
        data = rng.choice([b'', b'x', struct.pack('>H', rng.choice([1000, 1001, 3000, 999, 1005, 5000])) + text(rng, 20), b'\xff\xfe', text(rng, 200)])
        cv.add(op, data, fin=rng.random() < 0.7, rsv=rng.choice([0, 0, 4, 1]), mask=rng.random() < 0.8)
        if not cv.done and cv.model.op is not None:
            cv.add(CONT, b'end')
    cv.filler(rng.choice([0, 1, 3]))
    tail = b''
    if cv.done:
        if rng.random() < 0.3:
            tail = rng.choice([frame(PING, b'late'), rng.randbytes(60), frame(TEXT, b'late') * 5])
    else:
        tail = frame(CLOSE, struct.pack('>H', 1000))
    return cv, tail


def frames(ctx, variant, n, size=200000, buf=32768, chaos=None, threads=2):
    conf = {'setup': {'size': {'frame': size, 'fragmented': 1000, 'buffer': buf, 'ringbuffer': 2048}, 'pool': {'workers': 6}}}
    with ctx.server(variant, conf, tls=True, chaos=chaos) as s:
        def one(rng):
            cv, tail = build(rng, size, 1000, 25)
            wire = cv.wire + tail
            lossy = cv.lossy or cv.over or (cv.done and tail != b'')
            what = ' '.join(cv.desc[-12:])
            c = Client(s.http, timeout=25)
            c.handshake(host='parity')
            plain = collect(c, wire, size, segments(rng, wire)[0])
            c.close()
            for v in ('1.2', '1.3') if rng.random() < 0.5 else (rng.choice(['1.2', '1.3']),):
                p = pieces(rng, len(wire))
                ctx.log(what, v, p)
                hc = rng.choice([None, None, [1], [7], [100, 1]])
                c = Client(s.https, tls=v, timeout=25, cut=hc)
                c.sock.cut = None
                apply(c, p)
                c.handshake(host='parity')
                secure = collect(c, wire, size)
                c.close()
                same(ctx, plain, secure, lossy, '%s over %s in %s' % (what, v, p))
                ctx.case((tuple(cv.desc), v, repr(p), hc is not None), sample='%s over %s in %s' % (what, v, p))
                ctx.count('events_compared', len(secure[0]))

        def many(r):
            return lambda: [one(r) for _ in range(n // threads)]
        parallel(ctx, [many(random.Random(ctx.rng.random())) for _ in range(threads)])


def normal(r):
    return r.status, sorted((k.lower(), v) for k, v in r.headers if k.lower() != 'date'), r.body


def requests(ctx, variant, n, chaos=None, policy=False, deflate=None):
    conf = {'setup': {'pool': {'workers': 6}, 'favicon': '/repo/resources/favicon.ico', 'size': {'header': 3000, 'uri': 1500, 'payload': 4000}}}
    if policy:
        conf.update(hosts=['parity', 'example.org'], origins=['http://a.example'], paths=['chat', ''], queries=['a=b', ''])
    with ctx.server(variant, conf, tls=True, chaos=chaos, deflate=deflate) as s:
        rng = ctx.rng
        for i in range(n):
            if rng.random() < 0.6:
                req = hostile.odd_request(rng, 80)
            else:
                req, _ = request(path=rng.choice(['/', '/chat', '/chat?a=b', '/?a=b', '/favicon.ico', '/x']), host=rng.choice(['parity', 'parity', 'other']), version=rng.choice([13, 8, 7, 6]),
                                 origin=rng.choice([None, 'http://a.example', 'http://b.example']), protocols=rng.choice([None, 'echo', 'x, broadcast', 'x']),
                                 extensions=rng.choice([None, 'permessage-deflate', 'permessage-deflate; server_max_window_bits=10', 'x']))
            if b'\r\n\r\n' not in req:
                req += b'\r\n\r\n'
            # no answer is given to what follows the request in these cases
            req = req[:req.index(b'\r\n\r\n') + 4]
            res = []
            for v in (None, '1.2', '1.3'):
                p = pieces(rng, len(req))
                c = Client(s.https if v else s.http, tls=v, timeout=25)
                if v:
                    apply(c, p)
                    Pump(c, [(req, [len(req)], 0)]).join()
                else:
                    sizes, pause = segments(rng, req)
                    Pump(c, [(req, sizes, pause)]).join()
                try:
                    r = c.read_http(25)
                    out = normal(r)
                    if r.status == 426:
                        out += ('kept',) if c.quiet(0.03) else ('more',)
                    elif r.status != 101:
                        out += (c.expect_eof(25),)
                    else:
                        c.send(frame(TEXT, b'parity?'))
                        if not negotiated(r) and 'broadcast' not in (r.get('sec-websocket-protocol') or ''):
                            out += (c.read_event(25),)
                except Closed as e:
                    out = ('closed', e.rest)
                c.close()
                res.append((v, out, p))
            for v, out, p in res[1:]:
                # a reset after surplus bytes may take the answer with it
                if out != res[0][1] and 'closed' not in (out[0], res[0][1][0]):
                    raise Violation('parity:response', 'request %r is answered with %s over TCP and with %s over TLS %s in %s' % (req[:300], short(res[0][1]), short(out), v, p))
                if (out[0] == 'closed') != (res[0][1][0] == 'closed'):
                    ctx.count('answer_lost_in_reset')
            ctx.case((req,), sample=req[:120])
            ctx.count('status_%s' % res[0][1][0])


def messages(ctx, variant, n, conf=None, deflate=None, chaos=None):
    """Echo of large, fragmented, pipelined and compressed messages."""
    with ctx.server(variant, conf, tls=True, deflate=deflate, chaos=chaos) as s:
        for v in ('1.2', '1.3'):
            for rest in (0, 1):
                p = pieces(ctx.rng, 100000)
                c = Client(s.https, tls=v, timeout=25)
                apply(c, p)
                h = c.handshake(extensions='permessage-deflate; client_max_window_bits' if deflate is not None else None)
                q = negotiated(h)
                if q is not None:
                    c.deflate = peer(q)
                    c.rsv1_ok = True
                x = Exchange(ctx, c, s.frame_size, buf=s.conf['setup']['size']['buffer'], deflate=c.deflate, label='tls %s %s' % (v, p), limit=300000)
                x.run(n)
                ctx.check(c.goodbye() == 1000, 'tls:goodbye', 'wrong status')
                ctx.count('connections')


def mixed(ctx, variant, rounds, chaos=None):
    """Broadcast between plain and secure members, in both directions."""
    with ctx.server(variant, {'setup': {'pool': {'workers': 6}}}, tls=True, chaos=chaos) as s:
        rng = ctx.rng
        for r in range(rounds):
            cs = []
            for i in range(rng.randrange(3, 8)):
                v = rng.choice([None, '1.2', '1.3']) if i > 1 else (None, '1.3')[i]
                c = Client(s.https if v else s.http, tls=v, timeout=25)
                if v:
                    apply(c, pieces(rng, 20000))
                c.handshake(protocols='broadcast')
                c.v = v
                cs.append(c)
            n = rng.randrange(1, 30)
            size = rng.choice([0, 1, 125, 126, 1000, 16384, 65536, 200000]) if n < 6 else rng.choice([0, 1, 125, 126, 1000, 16384])
            # members must know of each other: each one's first message reaches everyone
            every = {i: [b'%d:%d:' % (i, k) + blob(rng, size) for k in range(n)] for i in range(len(cs))}

            def send(i):
                for d in every[i]:
                    cs[i].send(frame(BIN, d))
            ts = [threading.Thread(target=send, args=(i,), daemon=True) for i in range(len(cs))]
            for t in ts:
                t.start()
            got = []

            def receive(i):
                at = {j: 0 for j in range(len(cs)) if j != i}
                while any(at[j] < n for j in at):
                    op, d = cs[i].read_event(25)
                    j = int(d.split(b':', 1)[0]) if op == BIN else -1
                    if j not in at or at[j] >= n or every[j][at[j]] != d:
                        raise Violation('mixed:differs', 'member %d (%s) got %r from %s' % (i, cs[i].v, d[:30], cs[j].v if j >= 0 else None))
                    at[j] += 1
            parallel(ctx, [lambda i=i: receive(i) for i in range(len(cs))])
            for t in ts:
                t.join(20)
            for c in cs:
                ctx.check(c.goodbye() == 1000, 'mixed:goodbye', 'wrong status')
            ctx.case((variant, tuple(str(c.v) for c in cs), n, size), sample='%s members, %d messages of %d bytes each' % ([c.v or 'tcp' for c in cs], n, size))
            ctx.count('deliveries', n * len(cs) * (len(cs) - 1))


def hello(rng, v):
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    obj = tls_context(v).wrap_bio(i, o)
    try:
        obj.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return obj, i, o


def ends(k, what):
    """The server ends this connection."""
    k.settimeout(10)
    try:
        while k.recv(65536):
            pass
    except socket.timeout:
        raise Violation('broken:kept', '%s: the connection is kept' % what)
    except OSError:
        pass


class Broken:
    """Peers that fail at TLS."""
    def __init__(self, s, rng):
        self.s, self.rng = s, rng

    def tcp(self):
        k = socket.create_connection(('127.0.0.1', self.s.https), 10)
        k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return k

    def leave(self, k):
        if k.fileno() >= 0 and self.rng.random() < 0.5:
            k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        k.close()

    def one(self):
        f = self.rng.choice([self.plaintext, self.garbage, self.version, self.cipher, self.cut, self.cut, self.alert, self.mutated, self.late, self.unfinished, self.silent, self.notify, self.records])
        k = self.tcp()
        try:
            return f.__name__, f(k)
        except OSError:
            return f.__name__, 'reset'
        finally:
            self.leave(k)

    def plaintext(self, k):
        r = request(port=self.s.https)[0]
        k.sendall(r)
        ends(k, 'plain text request')

    def garbage(self, k):
        n = self.rng.choice([5, 6, 100, 5000])
        k.sendall(self.rng.choice([b'\0' * n, b'\xff' * n, b'GET ' * n, b'\x16\x03\x01\x00\x02\x01\x00' + self.rng.randbytes(n), self.rng.randbytes(n)]))
        k.shutdown(socket.SHUT_WR)
        ends(k, 'garbage')
        return n

    def version(self, k):
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
        c.set_ciphers('ALL:@SECLEVEL=0')
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.minimum_version = ssl.TLSVersion.MINIMUM_SUPPORTED
            c.maximum_version = self.rng.choice([ssl.TLSVersion.TLSv1, ssl.TLSVersion.TLSv1_1])
        k.settimeout(10)
        try:
            t = c.wrap_socket(k)
        except ssl.SSLError:
            return 'refused'
        t.close()
        return 'accepted'

    def cipher(self, k):
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
        c.maximum_version = ssl.TLSVersion.TLSv1_2
        c.set_ciphers('ECDHE-ECDSA-AES128-GCM-SHA256')     # the certificate is RSA
        k.settimeout(10)
        try:
            c.wrap_socket(k).close()
        except ssl.SSLError:
            return 'refused'
        return 'accepted'

    def cut(self, k):
        """Leaves somewhere in the handshake."""
        v = self.rng.choice(['1.2', '1.3'])
        obj, i, o = hello(self.rng, v)
        d = o.read()
        n = self.rng.randrange(1, len(d) + 1)
        k.sendall(d[:n])
        if n == len(d) and self.rng.random() < 0.8:
            k.settimeout(5)
            i.write(k.recv(65536))
            try:
                obj.do_handshake()
            except ssl.SSLError:
                pass
            d = o.read()
            if d:
                n = self.rng.randrange(1, len(d) + 1)
                k.sendall(d[:n])
                return v, 'second flight', n
        if self.rng.random() < 0.3:
            k.shutdown(socket.SHUT_WR)
            ends(k, 'half a handshake and no more')
        return v, n

    def alert(self, k):
        obj, i, o = hello(self.rng, self.rng.choice(['1.2', '1.3']))
        k.sendall(o.read() + (b'\x15\x03\x03\x00\x02' + bytes([self.rng.choice([1, 2]), self.rng.choice([0, 10, 40, 48, 90, 255])])))
        k.settimeout(2)
        try:
            while k.recv(65536):
                pass
        except socket.timeout:
            pass

    def mutated(self, k):
        obj, i, o = hello(self.rng, self.rng.choice(['1.2', '1.3']))
        k.sendall(hostile.mutate(self.rng, o.read()))
        k.settimeout(0.05)
        try:
            k.recv(65536)
        except socket.timeout:
            pass

    def late(self, k):
        """A finished handshake, then no TLS."""
        c = Client(self.s.https, tls=self.rng.choice(['1.2', '1.3']), timeout=10)
        if self.rng.random() < 0.5:
            c.handshake(protocols=self.rng.choice(['echo', 'broadcast']))
        c.sock.sock.sendall(self.rng.choice([request(port=1)[0], self.rng.randbytes(300), b'\x17\x03\x03\x00\x20' + self.rng.randbytes(32)]))
        ends(c.sock.sock, 'no TLS after the handshake')

    def unfinished(self, k):
        """Part of a record, then gone."""
        c = Client(self.s.https, tls=self.rng.choice(['1.2', '1.3']), timeout=10)
        if self.rng.random() < 0.7:
            c.handshake(protocols=self.rng.choice(['echo', 'broadcast']))
            d = frame(BIN, bytes(self.rng.choice([10, 5000, 40000])))
        else:
            d = request(port=1)[0]
        with c.sock.lock:
            c.sock.obj.write(d)
            d = c.sock.outb.read()
        c.sock.sock.sendall(d[:self.rng.randrange(1, len(d))])
        if self.rng.random() < 0.5:
            time.sleep(self.rng.random() * 0.01)
        c.close(abort=self.rng.random() < 0.5)

    def silent(self, k):
        time.sleep(self.rng.random() * 0.05)

    def notify(self, k):
        """close_notify, at once or after messages, then a reset or not."""
        c = Client(self.s.https, tls=self.rng.choice(['1.2', '1.3']), timeout=10)
        if self.rng.random() < 0.8:
            c.handshake(protocols=self.rng.choice(['echo', 'broadcast']))
            if self.rng.random() < 0.6:
                c.send(frame(TEXT, b'last words'))
        with c.sock.lock:
            try:
                c.sock.obj.unwrap()
            except ssl.SSLError:
                pass
        c.sock.flush()
        if self.rng.random() < 0.5:
            time.sleep(self.rng.random() * 0.01)
        elif self.rng.random() < 0.5:
            c.sock.sock.shutdown(socket.SHUT_WR)
            ends(c.sock.sock, 'close_notify and half-closed')
        c.close(abort=self.rng.random() < 0.5)

    def records(self, k):
        """Empty records and other odd ones."""
        obj, i, o = hello(self.rng, '1.2')
        k.sendall(self.rng.choice([b'\x16\x03\x01\x00\x00' * 40, b'\x14\x03\x03\x00\x01\x01' * 10, b'\x17\x03\x03\x00\x00' * 20]) + o.read())
        k.settimeout(0.05)
        try:
            k.recv(65536)
        except socket.timeout:
            pass


def broken(ctx, variant, n, threads=4, chaos=None, honest=3):
    with ctx.server(variant, {'setup': {'pool': {'workers': 3}}}, tls=True, chaos=chaos) as s:
        hostile.served(ctx, s)
        hostile.served(ctx, s, tls=True)
        base = s.settled()
        over = threading.Event()
        worst = [0.0]

        def serve(rng, v):
            c = Client(s.https if v else s.http, tls=v, timeout=30)
            c.handshake()
            k = 0
            while not over.is_set():
                d = text(rng, rng.choice([0, 10, 126, 3000]))
                t0 = time.monotonic()
                c.send(frame(TEXT, d))
                if c.read_event(30) != (TEXT, d):
                    raise Violation('broken:others', 'the echo of another client is wrong')
                worst[0] = max(worst[0], time.monotonic() - t0)
                k += 1
                if k % 20 == 0:
                    if c.goodbye() != 1000:
                        raise Violation('broken:others', 'wrong close status')
                    c = Client(s.https if v else s.http, tls=v, timeout=30)
                    c.handshake()
                time.sleep(0.002)
            c.close()
            ctx.count('served_meanwhile', k)

        left = [n]
        lock = threading.Lock()
        active = [threads]

        def bad(rng):
            b = Broken(s, rng)
            try:
                while True:
                    with lock:
                        if left[0] <= 0:
                            return
                        left[0] -= 1
                    r = b.one()
                    ctx.case((variant,) + r, sample='%s %s' % r)
                    ctx.count('broken_' + r[0])
            finally:
                with lock:
                    active[0] -= 1
                    if active[0] == 0:
                        over.set()

        def seeded(f, *a):
            r = random.Random(ctx.rng.random())
            return lambda: f(r, *a)
        try:
            parallel(ctx, [seeded(serve, v) for v in ('1.2', '1.3', None)[:honest]] + [seeded(bad) for _ in range(threads)])
        finally:
            over.set()
        hostile.served(ctx, s, tls=True)
        gc.collect()
        now = s.settled(len(base))
        ctx.check(len(now) <= len(base), 'broken:descriptors', '%s instead of %s' % (now, base))
        ctx.counters['max_echo_ms'] = max(ctx.counters.get('max_echo_ms', 0), int(worst[0] * 1000))


def resumed(ctx, variant, n):
    """A client that comes again with a session ticket, and one in tiny pieces."""
    rng = ctx.rng
    with ctx.server(variant, None, tls=True) as s:
        for i in range(n):
            v = rng.choice(['1.2', '1.3'])
            sess = None
            for k in range(3):
                c = Client(s.https, tls=v, timeout=25, session=sess, cut=rng.choice([None, [1], [3, 50], [200]]), pause=rng.choice([0, 0, 0.0005]))
                c.sock.cut = None
                c.handshake()
                d = blob(rng, rng.choice([0, 100, 70000]))
                c.send(frame(BIN, d))
                ctx.check(c.read_event(25) == (BIN, d), 'resumed:echo', 'wrong echo on connection %d' % k)
                sess = c.sock.obj.session
                if c.sock.obj.session_reused:
                    ctx.count('sessions_resumed')
                ctx.check(c.goodbye() == 1000, 'resumed:goodbye', 'wrong status')
                ctx.case((v, k, i % 5), sample='connection %d over %s' % (k, v))


def rekeyed(ctx, variant, n):
    """Key updates (TLS 1.3) and renegotiation attempts (TLS 1.2) in between."""
    rng = ctx.rng
    with ctx.server(variant, None, tls=True) as s:
        for i in range(n):
            v = rng.choice(['1.2', '1.3', '1.3'])
            p = subprocess.Popen(['openssl', 's_client', '-connect', '127.0.0.1:%d' % s.https, '-tls1_' + v[2]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, env={k: x for k, x in os.environ.items() if k != 'LD_PRELOAD'})
            out = bytearray()
            more = threading.Condition()

            def reader(p=p, out=out, more=more):
                while True:
                    d = os.read(p.stdout.fileno(), 65536)
                    with more:
                        out.extend(d)
                        if not d:
                            out.extend(b'<END>')
                        more.notify_all()
                    if not d:
                        return
            rd = threading.Thread(target=reader, daemon=True)
            rd.start()

            def await_(x, key):
                end = time.monotonic() + 20
                with more:
                    while x not in out:
                        if b'<END>' in out and v == '1.2':
                            return False
                        if b'<END>' in out or time.monotonic() > end:
                            raise Violation(key, 'over %s: %r never came, but %r' % (v, x, bytes(out[-300:])))
                        more.wait(0.5)
                return True

            def put(d):
                try:
                    p.stdin.write(d)
                    p.stdin.flush()
                except OSError:
                    pass
                time.sleep(0.03)

            def update():
                put((b'K' if rng.random() < 0.5 else b'k') + b'\n' if v == '1.3' else b'R\n')
            try:
                await_(b'Extended master secret' if v == '1.2' else b'Verify return code', 'rekey:start')
                time.sleep(0.05)
                early = rng.random() < 0.4
                if early and v == '1.3':
                    update()
                put(request(port=s.https)[0])
                await_(b'101 Switching', 'rekey:handshake')
                ok = True
                for k in range(rng.randrange(1, 5)):
                    d = b'message %d of run %d' % (k, i)
                    if v == '1.3' or k == 2:
                        for _ in range(rng.choice([1, 1, 3])):
                            update()
                    put(frame(TEXT, d))
                    if not await_(d, 'rekey:echo'):
                        # a renegotiation that is refused may end this connection
                        ctx.count('ended_by_renegotiation')
                        ok = False
                        break
                ctx.case(('rekey', v, early, i % 4), sample='key updates over %s' % v)
                ctx.count('rekeyed_' + v.replace('.', '_'))
                ctx.count('key_updates', out.count(b'KEYUPDATE'))
            finally:
                p.kill()
                p.wait()
                rd.join(20)
                p.stdout.close()
        hostile.served(ctx, s, tls=True)


def gone_quietly(ctx, variant, n):
    """After a close_notify and a reset while the server is busy, everybody is served on."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': rng.choice([1, 2])}}}, tls=True, rec=True) as s:
        for i in range(n):
            v = rng.choice(['1.2', '1.3'])
            a = Client(s.https, tls=v)
            a.handshake(protocols='broadcast')
            b = Client(s.http)
            b.handshake(protocols='broadcast')
            r = Client(s.https, tls=v)
            r.handshake(protocols='rec')
            try:
                a.sock.obj.unwrap()
            except ssl.SSLWantReadError:
                pass
            a.sock.flush()
            time.sleep(0.03)
            r.send(frame(TEXT, b'!sleep 60'))
            time.sleep(0.01)
            a.close(abort=True)
            for k in range(3):
                b.send(frame(TEXT, b'hello'))
            ctx.check(r.read_event(20)[0] in (TEXT, BIN), 'notify:answer', 'no answer')
            hostile.served(ctx, s, tls=True)
            ctx.check(b.goodbye() == 1000, 'notify:goodbye', 'wrong status')
            r.close()
            ctx.case(('notify', v, i), sample='close_notify, then a reset')
        time.sleep(0.1)
        asleep, t0 = s.cpu()
        time.sleep(1)
        _, t1 = s.cpu()
        if t1 - t0 > 50:
            raise Violation('notify:spinning', 'the idle server used %d ticks in a second' % (t1 - t0))


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 24 if deep else 2
    out = []
    out.append(Scenario('frames', frames, variant='rel', n=120 * k))
    out.append(Scenario('frames-small', frames, variant='rel', n=100 * k, size=3000, buf=100))
    out.append(Scenario('frames-record', frames, variant='rel', n=60 * k, buf=16384))
    out.append(Scenario('frames-poll', frames, variant='poll', n=60 * k))
    out.append(Scenario('frames-faults', frames, variant='relc', n=50 * k, chaos=(20, 300, 80)))
    out.append(Scenario('frames-asan', frames, variant='asan', n=40 * k))
    out.append(Scenario('requests', requests, variant='rel', n=200 * k, deflate=''))
    out.append(Scenario('requests-policy', requests, variant='rel', n=150 * k, policy=True))
    out.append(Scenario('requests-faults', requests, variant='relc', n=60 * k, chaos=(20, 300, 80)))
    out.append(Scenario('messages', messages, variant='rel', n=80 * k))
    out.append(Scenario('messages-small', messages, variant='rel', n=50 * k, conf={'setup': {'size': {'frame': 1000, 'buffer': 333}}}, deflate=''))
    out.append(Scenario('messages-faults', messages, variant='relc', n=40 * k, deflate='', chaos=(20, 300, 80)))
    out.append(Scenario('mixed', mixed, variant='rel', rounds=14 * k))
    out.append(Scenario('mixed-faults', mixed, variant='relc', rounds=5 * k, chaos=(20, 300, 80)))
    out.append(Scenario('mixed-tsan', mixed, variant='tsan', rounds=3 * k))
    out.append(Scenario('broken', broken, variant='rel', n=300 * k))
    out.append(Scenario('broken-asan', broken, variant='asan', n=200 * k))
    out.append(Scenario('broken-poll', broken, variant='poll', n=120 * k))
    out.append(Scenario('broken-faults', broken, variant='relc', n=120 * k, chaos=(20, 300, 80)))
    out.append(Scenario('broken-tsan', broken, variant='tsan', n=60 * k))
    out.append(Scenario('resumed', resumed, variant='rel', n=15 * k))
    out.append(Scenario('rekeyed', rekeyed, variant='rel', n=10 * k))
    out.append(Scenario('notify', gone_quietly, variant='rel', n=8 * k))
    return out

"""Clients that misbehave in every way a stranger on the network can."""
import random
import socket
import struct
import threading
import time
import zlib

from . import req as R
from .work import EDGES, blob, payload, text
from .ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

NASTY = ['', ' ', '\t', ',', ';', ',,,,', ';;;;', '=', '"', '""', '"a', 'a"', '\\', '%', '%s%n%x', '\x01', '\x7f', '\xff\xfe', 'a' * 300, ',' * 300, ';' * 300,
         ' ' * 300, '\0', 'a\0b', '-1', '0', '99999999999999999999', '2147483648', '4294967296', '13 13', '0x0d', '+13', '13\t', '../../etc/passwd',
         'permessage-deflate', 'permessage-deflate' + '; x' * 100, 'echo', 'echo,' * 60, 'broadcast', 'rec', 'websocket', 'Upgrade', 'upgrade, ' * 50]
OFFERS = ['permessage-deflate', 'permessage-deflate;', 'permessage-deflate; client_max_window_bits', 'permessage-deflate; client_max_window_bits=',
          'permessage-deflate; client_max_window_bits=8', 'permessage-deflate; client_max_window_bits="10"', 'permessage-deflate; server_max_window_bits=9',
          'permessage-deflate; server_max_window_bits', 'permessage-deflate; server_max_window_bits=0', 'permessage-deflate; server_max_window_bits=99999999999999999999',
          'permessage-deflate; server_no_context_takeover; client_no_context_takeover', 'permessage-deflate; server_no_context_takeover=1',
          'permessage-deflate; unknown', 'permessage-deflate;;;', '; permessage-deflate', 'x-webkit-deflate-frame', 'permessage-deflate, permessage-deflate',
          'permessage-deflate; server_max_window_bits=8, permessage-deflate; server_max_window_bits=15', ',permessage-deflate,', 'permessage-deflat', 'permessage-deflatex',
          'permessage-deflate; client_max_window_bits; client_max_window_bits', 'permessage-deflate ; server_max_window_bits = 10 ;', 'permessage-deflate; =',
          'permessage-deflate; server_max_window_bits=-1', 'permessage-deflate; server_max_window_bits=16', 'permessage-deflate; client_max_window_bits=15; ' * 3]


def mutate(rng, data, n=None):
    """Small damage to a byte string."""
    d = bytearray(data)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 8, 30])):
        k = rng.randrange(8)
        i = rng.randrange(len(d)) if d else 0
        if k == 0 and d:
            d[i] ^= 1 << rng.randrange(8)
        elif k == 1 and d:
            d[i] = rng.randrange(256)
        elif k == 2:
            d[i:i] = rng.randbytes(rng.choice([1, 1, 2, 10, 100]))
        elif k == 3 and d:
            del d[i:i + rng.choice([1, 1, 2, 4, 20])]
        elif k == 4 and d:
            j = rng.randrange(len(d))
            d[i:i] = d[j:j + rng.choice([1, 4, 20, 200])]
        elif k == 5 and d:
            d[i:i + 1] = rng.choice([b'\0', b'\r', b'\n', b'\r\n', b':', b' ', b',', b';', b'\r\n\r\n', b'\xff', b'\x7f', b'\xfe', b'"', b'='])
        elif k == 6 and d:
            d = d[:max(1, i)]
        elif k == 7 and len(d) > 4:
            d[i:i + 4] = rng.choice([b'\0\0\0\0', b'\xff\xff\xff\xff', b'\x7f\xff\xff\xff', b'\x80\0\0\0'])
    return bytes(d)


def odd_request(rng, port):
    """A request with strange values in the places the server looks at."""
    hs = R.base(rng, rng.choice(['h', 'h:%d' % port, '', 'h' * 400]))
    for _ in range(rng.randrange(1, 6)):
        name = rng.choice(['Host', 'Upgrade', 'Connection', 'Origin', 'Cookie', 'Sec-WebSocket-Version', 'Sec-WebSocket-Key', 'Sec-WebSocket-Protocol',
                           'Sec-WebSocket-Extensions', 'Sec-WebSocket-Origin', 'Sec-WebSocket-Key1', 'Sec-WebSocket-Key2', 'WebSocket-Protocol', 'X', ''])
        v = rng.choice(OFFERS) if name == 'Sec-WebSocket-Extensions' and rng.random() < 0.7 else rng.choice(NASTY)
        if rng.random() < 0.5:
            hs = [h for h in hs if h[0] != name]
        hs.append((name, v))
    if rng.random() < 0.3:
        hs.pop(rng.randrange(len(hs)))
    target = rng.choice(['/', '/', '/chat?a=b&&c=d&', '/?', '/?&', '/?=', '/favicon.ico', '/favicon.icox', 'ws://h/', 'ws://h', 'ws://', 'wss://h:%d/x?y' % port, 'http://h/',
                         '/' + 'a' * rng.choice([200, 1000, 8000, 9000]), '/%', '/\xff', '//', '/?' + 'a&' * 200, 'ws:///', 'ws://h:%d/' % port, '*', '/a?b?c'])
    out = '%s %s %s' % (rng.choice(['GET'] * 8 + ['', 'POST', 'GETT']), target, rng.choice(['HTTP/1.1'] * 8 + ['HTTP/1.0', '', 'HTTP/1.1 x']))
    out += '\r\n' + ''.join(k + rng.choice([': ', ': ', ': ', ':', '', ' : ', ':\t']) + v + '\r\n' for k, v in hs) + '\r\n'
    d = out.encode('latin1')
    if rng.random() < 0.3:
        d += rng.choice([b'\0' * 8, b'12345678', b'x', rng.randbytes(30), frame(TEXT, b'early')])
    return d


def odd_frame(rng, limit=1 << 20):
    """One frame, possibly wrong in any field."""
    op = rng.choice([TEXT, BIN, CONT, PING, PONG, CLOSE] * 4 + list(range(16)))
    n = rng.choice(EDGES[:40]) if rng.random() < 0.8 else rng.randrange(0, 3000)
    if op >= 8 and rng.random() < 0.9:
        n = min(n, 125)
    if op == CLOSE and rng.random() < 0.7:
        d = struct.pack('>H', rng.choice([0, 999, 1000, 1001, 1004, 1005, 1006, 1011, 1015, 2999, 3000, 4999, 5000, 65535])) + rng.choice([b'', b'bye', b'\xff', text(rng, 50)])
    else:
        d = payload(rng, TEXT if rng.random() < 0.8 else BIN, n)
    length = None
    if rng.random() < 0.08:
        length = rng.choice([0, 1, 125, 126, 127, 65535, 65536, limit, limit + 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 14])
    form = rng.choice([16, 64]) if rng.random() < 0.1 else None
    if form == 16 and (length or n) > 65535 or length is not None:
        form = 64 if length is not None and length > 65535 else None
    return frame(op, d, fin=rng.random() < 0.7, rsv=rng.choice([0] * 12 + [4, 4, 1, 2, 7]), mask=rng.random() < 0.95, lenform=form, length=length)


def odd_deflate(rng):
    """Compressed payloads, some of them hostile."""
    k = rng.randrange(8)
    raw = blob(rng, rng.choice([0, 1, 100, 1000, 30000]))
    c = zlib.compressobj(rng.randrange(0, 10), zlib.DEFLATED, -rng.randrange(9, 16))
    z = c.compress(raw) + c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_FINISH]))
    if k == 0:
        return rng.randbytes(rng.randrange(0, 200))
    if k == 1:
        return z[:rng.randrange(len(z) + 1)]
    if k == 2:
        return mutate(rng, z)
    if k == 3:
        # much larger than the server accepts
        c = zlib.compressobj(9, zlib.DEFLATED, -15)
        return c.compress(bytes(rng.choice([1 << 16, 1 << 20, 1 << 24]))) + c.flush(zlib.Z_SYNC_FLUSH)
    if k == 4:
        return z + z
    if k == 5:
        return b'\0\0\xff\xff' * rng.randrange(1, 20)
    return z[:-4] if z.endswith(b'\0\0\xff\xff') else z


class Mob:
    """Runs hostile clients against one server."""
    def __init__(self, ctx, s, rng, tls=False, deflate=False, protocols=('echo', 'broadcast'), kinds=None, patience=0.03, upgrade=None):
        self.ctx, self.s, self.rng = ctx, s, rng
        self.tls, self.deflate, self.protocols = tls, deflate, protocols
        self.patience = patience
        self.kinds = kinds or ['http', 'http', 'oddhttp', 'oddhttp', 'frames', 'frames', 'stream', 'stream', 'deflate', 'unread', 'churn', 'bytes', 'rooms', 'pipeline']
        if tls:
            self.kinds = self.kinds + ['tlsbytes', 'tlscut']
        self.last = None
        self.upgrade_args = upgrade or {}

    def port(self):
        if self.tls and self.rng.random() < 0.5:
            return self.s.https, self.rng.choice(['1.2', '1.3'])
        return self.s.http, None

    def client(self):
        p, t = self.port()
        return Client(p, tls=t, timeout=5)

    def upgrade(self, c, proto=None):
        rng = self.rng
        ext = None
        if self.deflate:
            ext = rng.choice([None, 'permessage-deflate', 'permessage-deflate; client_max_window_bits', 'permessage-deflate; server_no_context_takeover',
                              'permessage-deflate; client_no_context_takeover; server_max_window_bits=9'])
        c.handshake(protocols=proto or rng.choice(list(self.protocols) + [None]), extensions=ext, timeout=8, **self.upgrade_args)

    def soak(self, c, t=None):
        """Reads what comes for a moment."""
        end = time.monotonic() + (self.patience * self.rng.random() * 2 if t is None else t)
        n = 0
        try:
            while time.monotonic() < end:
                c.sock.settimeout(max(0.001, end - time.monotonic()))
                d = c.sock.recv(65536)
                if not d:
                    break
                n += len(d)
        except (OSError, Closed):
            pass
        return n

    def drip(self, c, data):
        """Sends bytes in pieces, maybe not all."""
        rng = self.rng
        if rng.random() < 0.15:
            data = data[:rng.randrange(len(data) + 1)]
        if rng.random() < 0.5:
            c.send(data)
            return
        i = 0
        while i < len(data):
            n = rng.choice([1, 2, 5, 14, 100, 1000, 5000])
            c.send(data[i:i + n])
            i += n
            if rng.random() < 0.2:
                time.sleep(rng.random() * 0.002)

    def one(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(self.kinds)
        c = None
        try:
            c = self.client() if not kind.startswith('tls') else Client(self.s.https, timeout=5)
            getattr(self, 'do_' + kind)(c)
            if rng.random() < 0.3 and not c.tls and not kind.startswith('tls'):
                c.sock.shutdown(rng.choice([socket.SHUT_WR, socket.SHUT_RDWR]))
                self.soak(c)
        except (OSError, Closed, BrokenPipeError):
            pass
        finally:
            if c is not None:
                c.close(abort=rng.random() < 0.5)
        self.ctx.count('hostile_' + kind)
        self.ctx.case((kind, hash(self.last)), sample='%s %r' % (kind, (self.last or b'')[:80]) if rng.random() < 0.02 else None)
        return kind

    def do_http(self, c):
        rng = self.rng
        data, _ = request(path=R.path(rng), port=c.port, protocols=rng.choice([None, 'echo', 'broadcast, echo']), extensions=rng.choice([None] + OFFERS),
                          extra=R.extras(rng))
        data = mutate(rng, data)
        self.last = data
        self.drip(c, data)
        self.soak(c)

    def do_oddhttp(self, c):
        self.last = odd_request(self.rng, c.port)
        self.drip(c, self.last)
        self.soak(c)
        if self.rng.random() < 0.3:
            self.drip(c, odd_frame(self.rng))
            self.soak(c)

    def do_bytes(self, c):
        self.last = self.rng.randbytes(self.rng.choice([1, 4, 20, 500, 5000, 40000])) + self.rng.choice([b'', b'\r\n\r\n'])
        self.drip(c, self.last)
        self.soak(c)

    def do_frames(self, c):
        self.upgrade(c)
        for _ in range(self.rng.randrange(1, 12)):
            self.last = odd_frame(self.rng, self.s.frame_size)
            self.drip(c, self.last)
        self.soak(c)

    def do_stream(self, c):
        """A valid conversation with some damage."""
        rng = self.rng
        self.upgrade(c)
        out = b''
        for _ in range(rng.randrange(1, 10)):
            op = rng.choice([TEXT, BIN])
            d = payload(rng, op, rng.choice(EDGES[:44]))
            if rng.random() < 0.4 and len(d) > 2:
                k = rng.randrange(len(d))
                out += frame(op, d[:k], fin=False) + frame(PING, b'p') + frame(CONT, d[k:])
            else:
                out += frame(op, d)
        self.last = mutate(rng, out) if rng.random() < 0.8 else out
        self.drip(c, self.last)
        self.soak(c)

    def do_deflate(self, c):
        rng = self.rng
        self.upgrade(c)
        for _ in range(rng.randrange(1, 6)):
            z = odd_deflate(rng)
            self.last = z
            if rng.random() < 0.3 and z:
                k = rng.randrange(len(z))
                self.drip(c, frame(rng.choice([TEXT, BIN]), z[:k], fin=False, rsv=4) + frame(CONT, z[k:], rsv=rng.choice([0, 0, 0, 4])))
            else:
                self.drip(c, frame(rng.choice([TEXT, BIN, BIN]), z, rsv=rng.choice([4, 4, 4, 0])))
        self.soak(c)

    def do_unread(self, c):
        """Makes the server write and never reads, then disappears."""
        rng = self.rng
        c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096) if not c.tls else None
        self.upgrade(c)
        d = frame(BIN, rng.randbytes(rng.choice([10, 1000, 60000, 200000])))
        self.last = d
        c.sock.settimeout(0.05)
        for _ in range(rng.randrange(1, 100)):
            c.sock.sendall(d)
        time.sleep(rng.random() * 0.01)

    def do_churn(self, c):
        """Leaves at once, in the middle of things."""
        rng = self.rng
        k = rng.randrange(4)
        if k == 0:
            return
        self.upgrade(c)
        if k > 1:
            c.send(frame(TEXT, text(rng, rng.choice([1, 1000, 60000]))))
        if k > 2:
            c.send(frame(CLOSE, b'\x03\xe8'))
            c.send(frame(TEXT, b'after the close'))
        self.last = b'%d' % k

    def do_rooms(self, c):
        """Messages to others who come and go."""
        rng = self.rng
        self.upgrade(c, 'broadcast' if 'broadcast' in self.protocols else None)
        for _ in range(rng.randrange(1, 10)):
            self.last = frame(rng.choice([TEXT, BIN]), text(rng, rng.choice([0, 1, 126, 5000, 70000])))
            c.send(self.last)
            if rng.random() < 0.3:
                self.soak(c, 0.003)

    def do_pipeline(self, c):
        """Request and frames in one go."""
        rng = self.rng
        data, _ = request(path='/', port=c.port, protocols=rng.choice([None, 'echo']), extensions='permessage-deflate' if self.deflate else None)
        data += b''.join(odd_frame(rng) if rng.random() < 0.5 else frame(TEXT, b'x' * rng.randrange(200)) for _ in range(rng.randrange(1, 6)))
        self.last = data
        self.drip(c, data)
        self.soak(c)

    def do_tlsbytes(self, c):
        """Not TLS at all, or damaged TLS."""
        rng = self.rng
        import ssl
        k = rng.randrange(3)
        if k == 0:
            d = rng.randbytes(rng.choice([1, 5, 100, 3000]))
        elif k == 1:
            d, _ = request(port=c.port)
        else:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
            obj = ctx.wrap_bio(i, o)
            try:
                obj.do_handshake()
            except ssl.SSLWantReadError:
                pass
            d = o.read()
            d = mutate(rng, d) if rng.random() < 0.6 else d[:rng.randrange(len(d))]
        self.last = d
        self.drip(c, d)
        self.soak(c)

    def do_tlscut(self, c):
        """A TLS connection whose stream is damaged or ends after the handshake."""
        rng = self.rng
        raw = c.sock
        c.close()
        t = Client(self.s.https, tls=rng.choice(['1.2', '1.3']), timeout=5)
        try:
            if rng.random() < 0.6:
                self.upgrade(t)
            if rng.random() < 0.7:
                sock = t.sock.sock
                sock.sendall(rng.choice([rng.randbytes(50), b'\x17\x03\x03\x00\x10' + rng.randbytes(16), b'\x15\x03\x03\x00\x02\x02\x28', b'\x16\x03\x03\xff\xff', b'\x17\x03\x03']))
                self.soak(t)
        finally:
            t.close(abort=rng.random() < 0.5)


def crowd(ctx, s, n, threads, seconds=None, errors=None, **kw):
    """Several hostile clients at a time; returns when n have been there."""
    left = [n]
    lock = threading.Lock()
    errs = errors if errors is not None else []
    end = time.monotonic() + seconds if seconds else None

    def run(seed):
        m = Mob(ctx, s, random.Random(seed), **kw)
        try:
            while True:
                with lock:
                    if left[0] <= 0 or (end and time.monotonic() > end):
                        return
                    left[0] -= 1
                m.one()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=run, args=(ctx.rng.random(),), daemon=True) for _ in range(threads)]
    for t in ts:
        t.start()
    if errors is None:
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
    return ts


def served(ctx, s, tls=False, timeout=20):
    """A well-behaved client is served."""
    for port, t in [(s.http, None)] + ([(s.https, '1.3')] if tls else []):
        c = Client(port, tls=t, timeout=timeout)
        c.handshake(timeout=timeout)
        d = text(ctx.rng, 300)
        c.send(frame(TEXT, d))
        got = c.read_event(timeout)
        ctx.check(got == (TEXT, d), 'alive:echo', 'after the workload %r came back' % (got,))
        c.goodbye(timeout=timeout)

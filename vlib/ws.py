"""Raw websocket client and independent reference models used as oracles. Written
from RFC 6455 / RFC 7692, not from the code under test."""
import base64
import hashlib
import os
import random
import select
import socket
import ssl
import struct
import threading
import time
import zlib

GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
CONT, TEXT, BIN, CLOSE, PING, PONG = 0, 1, 2, 8, 9, 10


class ProtocolError(Exception):
    """The server sent something that is not well formed."""


class Timeout(Exception):
    pass


class Closed(Exception):
    """The server ended the stream."""
    def __init__(self, rest=b'', reset=False):
        Exception.__init__(self, 'closed with %d unparsed bytes%s' % (len(rest), ', reset' if reset else ''))
        self.rest = rest
        self.reset = reset


def accept_key(key):
    if isinstance(key, str):
        key = key.encode()
    return base64.b64encode(hashlib.sha1(key + GUID).digest()).decode()


def xor(data, key):
    n = len(data)
    if n == 0:
        return b''
    k = (key * (n // 4 + 1))[:n]
    return (int.from_bytes(data, 'little') ^ int.from_bytes(k, 'little')).to_bytes(n, 'little')


def frame(opcode, payload=b'', fin=True, rsv=0, mask=True, lenform=None, key=None, length=None):
    """Encodes a frame. lenform 7/16/64 forces the form of the length, mask=False
    leaves it unmasked, length overrides the announced length."""
    if isinstance(payload, str):
        payload = payload.encode()
    n = len(payload) if length is None else length
    b0 = (0x80 if fin else 0) | (rsv << 4) | opcode
    m = 0x80 if mask else 0
    if lenform is None:
        lenform = 7 if n < 126 else 16 if n < 65536 else 64
    if lenform == 7:
        head = struct.pack('>BB', b0, m | n)
    elif lenform == 16:
        head = struct.pack('>BBH', b0, m | 126, n)
    else:
        head = struct.pack('>BBQ', b0, m | 127, n)
    if not mask:
        return head + payload
    if key is None:
        key = random.getrandbits(32).to_bytes(4, 'big')
    return head + key + xor(payload, key)


class Frame:
    __slots__ = ('fin', 'rsv', 'opcode', 'payload', 'masked', 'lenform')

    def __repr__(self):
        return 'Frame(op=%d fin=%d rsv=%d len=%d %r)' % (self.opcode, self.fin, self.rsv, len(self.payload), self.payload[:24])


def parse_frame(buf, pos=0):
    """Returns (frame, next position) or (None, pos) if incomplete."""
    if len(buf) - pos < 2:
        return None, pos
    b0, b1 = buf[pos], buf[pos + 1]
    p = pos + 2
    n = b1 & 0x7f
    form = 7
    if n == 126:
        form = 16
        if len(buf) - p < 2:
            return None, pos
        n = struct.unpack_from('>H', buf, p)[0]
        p += 2
    elif n == 127:
        form = 64
        if len(buf) - p < 8:
            return None, pos
        n = struct.unpack_from('>Q', buf, p)[0]
        p += 8
        if n > 1 << 40:
            raise ProtocolError('server frame announces %d bytes' % n)
    key = None
    if b1 & 0x80:
        if len(buf) - p < 4:
            return None, pos
        key = bytes(buf[p:p + 4])
        p += 4
    if len(buf) - p < n:
        return None, pos
    f = Frame()
    f.fin = bool(b0 & 0x80)
    f.rsv = (b0 >> 4) & 7
    f.opcode = b0 & 15
    f.masked = key is not None
    f.lenform = form
    f.payload = bytes(buf[p:p + n])
    if key:
        f.payload = xor(f.payload, key)
    return f, p + n


def check_server_frame(f, max_frame=None, rsv1_ok=False):
    """Well-formedness of one frame sent by the server."""
    if f.masked:
        raise ProtocolError('server frame is masked: %r' % f)
    n = len(f.payload)
    want = 7 if n < 126 else 16 if n < 65536 else 64
    if f.lenform != want:
        raise ProtocolError('length %d is encoded in %d bits: %r' % (n, f.lenform, f))
    if f.rsv & 3 or (f.rsv & 4 and not (rsv1_ok and f.opcode in (TEXT, BIN))):
        raise ProtocolError('reserved bits %d set: %r' % (f.rsv, f))
    if f.opcode not in (CONT, TEXT, BIN, CLOSE, PING, PONG):
        raise ProtocolError('unknown opcode: %r' % f)
    if f.opcode >= 8:
        if not f.fin:
            raise ProtocolError('fragmented control frame: %r' % f)
        if n > 125:
            raise ProtocolError('control frame too long: %r' % f)
    elif max_frame is not None and n > max_frame:
        raise ProtocolError('frame of %d bytes exceeds the configured %d' % (n, max_frame))
    if f.opcode == CLOSE and n == 1:
        raise ProtocolError('close frame with one byte body')


class Http:
    """A parsed HTTP response."""
    def __init__(self, head):
        lines = head.split(b'\r\n')
        parts = lines[0].split(b' ', 2)
        if len(parts) != 3 or not parts[0].startswith(b'HTTP/1.') or not (len(parts[1]) == 3 and parts[1].isdigit()):
            raise ProtocolError('bad status line %r' % lines[0])
        if not parts[2].strip():
            raise ProtocolError('no reason phrase in %r' % lines[0])
        self.version = parts[0].decode()
        self.status = int(parts[1])
        self.reason = parts[2].decode('latin1')
        self.headers = []
        for l in lines[1:]:
            if b':' not in l:
                raise ProtocolError('bad header line %r' % l)
            k, v = l.split(b':', 1)
            tok = set(b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
            if not k or any(c not in tok for c in k):
                raise ProtocolError('bad header name %r' % l)
            if any((c < 32 and c != 9) or c == 127 for c in v):
                raise ProtocolError('control character in header %r' % l)
            self.headers.append((k.decode().lower(), v.decode('latin1').strip()))
        self.body = b''

    def all(self, name):
        return [v for k, v in self.headers if k == name]

    def get(self, name):
        v = self.all(name)
        return v[0] if v else None

    def __repr__(self):
        return 'Http(%d %r body=%d)' % (self.status, self.headers, len(self.body))


_tls_ctx = {}


def tls_context(version=None):
    if isinstance(version, ssl.SSLContext):
        return version
    if version not in _tls_ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        c.set_ciphers('ALL:@SECLEVEL=0')
        if version == '1.2':
            c.minimum_version = c.maximum_version = ssl.TLSVersion.TLSv1_2
        elif version == '1.3':
            c.minimum_version = c.maximum_version = ssl.TLSVersion.TLSv1_3
        _tls_ctx[version] = c
    return _tls_ctx[version]


class TlsSock:
    """TLS over a plain socket through memory buffers, so that one thread may read
    while another one writes and records can be cut at will."""
    def __init__(self, sock, ctx, cut=None, pause=0.0, session=None):
        self.sock = sock
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.obj = ctx.wrap_bio(self.inb, self.outb, server_hostname=None, session=session)
        self.lock = threading.Lock()
        self.wlock = threading.Lock()
        self.cut = cut      # sizes of the pieces in which ciphertext is sent
        self.pause = pause
        self.records = [16384]  # sizes of the records
        self.together = 4       # records that are sent at once
        self.eof = False
        while True:
            try:
                self.obj.do_handshake()
                self.flush()
                break
            except ssl.SSLWantReadError:
                self.flush()
                self.feed()

    def flush(self, wait=True):
        # a reader must not wait for a writer whom the server keeps waiting until it reads
        if not self.wlock.acquire(wait):
            return
        try:
            self.push()
        finally:
            self.wlock.release()

    def push(self):
        with self.lock:     # OpenSSL works on the buffer without the interpreter lock
            d = self.outb.read()
        if not d:
            return
        if not self.cut:
            self.sock.sendall(d)
        else:
            i = k = 0
            while i < len(d):
                n = self.cut[min(k, len(self.cut) - 1)]
                self.sock.sendall(d[i:i + n])
                i += n
                k += 1
                if self.pause:
                    time.sleep(self.pause)

    def feed(self):
        d = self.sock.recv(262144)
        with self.lock:
            if d:
                self.inb.write(d)
            else:
                self.eof = True
                self.inb.write_eof()

    def sendall(self, data):
        mv = memoryview(data)
        i = k = 0
        while i < len(mv):
            # what is written is sent under the same lock, or else a reader's flush
            # would find it and send it in place of reading
            with self.wlock:
                for _ in range(self.together):
                    n = self.records[k % len(self.records)]
                    k += 1
                    with self.lock:
                        m = self.obj.write(mv[i:i + n])
                    assert m == len(mv[i:i + n])
                    i += m
                    if i >= len(mv):
                        break
                self.push()

    def recv(self, n):
        while True:
            with self.lock:
                try:
                    d = self.obj.read(n)
                    return d
                except ssl.SSLWantReadError:
                    pass
                except ssl.SSLZeroReturnError:
                    return b''
            if self.eof:
                return b''
            self.flush(False)
            self.feed()

    def version(self):
        return self.obj.version()

    def __getattr__(self, name):
        return getattr(self.sock, name)


def request(path='/', host=None, port=80, key=None, version=13, origin=None, protocols=None, extensions=None,
            extra=(), drop=(), method='GET', http='HTTP/1.1', upgrade='websocket', connection='Upgrade'):
    if key is None:
        key = base64.b64encode(random.getrandbits(128).to_bytes(16, 'big')).decode()
    h = [('Host', host or '127.0.0.1:%d' % port), ('Upgrade', upgrade), ('Connection', connection),
         ('Sec-WebSocket-Key', key), ('Sec-WebSocket-Version', str(version))]
    if origin is not None:
        h.append(('Origin' if version == 13 else 'Sec-WebSocket-Origin', origin))
    for p in ([protocols] if isinstance(protocols, str) else protocols or ()):
        h.append(('Sec-WebSocket-Protocol', p))
    for e in ([extensions] if isinstance(extensions, str) else extensions or ()):
        h.append(('Sec-WebSocket-Extensions', e))
    h = [x for x in h if x[0] not in drop]
    h += list(extra)
    text = '%s %s %s\r\n' % (method, path, http) + ''.join('%s: %s\r\n' % x for x in h) + '\r\n'
    return text.encode('latin1'), key


class Client:
    def __init__(self, port, tls=None, timeout=10.0, rcvbuf=None, sndbuf=None, host='127.0.0.1', nodelay=True, connect=True, source=None, **tlsargs):
        self.port = port
        self.timeout = timeout
        self.buf = bytearray()
        self.pos = 0
        self.max_frame = None
        self.deflate = None
        self.rsv1_ok = False
        self.frames = 0
        self.sock = socket.socket(socket.AF_INET6 if ':' in host else socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if sndbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        self.sock.settimeout(timeout)
        if source:
            self.sock.bind((source, 0))
        if connect:
            try:
                self.sock.connect((host, port))
            except socket.timeout:
                self.sock.close()
                raise Timeout('connect')
        if nodelay:
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.local_port = self.sock.getsockname()[1]
        if tls:
            try:
                self.sock = TlsSock(self.sock, tls_context(None if tls is True else tls), **tlsargs)
            except socket.timeout:
                self.sock.close()
                raise Timeout('tls handshake')
            except (ssl.SSLError, OSError):
                self.sock.close()
                raise
        self.tls = bool(tls)
        self.msg_op = None
        self.msg_parts = []
        self.msg_rsv1 = False

    # -- bytes
    def send(self, data):
        self.sock.sendall(data)

    def send_segments(self, data, sizes, pause=0.0):
        """Sends data cut into pieces of the given sizes (the last repeats)."""
        i = 0
        k = 0
        while i < len(data):
            n = sizes[min(k, len(sizes) - 1)]
            self.sock.sendall(data[i:i + n])
            i += n
            k += 1
            if pause:
                time.sleep(pause)

    def fill(self, deadline):
        left = deadline - time.monotonic()
        if left <= 0:
            raise Timeout('no data')
        self.sock.settimeout(left)
        try:
            d = self.sock.recv(262144)
        except socket.timeout:
            raise Timeout('no data')
        except ssl.SSLEOFError:
            raise Closed(bytes(self.buf[self.pos:]))
        except ssl.SSLError as e:
            raise Closed(bytes(self.buf[self.pos:]), True)
        except (ConnectionResetError, BrokenPipeError):
            raise Closed(bytes(self.buf[self.pos:]), True)
        finally:
            try:
                self.sock.settimeout(self.timeout)
            except OSError:
                pass
        if not d:
            raise Closed(bytes(self.buf[self.pos:]))
        if self.pos > 1 << 20:
            del self.buf[:self.pos]
            self.pos = 0
        self.buf += d

    # -- http
    def read_http(self, timeout=None):
        deadline = time.monotonic() + (timeout or self.timeout)
        while True:
            i = self.buf.find(b'\r\n\r\n', self.pos)
            if i >= 0:
                break
            self.fill(deadline)
        r = Http(bytes(self.buf[self.pos:i]))
        self.pos = i + 4
        n = r.get('content-length')
        if n is not None:
            if not n.isdigit():
                raise ProtocolError('bad content length %r' % n)
            n = int(n)
            while len(self.buf) - self.pos < n:
                self.fill(deadline)
            r.body = bytes(self.buf[self.pos:self.pos + n])
            self.pos += n
        return r

    def handshake(self, timeout=None, expect=101, **kw):
        kw.setdefault('port', self.port)
        req, key = request(**kw)
        self.send(req)
        r = self.read_http(timeout)
        if expect is not None and r.status != expect:
            raise ProtocolError('handshake answered with %r' % r)
        if r.status == 101:
            if r.get('sec-websocket-accept') != accept_key(key):
                raise ProtocolError('wrong Sec-WebSocket-Accept %r for key %r' % (r.get('sec-websocket-accept'), key))
        return r

    # -- frames
    def read_frame(self, timeout=None):
        deadline = time.monotonic() + (timeout if timeout is not None else self.timeout)
        while True:
            f, p = parse_frame(self.buf, self.pos)
            if f is not None:
                self.pos = p
                if p == len(self.buf):
                    self.buf = bytearray()
                    self.pos = 0
                self.frames += 1
                check_server_frame(f, self.max_frame, self.rsv1_ok)
                return f
            self.fill(deadline)

    def read_event(self, timeout=None):
        """Returns (opcode, payload) of the next message or control frame. Frames of
        a message are reassembled and checked, control frames in between are
        returned as they come."""
        deadline = time.monotonic() + (timeout if timeout is not None else self.timeout)
        while True:
            f = self.read_frame(max(0.001, deadline - time.monotonic()))
            if f.opcode >= 8:
                return f.opcode, f.payload
            if f.opcode == CONT:
                if self.msg_op is None:
                    raise ProtocolError('continuation without a message: %r' % f)
                if f.rsv:
                    raise ProtocolError('reserved bit on continuation: %r' % f)
            else:
                if self.msg_op is not None:
                    raise ProtocolError('new data frame inside a message: %r' % f)
                self.msg_op = f.opcode
                self.msg_rsv1 = bool(f.rsv & 4)
                self.msg_parts = []
            self.msg_parts.append(f.payload)
            if f.fin:
                op, data = self.msg_op, b''.join(self.msg_parts)
                self.msg_op = None
                self.msg_parts = []
                if self.msg_rsv1:
                    data = self.deflate.decompress(data)
                return op, data

    def read_message(self, timeout=None):
        """Next data message; control frames are answered/ignored, close raises."""
        deadline = time.monotonic() + (timeout if timeout is not None else self.timeout)
        while True:
            op, data = self.read_event(max(0.001, deadline - time.monotonic()))
            if op in (TEXT, BIN):
                return op, data
            if op == PING:
                self.send(frame(PONG, data))
            elif op == CLOSE:
                raise Closed(data)

    def expect_eof(self, timeout=None):
        """The server closes the connection; returns bytes that came before."""
        deadline = time.monotonic() + (timeout or self.timeout)
        while True:
            try:
                self.fill(deadline)
            except Closed as c:
                return bytes(self.buf[self.pos:])

    def ended(self, timeout=None, cut=False):
        """Collects events until the server closes. Returns (events, reset).
        cut: the stream may end inside a frame (the client had left already)."""
        deadline = time.monotonic() + (timeout or self.timeout)
        ev = []
        while True:
            try:
                ev.append(self.read_event(max(0.001, deadline - time.monotonic())))
            except Closed as c:
                if c.rest and not cut and not c.reset:
                    raise ProtocolError('stream ended inside a frame: %r' % c.rest[:40])
                return ev, c.reset

    def quiet(self, seconds):
        """Nothing arrives for that long."""
        if self.pos < len(self.buf):
            return False
        try:
            self.fill(time.monotonic() + seconds)
        except Timeout:
            return True
        return False

    def drain_after(self):
        return bytes(self.buf[self.pos:])

    def close(self, abort=False):
        try:
            if abort:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            self.sock.close()
        except OSError:
            pass

    def goodbye(self, code=1000, timeout=None):
        """Performs the closing handshake; returns the status the server sent."""
        self.send(frame(CLOSE, struct.pack('>H', code)))
        while True:
            op, data = self.read_event(timeout)
            if op == CLOSE:
                self.expect_eof(timeout)
                self.close()
                return struct.unpack('>H', data[:2])[0] if data else None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Deflate:
    """The client's half of permessage-deflate (RFC 7692)."""
    def __init__(self, server_bits=15, client_bits=15, server_nct=False, client_nct=False, level=6):
        self.sb, self.cb, self.snct, self.cnct, self.level = server_bits, client_bits, server_nct, client_nct, level
        self.new_c()
        self.new_d()

    def new_c(self):
        self.c = zlib.compressobj(self.level, zlib.DEFLATED, -max(9, self.cb))

    def new_d(self):
        self.d = zlib.decompressobj(-max(8, self.sb))

    def compress(self, data, mode='sync'):
        """mode: how the message is ended; all are valid per RFC 7692."""
        if self.cnct:
            self.new_c()
        out = self.c.compress(data)
        if mode == 'sync':
            out += self.c.flush(zlib.Z_SYNC_FLUSH)
            assert out[-4:] == b'\0\0\xff\xff', out[-8:]
            return out[:-4]
        if mode == 'full':
            out += self.c.flush(zlib.Z_FULL_FLUSH)
            return out[:-4]
        raise ValueError(mode)

    def decompress(self, data):
        if self.snct:
            self.new_d()
        try:
            out = self.d.decompress(data + b'\0\0\xff\xff')
        except zlib.error as e:
            raise ProtocolError('server data does not decompress: %s' % e)
        if self.d.unused_data or self.d.eof:
            if self.d.unused_data not in (b'', b'\0\0\xff\xff'):
                raise ProtocolError('garbage after the compressed message')
            self.new_d()
        return out


def utf8_valid(b):
    try:
        b.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def fnv(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return h


def generated(size, i):
    """The i-th message of a series generated by the recording plugin."""
    x = (i * 2654435761 + 12345) & 0xffffffff
    out = bytearray(size)
    for j in range(size):
        x = (x * 1103515245 + 12345) & 0xffffffff
        out[j] = ord('a') + ((x >> 16) & 0xffff) % 26
    head = b'%d:' % i
    n = min(len(head), size)
    out[:n] = head[:n]
    return bytes(out)

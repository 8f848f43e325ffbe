"""Workload generators and the reference model of a websocket endpoint."""
import struct
import threading
import time
import zlib

from .ws import (BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, Deflate, ProtocolError, Timeout, frame, utf8_valid)
from .check import Violation, short

# lengths around every limit of the frame format and of common buffers
EDGES = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257,
         511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769,
         65534, 65535, 65536, 65537, 70000]


def text(rng, n):
    """Valid UTF-8 of exactly n bytes with characters of all lengths."""
    out = bytearray()
    style = rng.randrange(4)
    if style == 0 or n > 20000:
        base = bytes(rng.randrange(32, 127) for _ in range(61))
        out += (base * (n // 61 + 1))[:max(0, n - 8)]
    edges = [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfffd, 0x20ac]
    while len(out) < n:
        left = n - len(out)
        k = rng.randrange(8)
        if left == 1 or k < 2:
            c = rng.randrange(0, 0x80)
        elif k == 2:
            c = rng.choice(edges)
        elif left == 2 or k == 3:
            c = rng.randrange(0x80, 0x800)
        elif left == 3 or k < 6:
            c = rng.randrange(0x800, 0x10000)
            if 0xd800 <= c < 0xe000:
                c = 0xe000
        else:
            c = rng.randrange(0x10000, 0x110000)
        b = chr(c).encode()
        if len(b) <= left:
            out += b
    return bytes(out)


def blob(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return bytes(n)
    if k == 1 and n:
        u = rng.randbytes(min(n, rng.randrange(1, 50)))
        return (u * (n // len(u) + 1))[:n]
    return rng.randbytes(n)


def payload(rng, op, n):
    return text(rng, n) if op == TEXT else blob(rng, n)


def size(rng, limit, frame_size=None, buf=None):
    """A message size, most often near a limit."""
    k = rng.randrange(10)
    if k < 5:
        n = rng.choice(EDGES)
    elif k < 7:
        n = rng.randrange(0, 300)
    else:
        base = rng.choice([x for x in (frame_size, buf, 2 * (frame_size or 0), rng.randrange(3, 41) * (frame_size or 0)) if x] or [1000])
        n = max(0, base + rng.randrange(-15, 16))
    if n > limit:
        n = rng.randrange(0, limit + 1)
    return n


def cuts(rng, n, parts, empty=True):
    """Cuts n bytes into parts pieces."""
    if parts <= 1:
        return [n]
    if empty:
        p = sorted(rng.randrange(0, n + 1) for _ in range(parts - 1))
    else:
        p = sorted(rng.sample(range(1, n), min(parts - 1, n - 1))) if n > 1 else []
    p = [0] + p + [n]
    return [b - a for a, b in zip(p, p[1:])]


class Msg:
    """A message and the frames that carry it."""
    def __init__(self, rng, op, data, frame_size, max_parts=6, controls=0, ctl_limit=125, deflate=None, compressed=False,
                 max_pings=1000):
        self.op, self.data = op, data
        body, rsv = data, 0
        if compressed:
            body, rsv = deflate.compress(data), 4
        parts = 1 if rng.random() < 0.4 else rng.randrange(1, max_parts + 1)
        sizes = cuts(rng, len(body), parts)
        fixed = []
        for s in sizes:
            while s > frame_size:
                fixed.append(frame_size)
                s -= frame_size
            fixed.append(s)
        self.frames = []    # bytes of each frame
        self.pings = []
        off = 0
        for i, s in enumerate(fixed):
            self.frames.append(frame(op if i == 0 else CONT, body[off:off + s], fin=i == len(fixed) - 1, rsv=rsv if i == 0 else 0,
                                     key=rng.choice([None, None, None, b'\0\0\0\0', b'\xff\xff\xff\xff', b'\1\0\0\0']),
                                     lenform=None))
            off += s
            if controls and rng.random() < controls and i < len(fixed) - 1 and len(self.pings) < max_pings:
                self.control(rng, ctl_limit)
        self.nframes = len(fixed)
        self.desc = '%s %d bytes in %s%s' % ('text' if op == TEXT else 'binary', len(data), fixed if len(fixed) < 8 else '%d frames' % len(fixed),
                                             ' compressed' if compressed else '')

    def control(self, rng, limit):
        d = rng.randbytes(rng.choice([0, 1, 4, 124, 125]))[:limit]
        if rng.random() < 0.75:
            self.frames.append(frame(PING, d))
            self.pings.append(d)
        else:
            self.frames.append(frame(PONG, d))

    @property
    def wire(self):
        return b''.join(self.frames)


def segments(rng, data, style=None):
    """Cuts a byte stream into TCP segments. Returns (sizes, pause)."""
    n = len(data)
    style = style or rng.choice(['whole', 'whole', 'random', 'random', 'head', 'dribble', 'tail'])
    if style == 'dribble' and n > 600:
        style = 'random'
    if style == 'whole' or n < 2:
        return [n or 1], 0
    if style == 'dribble':
        return [1], 0.0 if rng.random() < 0.5 else 0.0005
    if style == 'head':      # in the middle of a frame header
        return [rng.randrange(1, min(n, 15)), n], 0.002
    if style == 'tail':
        return [n - rng.randrange(1, min(n, 20)), n], 0.002
    return [c or 1 for c in cuts(rng, n, rng.randrange(2, 8), empty=False)] + [n], rng.choice([0, 0, 0.001])


class Pump:
    """Sends from a thread of its own so that the caller can read meanwhile."""
    def __init__(self, c, chunks):
        self.c, self.chunks, self.err = c, chunks, None
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        try:
            for data, sizes, pause in self.chunks:
                self.c.send_segments(data, sizes, pause)
        except Exception as e:
            self.err = e

    def join(self, timeout=30):
        self.t.join(timeout)
        return not self.t.is_alive()


def negotiated(resp):
    """The parameters of the permessage-deflate answer as a dict, or None."""
    v = resp.all('sec-websocket-extensions')
    if not v:
        return None
    if len(v) != 1:
        raise ProtocolError('several extension headers in the response: %r' % v)
    parts = [p.strip() for p in v[0].split(';')]
    if parts[0] != 'permessage-deflate':
        raise ProtocolError('extension answered is %r' % v[0])
    d = {}
    for p in parts[1:]:
        if not p:
            continue
        k, _, x = p.partition('=')
        k, x = k.strip(), x.strip()
        if k in d:
            raise ProtocolError('repeated parameter in %r' % v[0])
        if k in ('server_no_context_takeover', 'client_no_context_takeover'):
            if x:
                raise ProtocolError('value for %s in %r' % (k, v[0]))
            d[k] = True
        elif k in ('server_max_window_bits', 'client_max_window_bits'):
            if not x.isdigit() or not 8 <= int(x) <= 15 or x[0] == '0':
                raise ProtocolError('bad value for %s in %r' % (k, v[0]))
            d[k] = int(x)
        else:
            raise ProtocolError('unknown parameter %s in %r' % (k, v[0]))
    return d


def peer(params, level=6):
    return Deflate(server_bits=params.get('server_max_window_bits', 15), client_bits=params.get('client_max_window_bits', 15),
                   server_nct=params.get('server_no_context_takeover', False), client_nct=params.get('client_no_context_takeover', False),
                   level=level)


class Exchange:
    """Sends messages over a connection of the echo protocol and checks what comes
    back: every message once, in order, with its type; every ping once, in order."""
    def __init__(self, ctx, c, frame_size, buf=32768, limit=200000, window=60, window_bytes=60000, controls=0.15, ctl_limit=125,
                 max_frames=1 << 20, deflate=None, timeout=20, max_parts=6, label=''):
        self.ctx, self.c, self.rng = ctx, c, ctx.rng
        self.frame_size, self.buf, self.limit = frame_size, buf, limit
        self.window, self.window_bytes = window, window_bytes
        self.controls, self.ctl_limit, self.max_frames = controls, min(ctl_limit, frame_size), max_frames
        self.deflate, self.timeout, self.max_parts = deflate, timeout, max_parts
        self.label = label
        self.held = None
        c.max_frame = frame_size

    def make(self):
        rng = self.rng
        if self.held is not None:
            m, self.held = self.held, None
            return m
        op = rng.choice([TEXT, BIN])
        n = size(rng, self.limit, self.frame_size, self.buf)
        # a message must not need more frames than the server accepts
        n = min(n, self.frame_size * min(self.max_frames, 4000))
        comp = self.deflate is not None and rng.random() < 0.8
        # cutting at random adds at most one frame for each cut
        parts = max(1, min(self.max_parts, self.max_frames - n // self.frame_size - 1))
        if n > self.frame_size * self.max_frames - self.frame_size * parts:
            parts = 1
        return Msg(rng, op, payload(rng, op, n), self.frame_size, max_parts=parts, controls=self.controls,
                   ctl_limit=self.ctl_limit, deflate=self.deflate, compressed=comp, max_pings=max(0, self.window - 1))

    def batch(self, msgs, style=None):
        """Sends some messages at once and waits for all of their echoes."""
        ctx, c = self.ctx, self.c
        data = b''.join(m.wire for m in msgs)
        sizes, pause = segments(self.rng, data, style)
        ctx.log(self.label, 'send', [m.desc for m in msgs], 'segments', sizes[:10])
        pump = Pump(c, [(data, sizes, pause)])
        want = [(m.op, m.data) for m in msgs]
        pings = [p for m in msgs for p in m.pings]
        got = gp = 0
        while got < len(want) or gp < len(pings):
            try:
                op, d = c.read_event(self.timeout)
            except Timeout:
                if pump.err:
                    raise pump.err
                raise Timeout('%s: %d of %d messages and %d of %d pongs came back; next expected: %s' % (
                    self.label, got, len(want), gp, len(pings), msgs[min(got, len(msgs) - 1)].desc))
            if op == PONG:
                if gp >= len(pings) or d != pings[gp]:
                    raise Violation('echo:pong', 'pong %d is %s, expected %s' % (gp, short(d), short(pings[gp]) if gp < len(pings) else None))
                gp += 1
            elif op in (TEXT, BIN):
                if got >= len(want):
                    raise Violation('echo:extra', 'unexpected message %d %s' % (op, short(d)))
                if (op, d) != want[got]:
                    raise Violation('echo:differs', 'message %d (%s): %s' % (got, msgs[got].desc, differ(want[got], (op, d))))
                got += 1
            elif op == PING:
                c.send(frame(PONG, d))
            else:
                raise Violation('echo:closed', 'close frame %s instead of %s' % (short(d), msgs[min(got, len(msgs) - 1)].desc))
        if not pump.join():
            raise Timeout('cannot finish sending')
        ctx.count('messages', len(msgs))
        ctx.count('bytes', sum(len(m.data) for m in msgs))
        ctx.count('frames_sent', sum(len(m.frames) for m in msgs))
        ctx.count('pongs', len(pings))
        ctx.count('segments', max(1, len(sizes)))
        return len(msgs)

    def run(self, n):
        done = 0
        while done < n:
            w = 1 if self.rng.random() < 0.5 else self.rng.randrange(1, self.window + 1)
            msgs, total, out = [], 0, 0
            while len(msgs) < w and done + len(msgs) < n:
                m = self.make()
                if msgs and (total + len(m.data) > self.window_bytes or out + 1 + len(m.pings) > self.window):
                    if self.deflate is not None:    # it is part of the compressed stream already
                        self.held = m
                    break
                msgs.append(m)
                total += len(m.data)
                out += 1 + len(m.pings)
            self.batch(msgs)
            for m in msgs:
                self.ctx.case((m.op, len(m.data), m.nframes, self.label), nontrivial=len(m.data) > 0 or m.nframes > 1, sample=m.desc)
            done += len(msgs)
        return done


def differ(want, got):
    if want[0] != got[0]:
        return 'type %d came back as %d' % (want[0], got[0])
    a, b = want[1], got[1]
    i = 0
    n = min(len(a), len(b))
    while i < n and a[i] == b[i]:
        i += 1
    return 'length %d came back as %d, first difference at %d: %s / %s' % (len(a), len(b), i, a[max(0, i - 4):i + 12], b[max(0, i - 4):i + 12])


class Unclear(Exception):
    """The model does not say what must happen."""


class Model:
    """What a server that keeps RFC 6455 does with a sequence of frames.

    feed(opcode, payload, fin, rsv, masked, length) returns a list of what must
    follow: ('msg', op, data), ('pong', data), ('close', {codes}). Where two codes
    are justified both are listed. deflate: the parameters of a negotiated
    permessage-deflate. What is wrong with the extension of a data frame may be
    noticed when the frame comes or with the end of its message."""
    def __init__(self, frame_size, max_frames, deflate=None):
        self.frame_size, self.max_frames, self.deflate = frame_size, max_frames, deflate
        self.op = None
        self.parts = []
        self.comp = self.flawed = False
        self.done = False
        self.window = b''
        self.trust = False      # compressed data is known to be complete

    def inflate(self, data):
        """The message in compressed data, None if there is none."""
        out, window = self.expand(data, self.window)
        # a client that promised to forget must not refer to what it sent, a server
        # need not notice
        if not self.trust and self.deflate.get('client_no_context_takeover') and out != self.expand(data, b'')[0]:
            raise Unclear
        if out is not None and not self.trust:
            raise Unclear
        self.window = window
        return out

    @staticmethod
    def expand(data, win):
        data += b'\0\0\xff\xff'
        out = b''
        while True:
            d = zlib.decompressobj(-15, zdict=win) if win else zlib.decompressobj(-15)
            try:
                part = d.decompress(data)
            except zlib.error:
                return None, win
            out += part
            win = (win + part)[-32768:]
            if not d.eof:
                break
            data = d.unused_data
            if not data:
                break
        return out, win

    def bad(self, *codes):
        self.done = True
        return [('close', set(codes))]

    def feed(self, opcode, data=b'', fin=True, rsv=0, masked=True, length=None):
        n = len(data) if length is None else length
        codes = set()
        if rsv and (self.deflate is None or opcode > 2):
            codes.add(1002)
        if opcode in (3, 4, 5, 6, 7, 11, 12, 13, 14, 15):
            codes |= {1002, 1003}
        if not masked:
            codes.add(1002)
        if opcode >= 8 and not fin:
            codes.add(1002)
        if opcode >= 8 and n > 125:
            codes |= {1002, 1009} if n > self.frame_size else {1002}
        if n > self.frame_size:
            codes.add(1009)
            if n >> 63:
                codes.add(1002)
        if opcode == CLOSE:
            if n == 1:
                codes.add(1002)
            elif n >= 2:
                code = struct.unpack('>H', data[:2])[0] if len(data) >= 2 else 1000
                if code < 1000 or 1004 <= code <= 1006 or 1015 <= code < 3000 or code >= 5000:
                    codes.add(1002)
                if not utf8_valid(data[2:]):
                    codes.add(1007)
            if codes:
                return self.bad(*codes)
            self.done = True
            return [('close', data)]
        if opcode == CONT and self.op is None:
            codes.add(1002)
        if opcode in (TEXT, BIN) and self.op is not None:
            codes.add(1002)
        if codes and self.op is not None and self.flawed:
            codes.add(1002)
        if codes:
            return self.bad(*codes)
        if opcode == PING:
            return [('pong', data)]
        if opcode == PONG:
            return []
        if opcode != CONT:
            self.op, self.parts, self.comp, self.flawed = opcode, [], bool(rsv & 4), False
        self.flawed |= bool(rsv & ~(4 if opcode != CONT else 0))
        self.parts.append(data)
        if len(self.parts) > self.max_frames:
            return self.bad(1009)
        if not fin:
            return []
        op, self.op = self.op, None
        msg = b''.join(self.parts)
        if self.flawed:
            return self.bad(1002, 1007)
        if self.comp:
            msg = self.inflate(msg)
            if msg is None:
                return self.bad(1002, 1007)
        if op == TEXT and not utf8_valid(msg):
            return self.bad(1007)
        return [('msg', op, msg)]


def converse(ctx, c, wire, expect, sizes=None, pause=0, timeout=20, key='conversation', desc='', lossy=False):
    """Sends bytes, compares what comes with the expectation of the model: messages
    in order, pongs in order, nothing else, then the close and the end of the
    stream if the model closes.

    lossy: bytes follow the one that makes the server close. The reset they cause
    may overtake what the server said before, so that its absence proves nothing."""
    msgs = [e for e in expect if e[0] == 'msg']
    pongs = [e for e in expect if e[0] == 'pong']
    close = [e for e in expect if e[0] == 'close']
    pump = Pump(c, [(wire, sizes or [max(1, len(wire))], pause)])
    gm = gp = 0
    closed = None
    while True:
        if not close and gm == len(msgs) and gp == len(pongs):
            break
        try:
            op, d = c.read_event(timeout)
        except Timeout:
            raise Timeout('%s: got %d/%d messages, %d/%d pongs, close %r' % (desc, gm, len(msgs), gp, len(pongs), closed))
        except Closed as e:
            if closed is None:
                if lossy and close:
                    ctx.count('lost_in_reset')
                    break
                if e.reset:
                    raise Violation(key + ':reset', '%s: connection reset without a close frame, expected %r' % (desc, short(close)))
                raise Violation(key + ':end', '%s: connection ended without a close frame after %d/%d messages, expected %r' % (
                    desc, gm, len(msgs), short(close)))
            if e.rest:
                raise Violation(key + ':trailing', '%s: bytes after the close frame: %r' % (desc, e.rest[:40]))
            break
        if closed is not None:
            raise Violation(key + ':after-close', '%s: frame %d after the close frame' % (desc, op))
        if op == PONG:
            if gp >= len(pongs) or pongs[gp][1] != d:
                raise Violation(key + ':pong', '%s: pong %s, expected %s' % (desc, short(d), short(pongs[gp:gp + 1])))
            gp += 1
        elif op in (TEXT, BIN):
            if gm >= len(msgs):
                raise Violation(key + ':delivered', '%s: message must not be delivered: %d %s' % (desc, op, short(d)))
            if msgs[gm][1:] != (op, d):
                raise Violation(key + ':differs', '%s: %s' % (desc, differ(msgs[gm][1:], (op, d))))
            gm += 1
        elif op == CLOSE:
            closed = d
            if not close:
                raise Violation(key + ':closed', '%s: closed with %r although nothing was wrong' % (desc, d))
            want = close[0][1]
            if isinstance(want, set):
                code = struct.unpack('>H', d[:2])[0] if len(d) >= 2 else None
                if code not in want:
                    raise Violation(key + ':code', '%s: close status %r, expected %s' % (desc, code, sorted(want)))
            else:
                code = struct.unpack('>H', d[:2])[0] if len(d) >= 2 else None
                wc = struct.unpack('>H', want[:2])[0] if len(want) >= 2 else None
                if code != wc:
                    raise Violation(key + ':close-status', '%s: close answered with %r, expected %r' % (desc, code, wc))
            if gm < len(msgs):
                raise Violation(key + ':lost', '%s: %d of %d messages before the close' % (desc, gm, len(msgs)))
            if gp < len(pongs):
                raise Violation(key + ':lost-pong', '%s: %d of %d pongs before the close' % (desc, gp, len(pongs)))
        elif op == PING:
            c.send(frame(PONG, d))
    pump.join(5)
    ctx.count('messages', gm)
    ctx.count('pongs', gp)
    if close:
        ctx.count('closes')
    return closed


def exactly(c, n, timeout):
    """The next n bytes, fewer when the connection ends or nothing more comes."""
    while len(c.buf) - c.pos < n:
        try:
            c.fill(time.monotonic() + timeout)
        except (Timeout, Closed):
            break
    d = bytes(c.buf[c.pos:c.pos + n])
    c.pos += len(d)
    return d


def marathon(ctx, rng, sender, receivers, total, window, key, ops=(BIN, TEXT), reply=None, timeout=25):
    """Numbers every message of a very long conversation and compares every byte of
    what comes; window messages are on their way at once."""
    sent = 0
    while sent < total:
        n = min(total - sent, rng.randrange(max(1, window // 2), window + 1))
        op = rng.choice(list(ops))
        m = rng.getrandbits(32)
        head = bytes([0x80 | op, 0x88]) + struct.pack('>I', m)
        mm = m << 32 | m
        nums = [int.from_bytes(b'%08d' % (i % 100000000), 'big') for i in range(sent, sent + n)]
        wire = b''.join([head + (v ^ mm).to_bytes(8, 'big') for v in nums])
        back = bytes([0x80 | (op if reply is None else reply), 8])
        want = b''.join([back + v.to_bytes(8, 'big') for v in nums])
        t = threading.Thread(target=lambda: sender.send(wire), daemon=True)
        t.start()
        for k, c in enumerate(receivers):
            got = exactly(c, len(want), timeout)
            if got != want:
                i = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), len(got)) // 10
                raise Violation(key, 'message %d of the connection (receiver %d): %r instead of %r' % (sent + i, k, got[10 * i:10 * i + 10], want[10 * i:10 * i + 10]),
                                hang=len(got) < len(want))
        t.join()
        sent += n
    ctx.count('marathon_messages', total)

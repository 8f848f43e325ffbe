"""C11: permessage-deflate is transparent."""
import random
import struct
import threading
import time
import zlib

from vlib import ws
from vlib.check import Scenario, Violation, short
from vlib.work import Exchange, Msg, blob, cuts, negotiated, payload, peer, segments, size, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, ProtocolError, Timeout, frame

PROPERTY = 'C11'
LEVEL = 'exploration'
TECHNIQUE = ('differential monitoring of a real server at its sockets: conversations of a zlib peer that obeys the negotiated parameters, compared with the '
             'uncompressed conversation; sanitizers on the plugin')
NOTE = ('Sampled messages, parameters and schedules; every combination of window sizes and takeover flags that the server can accept is used at least once in the '
        'thorough tier. The peer decompresses with exactly the window it was promised, so that a reference beyond it is an error.')
VARIANTS = ['rel', 'poll', 'asan', 'relc', 'ubsan']
RULE = ('conversations with the echo and broadcast protocols over connections with every kind of accepted negotiation: a case is a message, distinct by the '
        'negotiated parameters, type, size, way of compression and fragmentation')
ASSUMPTIONS = ['zlib is the reference for RFC 1951']

OPTS = [(k, j, c, n) for k in (False, True) for j in (False, True) for c in (None, 8, 9, 12, 15) for n in (None, 9, 10, 13, 15)]


def conf(frame=1048576, buf=32768, ring=1024, workers=4, fragmented=1048576):
    return {'setup': {'size': {'frame': frame, 'buffer': buf, 'ringbuffer': ring, 'fragmented': fragmented}, 'pool': {'workers': workers}}}


def offer(rng, snct, cnct, cbits, sbits):
    """An offer with these parameters; cbits 0 stands for the parameter without value."""
    p = []
    if snct:
        p.append('server_no_context_takeover')
    if cnct:
        p.append('client_no_context_takeover')
    if cbits is not None:
        p.append('client_max_window_bits' + ('=%d' % cbits if cbits else ''))
    if sbits is not None:
        p.append('server_max_window_bits=%d' % sbits)
    rng.shuffle(p)
    return (rng.choice(['; ', ';', ' ; '])).join(['permessage-deflate'] + p)


class Stored:
    """Compresses by other means than a plain sync flush; what a conforming peer
    may do (RFC 7692, 7.2.1 and 7.2.3)."""

    @staticmethod
    def stored(data, rng):
        """Stored blocks only."""
        out = b''
        i = 0
        while i < len(data):
            n = min(len(data) - i, rng.choice([1, 7, 100, 65535]) if len(data) < 5000 else 65535)
            out += b'\0' + struct.pack('<HH', n, n ^ 0xffff) + data[i:i + n]
            i += n
        # ended by an empty stored block without its length
        return out + b'\0'

    @staticmethod
    def start(level, bits, strategy, hist):
        bits = -max(9, bits)
        return zlib.compressobj(level, zlib.DEFLATED, bits, 9, strategy, hist) if hist else zlib.compressobj(level, zlib.DEFLATED, bits, 9, strategy)

    @staticmethod
    def final(data, rng, bits=9, hist=b''):
        """A final block, with the byte that ends the message (7.2.3.4)."""
        c = Stored.start(rng.randrange(0, 10), bits, 0, hist)
        return c.compress(data) + c.flush(zlib.Z_FINISH) + b'\0'

    @staticmethod
    def blocks(data, rng, bits=9, hist=b''):
        """Several blocks of different kinds, flushed in between (7.2.3.5)."""
        c = Stored.start(rng.randrange(1, 10), bits, rng.choice([0, 1, 2, 3, 4]), hist)
        out = b''
        for n in cuts(rng, len(data), rng.randrange(1, 6)):
            out += c.compress(data[:n]) + c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_BLOCK, zlib.Z_PARTIAL_FLUSH]))
            data = data[n:]
        out += c.flush(zlib.Z_SYNC_FLUSH)
        return out[:-4]


class Peer:
    """A client with the negotiated parameters that picks a way to compress for
    each message. What it sent before is its history unless it has agreed to
    forget it, however it was compressed (a final block ends a block, not the
    history)."""
    def __init__(self, rng, params):
        self.rng, self.params = rng, params
        self.d = peer(params, level=rng.choice([1, 6, 9, 0]))
        self.hist = b''

    def compress(self, data):
        d, hist, k = self.d, self.hist, self.rng.random()
        if d.cnct or self.rng.random() < 0.2:
            hist = b''
        if k < 0.15:
            z = Stored.stored(data, self.rng)
        elif k < 0.3:
            z = Stored.blocks(data, self.rng, d.cb, hist)
        elif k < 0.4:
            z = Stored.final(data, self.rng, d.cb, hist)
        else:
            z = d.compress(data, 'full' if k < 0.5 else 'sync')
        self.hist = (self.hist + data)[-32768:]
        if k < 0.4:
            # goes on with what the server's window holds now
            d.c = Stored.start(d.level, d.cb, 0, b'' if d.cnct else self.hist)
        return z

    def decompress(self, data):
        return self.d.decompress(data)


def repeats(rng, n):
    """Content with references at all distances, up to beyond a window of 32768."""
    out = bytearray(rng.randbytes(rng.randrange(1, 300)))
    while len(out) < n:
        k = rng.random()
        if k < 0.3:
            out += rng.randbytes(rng.randrange(1, 600))
        else:
            d = min(len(out), rng.choice([1, 2, 250, 256, 257, 400, 511, 512, 513, 1023, 1025, 4000, 8191, 8193, 16384, 32505, 32506, 32767, 32768, 40000]))
            m = rng.choice([3, 4, 10, 258, 259, 700])
            s = len(out) - d
            out += (bytes(out[s:]) * (m // d + 1))[:m]
    return bytes(out[:n])


def conversation(ctx, variant, config, offers, msgs, cf=None, tls=False, chaos=None, limit=100000, threads=1, history=True):
    c_ = conf(**(cf or {}))
    sz = c_['setup']['size']
    errs = []
    with ctx.server(variant, c_, tls=tls, deflate=config, chaos=chaos) as s:
        def one(i, o):
            ver = [None, '1.2', '1.3'][i % 3] if tls else None
            c = Client(s.https if ver else s.http, tls=ver)
            p = negotiated(c.handshake(extensions=offer(ctx.rng, *o)))
            if p is None:
                raise Violation('transparent:refused', 'the offer %r was not accepted with configuration %r' % (offer(ctx.rng, *o), config))
            pe = Peer(ctx.rng, p)
            c.deflate, c.rsv1_ok = pe, True
            label = '%s <- %s | %s %s' % (sorted(p.items()), o, sorted((cf or {}).items()), ver)
            ex = Exchange(ctx, c, sz['frame'], sz['buffer'], limit=min(limit, 60 * sz['frame']), window=max(1, min(20, (sz['ringbuffer'] - 1) // 2)),
                          max_frames=min(sz['fragmented'], 5000), deflate=pe, label=label)
            ex.run(msgs)
            if history:
                # the same message again and again: answers refer to earlier ones
                data = repeats(ctx.rng, ctx.rng.choice([300, 700, 5000, 33000]))
                for k in range(ctx.rng.randrange(2, 6)):
                    a = ctx.rng.randrange(len(data))
                    m = Msg(ctx.rng, BIN, data[a:] + data[:a], sz['frame'], controls=0.1, ctl_limit=min(125, sz['frame']), deflate=pe, compressed=ctx.rng.random() < 0.8,
                            max_parts=max(1, min(6, sz['fragmented'] - len(data) // sz['frame'] - 3)))
                    if m.nframes <= sz['fragmented']:
                        ex.batch([m])
                        ctx.case((label, 'again', m.nframes, len(data)), sample=m.desc)
            # a close frame with a status does not fit a frame size of one byte
            ctx.check(c.goodbye() == (1000 if sz['frame'] > 1 else 1009), 'transparent:goodbye', 'close status differs')
            ctx.count('connections')
        if threads == 1:
            for i, o in enumerate(offers):
                one(i, o)
        else:
            def run(k):
                try:
                    for i in range(k, len(offers), threads):
                        one(i, offers[i])
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=run, args=(k,)) for k in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]


def room(ctx, variant, config, members, n, tls=False, chaos=None):
    """Members of one broadcast room with different parameters, some without
    compression; each receives what the others sent, whole and in order."""
    rng = ctx.rng
    with ctx.server(variant, conf(), tls=tls, deflate=config, chaos=chaos) as s:
        cs = []
        for i in range(members):
            ver = [None, '1.3'][i % 2] if tls else None
            c = Client(s.https if ver else s.http, tls=ver)
            o = rng.choice(OPTS)
            p = negotiated(c.handshake(protocols='broadcast', extensions=offer(rng, *o) if i % 4 else None))
            c.peer = None
            if p is not None:
                c.peer = Peer(rng, p)
                c.deflate, c.rsv1_ok = c.peer, True
            cs.append(c)
        for c in cs:
            # everybody is a member once its own pings are answered
            c.send(frame(PING, b'in'))
            if c.read_event(20) != (PONG, b'in'):
                raise Violation('transparent:pong', 'no pong')
        for k in range(n):
            i = rng.randrange(members)
            op = rng.choice([TEXT, BIN])
            m = size(rng, 60000, 1048576, 32768)
            data = text(rng, m) if op == TEXT else rng.choice([blob, repeats])(rng, m)
            c = cs[i]
            msg = Msg(rng, op, data, 1048576, deflate=c.peer, compressed=c.peer is not None and rng.random() < 0.8)
            sizes, pause = segments(rng, msg.wire)
            c.send_segments(msg.wire, sizes, pause)
            for j, r in enumerate(cs):
                if j != i:
                    got = r.read_event(20)
                    if got != (op, data):
                        raise Violation('transparent:broadcast', 'member %d (%s) got %d %s instead of %d %s from member %d (%s)' % (
                            j, r.peer and r.peer.params, got[0], short(got[1]), op, short(data), i, c.peer and c.peer.params))
            ctx.case(('room', op, len(data), msg.nframes, str(c.peer and sorted(c.peer.params.items()))), n=members - 1, sample=msg.desc)
        for c in cs:
            ctx.check(c.goodbye() == 1000, 'transparent:goodbye', 'close status differs')


def big(ctx, variant, config, sizes, tls=None):
    """Messages of megabytes, compressible and not."""
    with ctx.server(variant, conf(ring=64), tls=tls is not None, deflate=config) as s:
        for kind in ('zeros', 'noise', 'repeats'):
            c = Client(s.https if tls else s.http, tls=tls, timeout=60)
            p = negotiated(c.handshake(extensions='permessage-deflate; client_max_window_bits'))
            pe = Peer(ctx.rng, p)
            c.deflate, c.rsv1_ok = pe, True
            ex = Exchange(ctx, c, s.frame_size, label='big %s' % kind, timeout=60, deflate=pe)
            for n in sizes:
                data = bytes(n) if kind == 'zeros' else ctx.rng.randbytes(n) if kind == 'noise' else (repeats(ctx.rng, 50000) * (n // 50000 + 1))[:n]
                m = Msg(ctx.rng, BIN, data, s.frame_size, controls=0.2, deflate=pe, compressed=ctx.rng.random() < 0.7)
                ex.batch([m], 'whole')
                ctx.case(('big', kind, n, m.nframes), sample=m.desc)
            c.goodbye()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 40 if deep else 24
    configs = ['', 'server_no_context_takeover', 'client_max_window_bits=9', 'server_max_window_bits=8; client_max_window_bits=8', 'memory_level=1',
               'memory_level=9; chunk_size=7', 'chunk_size=8', 'chunk_size=100; server_max_window_bits=12', 'chunk_size=1000000; memory_level=9',
               'server_max_window_bits=10; client_max_window_bits=15; server_no_context_takeover; chunk_size=4096']
    todo = OPTS * (3 if deep else 1) + (OPTS * 2)[:len(OPTS) // 2]
    rng.shuffle(todo)
    per = len(todo) // len(configs)
    for i, cfg in enumerate(configs):
        out.append(Scenario('conversation-%d' % i, conversation, variant='rel', config=cfg, offers=todo[i * per:(i + 1) * per][:None if deep else 15], msgs=n,
                            limit=5000 if 'chunk_size=7' in cfg or 'chunk_size=8' in cfg else 100000))
    # parameters without a value, all alone and with others
    bare = [(a, b, 0, s) for a in (False, True) for b in (False, True) for s in (None, 9, 15)]
    out.append(Scenario('bare', conversation, variant='rel', config='', offers=bare, msgs=n // 2))
    small = [dict(frame=1000, buf=1000), dict(frame=125), dict(frame=7, buf=32), dict(frame=70000, fragmented=20), dict(buf=64, frame=4096), dict(frame=1)]
    for i, cf in enumerate(small):
        out.append(Scenario('sizes-%d' % i, conversation, variant='rel', config=rng.choice(configs), offers=rng.sample(OPTS, 20 if deep else 5), msgs=n, cf=cf,
                            limit=3000))
    for v, t, ch in (('rel', True, None), ('poll', False, None), ('asan', True, None), ('ubsan', False, None), ('relc', True, (20, 300, 100)), ('relc', False, (200, 100, 5))):
        for k in range(4 if deep else 1):
            out.append(Scenario('%s-%s-%d' % (v, 'tls' if t else 'plain', k), conversation, variant=v, config=rng.choice(configs), offers=rng.sample(OPTS, 20 if deep else 8),
                                msgs=n, tls=t, chaos=ch, limit=20000, threads=4 if v == 'relc' else 1))
    for k in range(4 if deep else 1):
        out.append(Scenario('parallel-%d' % k, conversation, variant='rel', config='', offers=rng.sample(OPTS, 16), msgs=n, threads=8, limit=20000))
        out.append(Scenario('room-%d' % k, room, variant='rel', config=rng.choice(['', 'server_no_context_takeover', 'server_max_window_bits=9']), members=8, n=200 if deep else 40))
        out.append(Scenario('room-tls-%d' % k, room, variant='rel', config='', members=6, n=200 if deep else 40, tls=True))
        out.append(Scenario('room-asan-%d' % k, room, variant='asan', config='', members=5, n=100 if deep else 25, chaos=(30, 300, 10)))
    sizes = [1048575, 1048576, 1048577, 9000001] * (3 if deep else 1)
    out.append(Scenario('big', big, variant='rel', config='', sizes=sizes))
    out.append(Scenario('big-tls', big, variant='rel', config='chunk_size=4096', sizes=sizes[:2], tls='1.3'))
    return out

"""C02: forbidden frames are answered with the right close status, nothing of the
offending message is delivered, everything before it is."""
import struct
import zlib

from vlib.check import Scenario
from checks.c11 import Stored
from vlib.work import Model, Unclear, blob, converse, cuts, negotiated, peer, segments, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, frame

PROPERTY = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'conformance monitoring at the socket: systematic frame headers and random frame streams judged by an RFC 6455 reference model'
NOTE = ('All combinations of opcode, final bit, reserved bits and masking are driven in three positions with lengths at every class boundary '
        '(quick: a random third of them, thorough: all) and every close status (quick: boundaries and a sample). Streams around them are sampled.')
VARIANTS = ['rel', 'poll', 'ubsan']
RULE = ('a case is one connection: some valid traffic, one frame with a given opcode, FIN, RSV, mask, length class, close status and position (idle, '
        'inside a fragmented message, after a control frame inside one), then garbage or nothing; the server must deliver exactly what the '
        'reference model delivers, then close with a status of the set the model allows. Distinct by those attributes; cases without a violation are '
        'kept as controls that must not be closed.')
ASSUMPTIONS = ['where one frame breaks several rules any of their statuses is accepted']

LENS = [0, 1, 2, 3, 125, 126, 127, 200, 65535, 65536]


def conf(size, frag, buf=32768, ring=1024):
    return {'setup': {'size': {'frame': size, 'fragmented': frag, 'buffer': buf, 'ringbuffer': ring}}}


class Conv:
    """Builds a stream of frames together with what the model expects."""
    def __init__(self, rng, size, frag, deflate=None):
        """deflate: the parameters of permessage-deflate, which is offered then"""
        self.rng, self.size = rng, size
        self.model = Model(size, frag, deflate)
        self.params = deflate
        self.z = peer(deflate) if deflate is not None else None
        self.wire, self.expect = b'', []
        self.desc = []
        self.lossy = self.over = False

    @property
    def done(self):
        return self.model.done

    def add(self, op, data=b'', fin=True, rsv=0, mask=True, length=None, lenform=None):
        """length: what the header announces when the data is left out"""
        if self.done:
            return
        n = len(data) if length is None else length
        # too large frames are refused on sight of their header
        if n > max(self.size, 127):
            self.over = True
            if length is None:
                if self.rng.random() < 0.7:
                    length = n
                else:
                    self.lossy = True
        elif length is not None:
            data, length = bytes(n), None
        self.wire += frame(op, b'' if length is not None else data, fin=fin, rsv=rsv, mask=mask, length=length, lenform=lenform)
        self.expect += self.model.feed(op, data, fin, rsv, mask, length)
        self.desc.append('%d%s%s%s[%d]' % (op, '' if fin else '+', '/r%d' % rsv if rsv else '', '' if mask else '/u', n))

    def compressed(self, data):
        r = self.rng.random()
        if r < 0.5:
            return self.z.compress(data)
        z = Stored.blocks(data, self.rng) if r < 0.75 else Stored.final(data, self.rng)
        self.z.new_c()
        return z

    def garbage(self, op, n):
        """A message that is said to be compressed and is not."""
        if self.done:
            return
        data = text(self.rng, n)
        k = self.rng.randrange(4)
        if k == 0:      # a block of the reserved type
            z = b'\x06' + self.rng.randbytes(n)
        elif k == 1:    # a reference beyond the beginning
            z = zlib.compressobj(9, zlib.DEFLATED, -15, zdict=data)
            z = (z.compress(data) + z.flush(zlib.Z_SYNC_FLUSH))[:-4]
        elif k == 2:    # a stored block with the wrong complement
            z = b'\0' + struct.pack('<HH', n, n) + data
        else:
            z = bytearray(self.compressed(text(self.rng, n + 20)))
            for _ in range(self.rng.choice([1, 1, 5])):
                z[self.rng.randrange(len(z))] ^= 1 << self.rng.randrange(8)
            z = bytes(z)
        self.message(op, z[:self.size], 4, False)

    def message(self, op, z, rsv, trust=True):
        """One message of compressed data in one or several frames."""
        self.model.trust = trust
        parts = cuts(self.rng, len(z), self.rng.choice([1, 1, 2, 3]))
        for i, n in enumerate(parts):
            while n > self.size:
                self.add(op, z[:self.size], fin=False, rsv=rsv)
                z, op, rsv, n = z[self.size:], CONT, 0, n - self.size
            self.add(op, z[:n], fin=i == len(parts) - 1, rsv=rsv)
            z, op, rsv = z[n:], CONT, 0
            if i < len(parts) - 1 and self.rng.random() < 0.3:
                self.add(PING, b'between')
        self.model.trust = False

    def text(self, n=None, **kw):
        n = self.rng.randrange(0, min(200, self.size)) if n is None else n
        self.add(TEXT, text(self.rng, n), **kw)

    def filler(self, k):
        for _ in range(k):
            r = self.rng.random()
            n = self.rng.randrange(0, min(self.size, self.rng.choice([3, 130, 400])) + 1)
            if self.z is not None and r < 0.55:
                if not self.done:
                    self.message(self.rng.choice([TEXT, BIN]), self.compressed(text(self.rng, n)), 4)
            elif r < 0.3:
                self.text()
            elif r < 0.6:
                self.add(BIN, blob(self.rng, n))
            elif r < 0.75:
                self.add(PING, self.rng.randbytes(min(n, 125)))
            elif r < 0.8:
                self.add(PONG, self.rng.randbytes(min(n, 125)))
            else:
                d = text(self.rng, n)
                a = self.rng.randrange(0, n + 1)
                self.add(TEXT, d[:a], fin=False)
                if self.rng.random() < 0.5:
                    self.add(PING, b'mid')
                self.add(CONT, d[a:])


def play(ctx, s, conv, key=None, tail=b'', style=None):
    c = Client(s.http)
    if conv.z is None:
        c.handshake()
    else:
        p = negotiated(c.handshake(extensions='; '.join(['permessage-deflate'] + sorted(conv.params))))
        # what the conversation was made for
        ctx.check(p is not None and 'client_max_window_bits' not in p and
                  bool(p.get('client_no_context_takeover')) == bool(conv.params.get('client_no_context_takeover')),
                  'control:negotiated', '%r was offered, the answer is %r' % (conv.params, p))
        c.deflate, c.rsv1_ok = peer(p), True
        ctx.count('deflate_connections')
    c.max_frame = conv.size
    if not conv.done:
        tail = b''
    wire = conv.wire + tail
    sizes, pause = segments(ctx.rng, wire, style)
    desc = ' '.join(conv.desc[-12:])
    ctx.log('frames', desc, 'sizes', sizes[:6])
    converse(ctx, c, wire, conv.expect, sizes, pause, key='violation', desc=desc, lossy=conv.lossy or tail != b'' or
             # the end of the header may come with a later read than its beginning
             (conv.over and (sizes[0] < len(wire) or len(wire) > conv.size)))
    if not conv.done and conv.model.op is None:
        # a stream without a violation stays in service
        m = (b'still here %d' % ctx.rng.randrange(1 << 30))[:conv.size]
        converse(ctx, c, frame(BIN, m), [('msg', BIN, m)], key='control', desc=desc)
        ctx.check(c.goodbye() == (1000 if conv.size > 1 else 1009), 'control:goodbye', desc)
        ctx.count('controls')
    else:
        c.close()
    ctx.count('connections')
    if key is not None:
        ctx.case(key, sample=desc)


def some_params(rng, deflate):
    if not deflate:
        return None
    return {k: True for k in ('client_no_context_takeover', 'server_no_context_takeover') if rng.random() < 0.5}


def headers(ctx, variant, size, frag, part, parts, share, deflate=False):
    """Every combination of the header bits, in three positions."""
    combos = [(op, fin, rsv, mask, ln, pos) for op in range(16) for fin in (1, 0) for rsv in range(8) for mask in (1, 0)
              for ln in LENS for pos in range(3)]
    todo = [x for i, x in enumerate(combos) if i % parts == part and ctx.rng.random() < (1 if x[2] == 0 and x[3] else share)]
    ctx.rng.shuffle(todo)
    with ctx.server(variant, conf(size, frag), deflate='' if deflate else None) as s:
        for op, fin, rsv, mask, ln, pos in todo:
            cv = Conv(ctx.rng, size, frag, some_params(ctx.rng, deflate))
            cv.filler(ctx.rng.choice([0, 0, 1, 3]))
            z = None
            if pos:
                begin, more, comp = b'begin', b'more', 0
                if deflate and not cv.done and ctx.rng.random() < 0.5:
                    # the message is continued by valid data
                    z, comp = cv.compressed(text(ctx.rng, ctx.rng.randrange(0, 60))), 4
                    cv.model.trust = True
                    a, b = sorted(ctx.rng.randrange(len(z) + 1) for _ in range(2))
                    begin, more, z = z[:a], z[a:b], z[b if pos == 2 else a:]
                cv.add(ctx.rng.choice([TEXT, BIN]), begin, fin=False, rsv=comp)
                if pos == 2:
                    cv.add(PING, b'p')
                    cv.add(CONT, more, fin=False)
            if op == CLOSE and ln >= 2:
                data = struct.pack('>H', ctx.rng.choice([1000, 1001, 3000, 4999])) + text(ctx.rng, ln - 2)
            else:
                data = text(ctx.rng, ln)
            if cv.done:
                continue
            if op == CONT and z is not None:
                a = len(z) if fin else ctx.rng.randrange(len(z) + 1)
                data, z = z[:a], z[a:]
            elif op in (TEXT, BIN) and rsv & 4 and deflate:
                data = cv.compressed(text(ctx.rng, min(ln, 60)))
                cv.model.trust = True
                a = len(data) if fin else ctx.rng.randrange(len(data) + 1)
                data, z = data[:a], data[a:]
            cv.add(op, data, fin=bool(fin), rsv=rsv, mask=bool(mask))
            if not cv.done and cv.model.op is not None:
                cv.add(CONT, b'end' if z is None else z)
            cv.filler(ctx.rng.choice([0, 1]))
            play(ctx, s, cv, (op, fin, rsv, mask, ln, pos), tail=ctx.rng.choice([b'', b'', b'', ctx.rng.randbytes(ctx.rng.randrange(1, 200))]))


def statuses(ctx, variant, codes):
    with ctx.server(variant, conf(1000, 1000)) as s:
        for code in codes:
            cv = Conv(ctx.rng, 1000, 1000)
            cv.filler(ctx.rng.choice([0, 0, 0, 1]))
            if ctx.rng.random() < 0.2:
                cv.add(TEXT, b'unfinished', fin=False)
            r = ctx.rng.random()
            reason = b'' if r < 0.4 else text(ctx.rng, ctx.rng.randrange(0, 124))
            if r > 0.9:
                reason = (reason[:100] + ctx.rng.choice([b'\xff', b'\xc0\x80', b'\xed\xa0\x80', b'\xe2\x82', b'\xf4\x90\x80\x80']) + b'x' * ctx.rng.randrange(0, 9))
            cv.add(CLOSE, struct.pack('>H', code) + reason)
            play(ctx, s, cv, ('status', code, r > 0.9), style='whole' if ctx.rng.random() < 0.7 else None)
            ctx.count('close_statuses')


def streams(ctx, variant, n, size, frag, buf, deflate=False):
    """Random streams of frames in which something is wrong sooner or later."""
    with ctx.server(variant, conf(size, frag, buf), deflate='' if deflate else None) as s:
        for _ in range(n):
            try:
                stream(ctx, s, Conv(ctx.rng, size, frag, some_params(ctx.rng, deflate)), size, frag)
            except Unclear:
                ctx.count('unclear')


def stream(ctx, s, cv, size, frag):
    rng = ctx.rng
    bad = rng.random() < 0.85
    for _ in range(rng.randrange(1, 12)):
        if cv.done or len(cv.expect) > 100:
            break
        if bad and rng.random() < 0.3:
            k = rng.randrange(12 if cv.z is None else 15)
            d = rng.randbytes(rng.randrange(0, min(size, 60) + 1))
            if k == 0:
                cv.add(TEXT, b'abc', mask=False)
            elif k == 1:
                cv.add(rng.choice([TEXT, BIN, CONT, PING, CLOSE]), d, rsv=rng.randrange(1, 8))
            elif k == 2:
                cv.add(rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15]), d, fin=rng.random() < 0.7)
            elif k == 3:
                cv.add(rng.choice([PING, PONG, CLOSE]), d, fin=False)
            elif k == 4:
                cv.add(rng.choice([PING, PONG, CLOSE]), b'\x03\xe8' + b'z' * 124, fin=True)
            elif k == 5:
                cv.add(CONT, d, fin=rng.random() < 0.5)
            elif k == 6:
                cv.add(TEXT, text(rng, 3), fin=False)
                cv.add(rng.choice([TEXT, BIN]), d, fin=rng.random() < 0.5)
            elif k == 7:
                cv.add(CLOSE, b'\x03')
            elif k == 8:
                cv.add(CLOSE, struct.pack('>H', rng.choice([0, 999, 1004, 1005, 1006, 1015, 1016, 2999, 5000, 65535])))
            elif k == 9:
                over = rng.choice([size + 1, size + 2, 2 * size + 1, 1 << 31, (1 << 32) + 5, (1 << 63) - 1, 1 << 63, (1 << 64) - 1])
                cv.add(rng.choice([TEXT, BIN]), length=max(over, 126 if over > 125 else over))
            elif k == 10:
                cv.add(BIN, b'a', fin=False)
                for _ in range(min(frag, 60) + 3):
                    cv.add(CONT, b'b', fin=False)
                if not cv.done:
                    cv.add(CONT, b'c')
            elif k == 12:
                if cv.model.op is None:
                    cv.garbage(rng.choice([TEXT, BIN]), rng.randrange(0, 60))
            elif k == 13:
                if cv.model.op is None and not cv.done:
                    cv.message(rng.choice([TEXT, BIN]), cv.compressed(text(rng, rng.randrange(0, 40))), rng.choice([1, 2, 3, 5, 6, 7]))
            elif k == 14:
                if cv.model.op is None and not cv.done:
                    cv.message(TEXT, cv.compressed(text(rng, rng.randrange(0, 20)) + b'\xc3'), 4)
            else:
                cv.add(TEXT, text(rng, rng.randrange(0, 20)) + rng.choice([b'\xff', b'\xc3', b'\xe1\x80', b'\xf8\x88']))
        else:
            if cv.model.op is not None:
                cv.add(CONT, text(rng, min(5, size)), fin=rng.random() < 0.6)
            else:
                cv.filler(1)
    if not cv.done and cv.model.op is not None:
        cv.add(CONT, b'')
    play(ctx, s, cv, ('stream', tuple(d.split('[')[0] for d in cv.desc)[-4:], cv.done), tail=rng.choice([b'', b'', b'', rng.randbytes(30), frame(TEXT, b'late')]))


def limits(ctx, variant, size, frag):
    """Exactly at the limits and one beyond."""
    with ctx.server(variant, conf(size, frag, ctx.rng.choice([64, 1024, 32768]))) as s:
        for op in (TEXT, BIN):
            for n in sorted({0, 1, 125, 126, 127, size - 1, size, size + 1, size + 2, 2 * size}):
                if n < 0 or n > 1 << 22:
                    continue
                for style in ('whole', 'random', 'head'):
                    cv = Conv(ctx.rng, size, frag)
                    cv.add(op, text(ctx.rng, n))
                    play(ctx, s, cv, ('size', size, n, op), style=style)
        for k in sorted({1, 2, frag - 1, frag, frag + 1, frag + 2}):
            if k < 1 or k > 600:
                continue
            for style in ('whole', 'random', None):
                for ctl in (0, 1):
                    cv = Conv(ctx.rng, size, frag)
                    cv.add(BIN, b'f', fin=k == 1)
                    for i in range(1, k):
                        if ctl and i % 3 == 0:
                            cv.add(PING, b'%d' % i)
                        cv.add(CONT, b'f', fin=i == k - 1)
                    cv.filler(1)
                    play(ctx, s, cv, ('fragments', frag, k, ctl), style=style)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    share = 1 if deep else 0.22
    for i in range(6):
        out.append(Scenario('headers-%d' % i, headers, variant=['rel', 'rel', 'poll', 'rel', 'ubsan', 'rel'][i], size=[200, 1048576, 70000, 126, 200, 65535][i],
                            frag=1000, part=i, parts=6, share=share))
        if deep:
            out.append(Scenario('headers-b-%d' % i, headers, variant='rel', size=[125, 1000, 65536, 126, 127, 300][i], frag=3, part=i, parts=6, share=0.5))
        out.append(Scenario('headers-deflate-%d' % i, headers, variant=['rel', 'poll', 'rel', 'rel', 'ubsan', 'rel'][i], size=[70000, 200, 1000, 126, 1048576, 300][i],
                            frag=1000, part=i, parts=6, share=share if deep else 0.12, deflate=True))
    edge = sorted(set(list(range(0, 4)) + list(range(995, 1020)) + list(range(2990, 3010)) + list(range(3990, 4010)) + list(range(4990, 5010)) +
                      [1 << k for k in range(16)] + [(1 << k) - 1 for k in range(17)] + [0xe803, 0xe903]))
    if deep:
        codes = list(range(65536))
        for i in range(16):
            out.append(Scenario('statuses-%d' % i, statuses, variant=['rel', 'poll'][i % 2], codes=codes[i::16]))
    else:
        codes = edge + [rng.randrange(65536) for _ in range(300)] + [rng.randrange(1000, 5000) for _ in range(200)]
        for i in range(3):
            out.append(Scenario('statuses-%d' % i, statuses, variant='rel', codes=codes[i::3]))
    for i, (size, frag, buf) in enumerate([(1000, 50, 32768), (126, 5, 100), (65536, 3, 1024), (300, 1000, 7)]):
        for v in ('rel', 'poll') if deep else (['rel', 'poll', 'rel', 'ubsan'][i],):
            out.append(Scenario('streams-%d-%s' % (i, v), streams, variant=v, n=4000 if deep else 350, size=size, frag=frag, buf=buf))
    for i, (size, frag, buf) in enumerate([(1000, 50, 32768), (126, 20, 100), (65536, 8, 1024), (300, 1000, 64)]):
        for v in ('rel', 'poll') if deep else (['rel', 'poll', 'rel', 'ubsan'][i],):
            out.append(Scenario('streams-deflate-%d-%s' % (i, v), streams, variant=v, n=4000 if deep else 250, size=size, frag=frag, buf=buf, deflate=True))
    for i, (size, frag) in enumerate([(125, 1), (126, 2), (127, 3), (1000, 10), (65535, 64), (65536, 500), (1, 4), (300000, 2)]):
        out.append(Scenario('limits-%d' % i, limits, variant='rel' if i % 2 else 'poll', size=size, frag=frag))
    return out

"""C03: text is accepted if and only if it is valid UTF-8."""
import struct

from vlib import harness
from vlib.check import Scenario, Violation
from vlib.work import blob, converse, cuts, segments, text
from vlib.ws import BIN, CLOSE, CONT, PING, TEXT, Client, frame, utf8_valid

PROPERTY = 'C03'
LEVEL = 'exploration'
TECHNIQUE = ('oracle monitoring: the validator of every CPU flavour against a decoder written from the Unicode standard on exhaustive short and random '
             'long strings (buffer ends at an unreadable page), and the running server against Python\'s decoder')
NOTE = ('All byte strings up to three bytes, all code points and (thorough) all four byte sequences led by 0xED..0xFF are decided at sampled offsets in '
        'all four implementations the source selects by CPU; longer texts and socket conversations are sampled.')
VARIANTS = ['rel', 'poll', 'asan', 'ubsan']
FLAVOURS = ('utf8_v2', 'utf8_v3', 'utf8_v4', 'utf8_dfa')
HARNESSES = {'rel': FLAVOURS, 'asan': FLAVOURS}
RULE = ('a case is a byte string given to the validator (harness scenarios) or a message or close reason sent to the server (socket scenarios: distinct by '
        'kind, fault, offset, length and fragmentation); expected verdict from an independent decoder.')
ASSUMPTIONS = ['the CPU this runs on decides which vector flavours can be executed (count unsupported_cpu)']

FAULTS = [b'\x80', b'\xbf', b'\xc0', b'\xc1', b'\xc0\x80', b'\xc1\xbf', b'\xc2', b'\xdf', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe0\xa0', b'\xe1',
          b'\xe1\x80', b'\xed\xa0\x80', b'\xed\xaf\xbf', b'\xed\xb0\x80', b'\xed\xbf\xbf', b'\xef\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf',
          b'\xf0\x90', b'\xf0\x90\x80', b'\xf1', b'\xf4\x90\x80\x80', b'\xf4\xbf\xbf\xbf', b'\xf5', b'\xf5\x80\x80\x80', b'\xf7\xbf\xbf\xbf', b'\xf8',
          b'\xf8\x88\x80\x80\x80', b'\xfb', b'\xfc', b'\xfe', b'\xff', b'\xff\xff', b'\xfe\xff', b'\xc3\x28', b'\xe2\x28\xa1', b'\xe2\x82\x28',
          b'\xf0\x28\x8c\xbc', b'\xf0\x90\x28\xbc', b'\xf0\x90\x8c\x28', b'\xe2\x82\xac\x80', b'\xf0\x9f\x98\x80\x80', b'\xc2\x80\x80']
GOOD = [b'', b'\x7f', b'\x00', b'\xc2\x80', b'\xdf\xbf', b'\xe0\xa0\x80', b'\xed\x9f\xbf', b'\xee\x80\x80', b'\xef\xbf\xbd', b'\xef\xbf\xbe',
        b'\xef\xbf\xbf', b'\xf0\x90\x80\x80', b'\xf4\x8f\xbf\xbf', b'\xf0\x9f\x98\x80', b'\xef\xbb\xbf', b'\xe2\x80\xa8', b'\xf1\x80\x80\x80']


def exhaustive(ctx, variant, flavour, rounds, depth):
    harness.run(ctx, variant, flavour, [ctx.seed & 0xffffffff, rounds, depth], timeout=200 if depth == 1 else 900)


def embed(rng, core):
    """core at an offset near the ends of vectors, between valid text"""
    k = rng.choice([0, 0, 1, 2, 13, 14, 15, 16, 17, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 125, 127, 128, 1000, rng.randrange(0, 300), rng.randrange(0, 5000)])
    t = rng.choice([0, 0, 1, 2, 3, 15, 16, 31, 32, 63, 64, rng.randrange(0, 300), rng.randrange(0, 5000)])
    if rng.random() < 0.4:
        return b'a' * k + core + b'b' * t, k, t
    return text(rng, k) + core + text(rng, t), k, t


def frames(rng, op, data, parts):
    out = []
    sz = cuts(rng, len(data), parts)
    off = 0
    for i, n in enumerate(sz):
        out.append(frame(op if i == 0 else CONT, data[off:off + n], fin=i == len(sz) - 1))
        off += n
    return out


def texts(ctx, variant, n, conf):
    """Texts, good and bad, in fragments cut anywhere, and binaries with the same bytes."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': conf}}) as s:
        c = None
        for i in range(n):
            if c is None:
                c = Client(s.http)
                c.handshake()
                c.max_frame = conf['frame']
            r = rng.random()
            core = rng.choice(FAULTS) if r < 0.55 else rng.choice(GOOD) if r < 0.8 else rng.randbytes(rng.randrange(1, 5))
            data, k, t = embed(rng, core)
            op = BIN if rng.random() < 0.2 else TEXT
            parts = rng.choice([1, 1, 2, 3, 4, 8])
            if rng.random() < 0.1 and len(data) < 200:
                parts = max(1, len(data))     # a byte each
            fr = frames(rng, op, data, parts)
            if rng.random() < 0.2:
                fr.insert(rng.randrange(0, len(fr)), frame(PING, b'\xff\xfe'))
                pong = [('pong', b'\xff\xfe')]
            else:
                pong = []
            ok = op == BIN or utf8_valid(data)
            wire = b''.join(fr)
            sizes, pause = segments(rng, wire)
            expect = pong + ([('msg', op, data)] if ok else [('close', {1007})])
            desc = '%s of %d bytes, %r at %d, %d frames' % ('text' if op == TEXT else 'binary', len(data), core, k, parts)
            ctx.log(desc, sizes[:5])
            converse(ctx, c, wire, expect, sizes, pause, key='text', desc=desc)
            ctx.case(('text', op, core if r < 0.8 else len(core), k, t, parts), sample=desc)
            ctx.count('valid' if ok else 'invalid')
            if not ok:
                c.close()
                c = None
            elif rng.random() < 0.05:
                c.goodbye()
                c = None


def large(ctx, variant, n, sizes, tls=None):
    """Large texts with one fault, or none, anywhere in them."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': {'frame': 8388608}}}, tls=tls is not None) as s:
        c = None
        block = text(rng, 4096)
        for i in range(n):
            if c is None:
                c = Client(s.https if tls else s.http, tls=tls, timeout=30)
                c.handshake()
                c.max_frame = 8388608
            core = rng.choice(FAULTS) if rng.random() < 0.7 else rng.choice(GOOD)
            size = rng.choice(sizes) + rng.choice([-1, 0, 1, 2, 3, 4, rng.randrange(0, 100)])
            at = rng.choice([0, 1, size, size, size - 1, size - 64, rng.randrange(size), rng.randrange(size), 65536 - 2, 65536, size // 2])
            at = max(0, min(at, size))
            front = (block * (at // 4096 + 1))[:at // 4096 * 4096] + text(rng, at % 4096)
            rest = size - at
            data = front + core + text(rng, rest % 4096) + (block * (rest // 4096 + 1))[:rest // 4096 * 4096]
            parts = rng.choice([1, 1, 2, 3, 10, 150])
            fr = frames(rng, TEXT, data, parts)
            ok = utf8_valid(data)
            desc = 'text of %d bytes, %r at %d, %d frames' % (len(data), core, at, parts)
            converse(ctx, c, b''.join(fr), [('msg', TEXT, data)] if ok else [('close', {1007})], None, 0, key='text', desc=desc)
            ctx.case(('large', core, size, at, parts), sample=desc)
            ctx.count('valid' if ok else 'invalid')
            if not ok:
                c.close()
                c = None


def reasons(ctx, variant, n):
    """The reason in a close frame."""
    rng = ctx.rng
    with ctx.server(variant) as s:
        for i in range(n):
            r = rng.random()
            core = rng.choice(FAULTS) if r < 0.55 else rng.choice(GOOD) if r < 0.8 else rng.randbytes(rng.randrange(1, 5))
            k = rng.choice([0, 1, 13, 14, 15, 29, 30, 31, 32, 60, 61, 62, 63, 64, 118, 123 - len(core), rng.randrange(0, 119)])
            d = (text(rng, k) if rng.random() < 0.5 else b'z' * k) + core
            t = rng.choice([0, 0, 123 - len(d), rng.randrange(0, 124)])
            d += text(rng, max(0, min(t, 123 - len(d))))
            if len(d) > 123:
                continue
            code = rng.choice([1000, 1001, 3000, 4999])
            c = Client(s.http)
            c.handshake()
            wire = frame(CLOSE, struct.pack('>H', code) + d)
            ok = utf8_valid(d)
            expect = [('close', struct.pack('>H', code) if ok else {1007})]
            sizes, pause = segments(rng, wire, rng.choice(['whole', 'random', 'dribble']))
            converse(ctx, c, wire, expect, sizes, pause, key='reason', desc='reason %r' % d[:60])
            ctx.case(('reason', core if r < 0.8 else len(core), k, t), sample='reason %r' % d)
            ctx.count('reasons_valid' if ok else 'reasons_invalid')
            c.close()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    for fl in FLAVOURS:
        out.append(Scenario('exhaustive-' + fl, exhaustive, variant='rel', flavour=fl, rounds=3000000 if deep else 200000, depth=2 if deep else 1,
                            timeout=300))
        out.append(Scenario('exhaustive-asan-' + fl, exhaustive, variant='asan', flavour=fl, rounds=300000 if deep else 20000, depth=1, timeout=300))
    confs = [dict(frame=1048576, buffer=32768), dict(frame=126, buffer=100), dict(frame=31, buffer=64), dict(frame=20000, buffer=1000)]
    for i, cf in enumerate(confs):
        for v in ('rel', 'poll', 'ubsan') if deep else (['rel', 'poll', 'ubsan', 'rel'][i],):
            cf2 = dict(cf)
            big = max(200, cf['frame'])
            out.append(Scenario('texts-%d-%s' % (i, v), texts_small if big < 12000 else texts, variant=v, n=8000 if deep else 600, conf=cf2))
    sizes = [20000, 32768, 65536, 70000, 131072, 262144, 1048576, 1048576, 2500000, 6000000]
    for v, t in (('rel', None), ('poll', '1.3'), ('ubsan', None)):
        out.append(Scenario('large-' + v, large, variant=v, n=400 if deep else 50, sizes=sizes, tls=t, timeout=200))
    for i in range(2):
        out.append(Scenario('reasons-%d' % i, reasons, variant=['rel', 'poll'][i], n=5000 if deep else 400))
    return out


def texts_small(ctx, variant, n, conf):
    """The same with frames that must be small: every fragment within the limit."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': conf}}) as s:
        c = None
        for i in range(n):
            if c is None:
                c = Client(s.http)
                c.handshake()
                c.max_frame = conf['frame']
            r = rng.random()
            core = rng.choice(FAULTS) if r < 0.5 else rng.choice(GOOD) if r < 0.8 else rng.randbytes(rng.randrange(1, 5))
            data, k, t = embed(rng, core)
            fs = conf['frame']
            sz, left = [], len(data)
            while left or not sz:
                z = min(left, rng.choice([fs, fs, rng.randrange(0, fs + 1), rng.randrange(1, fs + 1)]))
                sz.append(z)
                left -= z
                if len(sz) > 3000:
                    sz.append(left)
                    break
            wire, off = b'', 0
            for j, z in enumerate(sz):
                wire += frame(TEXT if j == 0 else CONT, data[off:off + z], fin=j == len(sz) - 1)
                off += z
            ok = utf8_valid(data)
            sizes, pause = segments(rng, wire)
            desc = 'text of %d bytes, %r at %d, %d frames' % (len(data), core, k, len(sz))
            ctx.log(desc, sizes[:5])
            converse(ctx, c, wire, [('msg', TEXT, data)] if ok else [('close', {1007})], sizes, pause, key='text', desc=desc)
            ctx.case(('text', TEXT, core if r < 0.8 else len(core), k, t, len(sz)), sample=desc)
            ctx.count('valid' if ok else 'invalid')
            if not ok:
                c.close()
                c = None

"""C01: the echo protocol returns every message once, intact, in order, in
well-formed frames."""
import threading

from vlib.check import Scenario, Violation
from vlib.work import Exchange, Msg, blob, marathon, payload
from vlib.ws import BIN, TEXT, Client, frame

PROPERTY = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'differential monitoring of a real server at its sockets: random conversations against an RFC 6455 reference model'
NOTE = ('Sampled conversations, configurations and schedules; nothing is enumerated exhaustively. Every byte the server sends is parsed and '
        'compared, so any deviation on the explored executions is seen.')
VARIANTS = ['rel', 'poll', 'ubsan', 'relc']
RULE = ('random conversations with the echo protocol under many configurations (frame, buffer and ring sizes), event loops and TLS: '
        'message sizes around all format and buffer limits, random fragmentation, masking keys, TCP segmentation, pipelining and interleaved '
        'control frames; every returned message is compared byte for byte and every server frame checked for form. A case is a message, distinct '
        'by type, size, number of frames and configuration; empty single-frame messages are trivial.')
ASSUMPTIONS = ['a client never has more messages outstanding than half of what the ring buffer holds (the server may still release the others; see C15)']


def conf(frame=1048576, buf=32768, ring=1024, workers=4, fragmented=1048576):
    return {'setup': {'size': {'frame': frame, 'buffer': buf, 'ringbuffer': ring, 'fragmented': fragmented}, 'pool': {'workers': workers}}}


CONFS = [
    dict(), dict(buf=1024), dict(buf=64, frame=4096), dict(frame=125), dict(frame=126), dict(frame=127), dict(frame=1000, buf=1000),
    dict(frame=65535), dict(frame=65536), dict(frame=7, buf=32), dict(ring=8), dict(ring=3, frame=500), dict(buf=65536, workers=1),
    dict(frame=70000, workers=8), dict(frame=128, buf=127, workers=2), dict(frame=1), dict(buf=1, frame=300), dict(fragmented=40, frame=300),
]


def conversation(ctx, variant, cf, tls, conns, msgs, threads=1, chaos=None):
    c_ = conf(**cf)
    sz = c_['setup']['size']
    errs = []
    with ctx.server(variant, c_, tls=tls, chaos=chaos) as s:
        def one(i, sub):
            ver = [None, None, '1.2', '1.3'][i % 4] if tls else None
            c = Client(s.https if ver else s.http, tls=ver)
            c.handshake()
            frag = min(sz['fragmented'], 5000)
            ex = Exchange(sub, c, sz['frame'], sz['buffer'], limit=200000 if sz['buffer'] > 500 and sz['frame'] > 100 else min(3000, 300 * sz['frame']),
                          window=max(1, min(60, (sz['ringbuffer'] - 1) // 2)), max_frames=frag,
                          label='%s %s' % (sorted(cf.items()), ver))
            ex.run(msgs)
            # a close frame with a status does not fit a frame size of one byte
            ctx.check(c.goodbye() == (1000 if sz['frame'] > 1 else 1009), 'echo:goodbye', 'close status differs')
            ctx.count('connections')
        if threads == 1:
            for i in range(conns):
                one(i, ctx)
        else:
            def run(i):
                try:
                    for k in range(conns // threads):
                        one(i + k, ctx)
                except Exception as e:
                    errs.append(e)
            ts = [threading.Thread(target=run, args=(i,)) for i in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]


def big(ctx, variant, tls, sizes):
    """Messages of several megabytes, in as few frames as possible and in many."""
    with ctx.server(variant, conf(ring=64), tls=tls) as s:
        for ver in ([None, '1.3'] if tls else [None]):
            c = Client(s.https if ver else s.http, tls=ver)
            c.handshake()
            ex = Exchange(ctx, c, s.frame_size, label='big %s' % ver, timeout=60)
            for n in sizes:
                m = Msg(ctx.rng, BIN, blob(ctx.rng, n), s.frame_size, controls=0.2)
                ex.batch([m], ctx.rng.choice(['whole', 'random']))
                ctx.case(('big', n, m.nframes, ver), sample=m.desc)
            c.goodbye()


def stream(ctx, variant, n, tls):
    """A long pipeline of small numbered messages, read at the same time."""
    with ctx.server(variant, conf(ring=16384), tls=tls) as s:
        c = Client(s.https if tls else s.http, tls=tls)
        c.handshake()
        c.max_frame = s.frame_size
        want = [(ctx.rng.choice([TEXT, BIN]), b'%d:' % i + b'x' * ctx.rng.choice([0, 1, 5, 117, 118, 119, 120, 121, 122, 300])) for i in range(n)]
        wire = b''.join(frame(op, d) for op, d in want)
        err = []

        def push():
            try:
                i = 0
                while i < len(wire):
                    k = ctx.rng.choice([1, 2, 3, 7, 100, 1000, 1448, 5000, 20000])
                    c.send(wire[i:i + k])
                    i += k
            except Exception as e:
                err.append(e)
        t = threading.Thread(target=push, daemon=True)
        t.start()
        for i, w in enumerate(want):
            got = c.read_event(20)
            if got != w:
                raise Violation('echo:stream', 'message %d: %r expected %r' % (i, got[1][:30], w[1][:30]))
        t.join()
        ctx.check(c.quiet(0.2), 'echo:extra', 'more than what was sent')
        ctx.count('messages', n)
        ctx.case(('stream', variant, tls), n=n, sample='%d pipelined messages' % n)
        c.goodbye()


def long(ctx, variant, n, tls, ring=8192):
    """More messages on one connection than small counters can hold."""
    with ctx.server(variant, conf(ring=ring), tls=tls) as s:
        c = Client(s.https if tls else s.http, tls=tls)
        c.handshake()
        marathon(ctx, ctx.rng, c, [c], n, (ring - 1) // 2, 'echo:marathon')
        ctx.check(c.quiet(0.1), 'echo:extra', 'more than what was sent')
        ctx.case(('long', variant, tls), n=n, sample='%d messages on one connection' % n)
        c.goodbye()


def crumbs(ctx, variant, ns, tls):
    """Messages in very many fragments, empty ones among them."""
    rng = ctx.rng
    with ctx.server(variant, conf(), tls=tls) as s:
        c = Client(s.https if tls else s.http, tls=tls)
        c.handshake()
        for n in ns:
            op = rng.choice([TEXT, BIN])
            parts = [bytes([rng.randrange(32, 127)]) * rng.choice([0, 1, 1, 2]) for _ in range(n)]
            data = b''.join(parts)
            m = rng.randbytes(4)
            wire = b''.join(frame(op if i == 0 else 0, p, fin=i + 1 == n, key=m) for i, p in enumerate(parts))
            t = threading.Thread(target=lambda: c.send(wire), daemon=True)
            t.start()
            got = c.read_message(60)
            t.join()
            ctx.check(got == (op, data), 'echo:fragments', 'a message of %d bytes in %d frames came back as %d bytes' % (len(data), n, len(got[1])))
            ctx.case(('crumbs', variant, tls, n), sample='%d bytes in %d frames' % (len(data), n))
        c.goodbye()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 60 if deep else 26
    for i, cf in enumerate(CONFS):
        out.append(Scenario('conversation-%d' % i, conversation, variant='rel', cf=cf, tls=False, conns=(30 if deep else 6), msgs=n))
    for v, tls in (('rel', True), ('poll', False), ('ubsan', False), ('poll', True)):
        for i in ((0, 2, 5, 10) if not deep else range(len(CONFS))):
            out.append(Scenario('conversation-%s-%s-%d' % (v, 'tls' if tls else 'plain', i), conversation, variant=v, cf=CONFS[i], tls=tls,
                                conns=(24 if deep else 6), msgs=n))
    for i in range(8 if deep else 2):
        out.append(Scenario('parallel-%d' % i, conversation, variant='rel', cf=rng.choice(CONFS[:9]), tls=bool(i % 2), conns=16, threads=8, msgs=n))
    for i in range(16 if deep else 4):
        # delays and the faults a kernel may show
        v = ['relc', 'relc', 'relc', 'poll'][i % 4]
        out.append(Scenario('faults-%s-%d' % (v, i), conversation, variant=v, cf=[dict(), dict(buf=1024), dict(frame=1000, buf=1000), dict(ring=16)][(i + i // 4) % 4], tls=i % 4 == 2,
                            conns=16, threads=4, msgs=n, chaos=[(20, 300, 100), (300, 50, 5), (100, 1000, 20), (50, 200, 200)][i % 4]))
    sizes = [1048575, 1048576, 1048577, 2097152, 9000001, 3145729]
    out.append(Scenario('big', big, variant='rel', tls=True, sizes=sizes if not deep else sizes * 3 + [16777216, 8000001]))
    out.append(Scenario('big-poll', big, variant='poll', tls=False, sizes=sizes))
    for v, tls in (('rel', None), ('rel', '1.3'), ('poll', None)):
        out.append(Scenario('long-%s-%s' % (v, 'tls' if tls else 'plain'), long, variant=v, n=1000000 if deep else 140000, tls=tls, timeout=200))
    out.append(Scenario('long-ring', long, variant='rel', n=70000, tls=None, ring=1024, timeout=200))
    out.append(Scenario('crumbs', crumbs, variant='rel', ns=[300, 5000, 33000, 66000] + ([200000, 400000] if deep else []), tls=None, timeout=200))
    out.append(Scenario('crumbs-tls', crumbs, variant='rel', ns=[300, 5000, 33000], tls='1.2', timeout=200))
    out.append(Scenario('stream', stream, variant='rel', n=20000 if deep else 4000, tls=None))
    out.append(Scenario('stream-tls', stream, variant='rel', n=20000 if deep else 2500, tls='1.3'))
    out.append(Scenario('stream-poll', stream, variant='poll', n=20000 if deep else 2500, tls=None))
    return out

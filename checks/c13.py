"""C13: pings are answered, close handshakes are completed."""
import random
import struct
import threading
import time

from checks.c02 import Conv
from vlib.check import Scenario, Violation, short
from vlib.work import Pump, marathon, blob, converse, payload, segments, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, Timeout, fnv, frame

PROPERTY = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('conformance monitoring at the socket: random streams of pings, pongs, fragments and close frames judged by a reference model, with slow readers, '
             'concurrent broadcasts, injected delays and kernel faults')
NOTE = 'Sampled streams and schedules; every legal close status class and every control payload length 0..125 is used in each run.'
VARIANTS = ['rel', 'poll', 'relc', 'tsan']
RULE = ('a case is one connection with pings, pongs, messages and possibly a close, distinct by its sequence of frames; every pong and the close are compared with '
        'what the model demands, the stream must end right after the close frame')
ASSUMPTIONS = []

CODES = [1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 3000, 3999, 4000, 4999]


LATE = b'a message after the close frame'


def conf(ring=1024, size=1048576, buf=32768, workers=4):
    return {'setup': {'size': {'frame': size, 'fragmented': 10000, 'buffer': buf, 'ringbuffer': ring}, 'pool': {'workers': workers}}}


def closing(rng, limit=1048576):
    """(payload of a close frame that is legal, its key)"""
    k = rng.random()
    if k < 0.2:
        return b'', None
    code = rng.choice(CODES)
    n = rng.choice([0, 0, 1, 10, 122, 123, rng.randrange(0, 124)])
    return struct.pack('>H', code) + text(rng, n), code


def streams(ctx, variant, n, tls=False, chaos=None, threads=1, ring=1024, size=1048576, buf=32768):
    errs = []
    with ctx.server(variant, conf(ring, size, buf), tls=tls, chaos=chaos, rec=True) as s:
        def one(rng):
            cv = Conv(rng, size, 10000)
            most = min(60, ring // 2 - 2)

            def ping():
                k = min(rng.choice([0, 1, 2, 4, 16, 124, 125, rng.randrange(0, 126)]), size)
                d = rng.randbytes(k) if rng.random() < 0.7 else b'\xff' * k
                cv.add(PING, d)
            # parts of it: runs of pings, pings in messages, unsolicited pongs
            while len(cv.expect) < rng.randrange(1, most) and len(cv.desc) < 200:
                k = rng.random()
                if k < 0.35:
                    for _ in range(rng.randrange(1, 12)):
                        ping()
                elif k < 0.5:
                    cv.add(PONG, rng.randbytes(min(rng.randrange(0, 126), size)))
                elif k < 0.6:
                    cv.filler(1)
                else:
                    op = rng.choice([TEXT, BIN])
                    d = payload(rng, op, rng.choice([0, 1, 5, 130, 1000, 20000]))
                    at = 0
                    first = True
                    while True:
                        m = min(size, rng.randrange(0, len(d) - at + 1) if rng.random() < 0.8 else len(d) - at)
                        last = at + m == len(d) and rng.random() < 0.7
                        cv.add(op if first else CONT, d[at:at + m], fin=last)
                        first = False
                        at += m
                        if last:
                            break
                        for _ in range(rng.choice([0, 1, 1, 3])):
                            if rng.random() < 0.75:
                                ping()
                            else:
                                cv.add(PONG, rng.randbytes(min(7, size)))
                if len(cv.expect) > most:
                    break
            tail = b''
            how = rng.random()
            code = 'open'
            if how < 0.75:
                d, code = closing(rng)
                if len(d) > size:
                    d, code = b'', None
                if rng.random() < 0.2:
                    cv.add(TEXT, b'unfini', fin=False)
                cv.add(CLOSE, d)
                if rng.random() < 0.35:
                    # nothing of this may be answered
                    tail = b''.join(rng.choice([frame(PING, b'late'), frame(TEXT, LATE), frame(CLOSE, b'\x03\xe8'), frame(CLOSE), rng.randbytes(20)]) for _ in range(rng.randrange(1, 4)))
            t = rng.choice([None, '1.2', '1.3']) if tls else None
            c = Client(s.https if t else s.http, tls=t)
            c.handshake(protocols=rng.choice([None, 'rec', 'rec']))
            c.max_frame = size
            wire = cv.wire + tail
            sizes, pause = segments(rng, wire)
            desc = ' '.join(cv.desc[-14:])
            ctx.log(desc, 'tail', len(tail), 'segments', sizes[:6])
            converse(ctx, c, wire, cv.expect, sizes, pause, key='control', desc=desc, lossy=tail != b'')
            if not cv.done:
                ctx.check(c.quiet(0.05), 'control:extra', 'more than what was to be answered')
                if cv.model.op is None:
                    ctx.check(c.goodbye() == (1000 if size > 1 else 1009), 'control:goodbye', desc)
            c.close()
            ctx.case((tuple(cv.desc), code), n=1, sample=desc)

        if threads == 1:
            for i in range(n):
                one(ctx.rng)
        else:
            def run(rng):
                try:
                    for i in range(n // threads):
                        one(rng)
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=run, args=(random.Random(ctx.rng.random()),)) for _ in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
        ctx.check(s.stop(40) == 0, 'control:exit', str(s.reports()))
        not_late(ctx, s)
        s.proc = None


def not_late(ctx, s):
    """What came after the close frame was not delivered."""
    n = 0
    for e in s.events():
        if e[0] == 'MESSAGE':
            n += 1
            ctx.check(int(e[4], 16) != fnv(LATE), 'control:late', 'a message that was sent after the close frame was delivered')
    ctx.count('deliveries_examined', n)


def pending(ctx, variant, n, tls=False, chaos=None):
    """The answer to a big message cannot be written at once; pings and the close
    frame come while it is pending. Their answers must follow it, not be within it."""
    rng = ctx.rng
    with ctx.server(variant, conf(ring=256), tls=tls, chaos=chaos) as s:
        for i in range(n):
            t = rng.choice([None, '1.2', '1.3']) if tls else None
            c = Client(s.https if t else s.http, tls=t, rcvbuf=4096)
            c.handshake()
            d = blob(rng, rng.choice([600000, 1000000, 3000000]) if rng.random() < 0.8 else 50000)
            parts = [d[k:k + 1048576] for k in range(0, len(d), 1048576)]
            wire = b''.join(frame(BIN if k == 0 else CONT, p, fin=k == len(parts) - 1) for k, p in enumerate(parts))
            expect = [('msg', BIN, d)]
            desc = ['%d bytes' % len(d)]
            for k in range(rng.randrange(0, 20)):
                if rng.random() < 0.6:
                    p = rng.randbytes(rng.choice([0, 4, 125]))
                    wire += frame(PING, p)
                    expect.append(('pong', p))
                    desc.append('ping %d' % len(p))
                else:
                    m = payload(rng, TEXT, rng.choice([0, 3, 300]))
                    wire += frame(TEXT, m)
                    expect.append(('msg', TEXT, m))
                    desc.append('text %d' % len(m))
            if rng.random() < 0.8:
                p, code = closing(rng)
                wire += frame(CLOSE, p)
                expect.append(('close', p))
                desc.append('close %s' % code)
            p = Pump(c, [(wire, [len(wire)], 0)])
            time.sleep(rng.choice([0.01, 0.05, 0.15]))
            p.join(20)
            converse(ctx, c, b'', expect, key='pending', desc=' '.join(desc))
            c.close()
            ctx.case(('pending', tuple(desc), t), sample=' '.join(desc))


def leaving(ctx, variant, n, talkers=3, tls=False, chaos=None):
    """Members leave a busy room by a close frame: exactly one close frame comes
    back, as the last thing, among the broadcasts."""
    with ctx.server(variant, conf(ring=8192), tls=tls, chaos=chaos, leaks=variant != 'tsan') as s:
        over = threading.Event()
        errs = []
        sent = [0]

        def talk(rng):
            try:
                c = Client(s.http)
                c.handshake(protocols='broadcast')
                while not over.is_set():
                    c.send(frame(BIN, rng.randbytes(rng.choice([0, 5, 125, 126, 3000]))))
                    sent[0] += 1
                    # reads what others say
                    try:
                        while True:
                            c.read_event(0.001)
                    except Timeout:
                        pass
                    time.sleep(rng.random() * 0.002)
                c.close()
            except Exception as e:
                if not over.is_set():
                    errs.append(e)
        ts = [threading.Thread(target=talk, args=(random.Random(ctx.rng.random()),), daemon=True) for _ in range(talkers)]
        for t in ts:
            t.start()
        rng = ctx.rng
        try:
            for i in range(n):
                t = rng.choice([None, '1.3']) if tls else None
                c = Client(s.https if t else s.http, tls=t)
                c.handshake(protocols='broadcast')
                heard = pongs = 0
                pings = rng.randrange(0, 4)
                for k in range(pings):
                    c.send(frame(PING, b'%d' % k))
                    time.sleep(rng.random() * 0.002)
                p, code = closing(rng)
                c.send(frame(CLOSE, p))
                closed = None
                while True:
                    try:
                        op, d = c.read_event(20)
                    except Closed as e:
                        if e.rest:
                            raise Violation('leaving:trailing', 'bytes after the close frame: %r' % e.rest[:40])
                        if closed is None:
                            raise Violation('leaving:unanswered', 'the stream ended without an answer to close %r' % code)
                        break
                    if closed is not None:
                        raise Violation('leaving:after-close', 'frame %d after the close frame' % op)
                    if op == CLOSE:
                        closed = d
                    elif op == PONG:
                        if d != b'%d' % pongs:
                            raise Violation('leaving:pong', '%r instead of pong %d' % (d, pongs))
                        pongs += 1
                    else:
                        heard += 1
                got = struct.unpack('>H', closed[:2])[0] if closed else None
                if got != code:
                    raise Violation('leaving:status', 'close %r was answered with %r' % (code, got))
                if pongs != pings:
                    raise Violation('leaving:lost-pong', '%d of %d pongs before the close' % (pongs, pings))
                c.close()
                ctx.count('heard_while_leaving', heard)
                ctx.case(('leaving', code, len(p), heard, pings, t), sample='close %r after %d broadcasts' % (code, heard))
        finally:
            over.set()
        for t in ts:
            t.join(10)
        if errs:
            raise errs[0]
        ctx.count('broadcasts', sent[0])


def long(ctx, variant, n, tls=None):
    """More pings on one connection than small counters can hold."""
    with ctx.server(variant, conf(ring=8192), tls=tls is not None) as s:
        c = Client(s.https if tls else s.http, tls=tls, timeout=30)
        c.handshake()
        marathon(ctx, ctx.rng, c, [c], n, 4000, 'control:marathon', ops=[PING], reply=PONG)
        ctx.case(('long', variant, tls), n=n, sample='%d pings on one connection' % n)
        ctx.check(c.goodbye() == 1000, 'control:goodbye')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 10 if deep else 1
    out = []
    out.append(Scenario('streams', streams, variant='rel', n=300 * k))
    out.append(Scenario('streams-tls', streams, variant='rel', n=150 * k, tls=True))
    out.append(Scenario('streams-poll', streams, variant='poll', n=150 * k))
    out.append(Scenario('streams-small', streams, variant='rel', n=150 * k, size=125, buf=64))
    out.append(Scenario('streams-ring', streams, variant='rel', n=100 * k, ring=16))
    out.append(Scenario('streams-parallel', streams, variant='rel', n=200 * k, threads=8, tls=True))
    for i, ch in enumerate([(20, 300, 100), (200, 100, 5), (60, 1000, 50)]):
        out.append(Scenario('streams-faults-%d' % i, streams, variant='relc', n=100 * k, threads=4, chaos=ch, tls=i == 1))
    out.append(Scenario('long', long, variant='rel', n=140000 * k, timeout=200))
    out.append(Scenario('long-tls', long, variant='poll', n=70000 * k, tls='1.3', timeout=200))
    out.append(Scenario('pending', pending, variant='rel', n=25 * k))
    out.append(Scenario('pending-tls', pending, variant='rel', n=20 * k, tls=True))
    out.append(Scenario('pending-poll', pending, variant='poll', n=15 * k))
    out.append(Scenario('pending-faults', pending, variant='relc', n=15 * k, tls=True, chaos=(20, 300, 100)))
    out.append(Scenario('leaving', leaving, variant='rel', n=150 * k))
    out.append(Scenario('leaving-tls', leaving, variant='rel', n=100 * k, tls=True))
    out.append(Scenario('leaving-poll', leaving, variant='poll', n=80 * k))
    out.append(Scenario('leaving-faults', leaving, variant='relc', n=80 * k, chaos=(20, 300, 100)))
    out.append(Scenario('leaving-delays', leaving, variant='relc', n=60 * k, chaos=(200, 200, 0)))
    out.append(Scenario('leaving-places', leaving, variant='relc', n=60 * k, chaos=(300, 1000, 20, 150)))
    out.append(Scenario('leaving-tsan', leaving, variant='tsan', n=40 * k))
    return out

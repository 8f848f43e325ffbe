"""C15: a slow reader gets an intact, gap-free stream or is disconnected."""
import random
import threading
import time

from checks.c14 import parallel
from vlib.check import Scenario, Violation, short
from vlib.work import Msg, Pump, blob, differ, negotiated, peer, segments
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, generated

PROPERTY = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('online trace checking of everything a slow reader reads against what was produced for it (sequence automata), under blocked and partial writes, '
             'injected short writes and delays, full rings, broadcasts and server pings, with the progress of the other clients watched')
NOTE = 'Sampled reading speeds, sizes and schedules. A reader is only allowed to be disconnected when more messages were outstanding for it than fit into half of its ring buffer.'
VARIANTS = ['rel', 'poll', 'relc', 'tsan', 'asan']
RULE = ('a case is one slow reader; distinct by its configuration, amount outstanding and reading pattern. Whether it is nontrivial is measured: the server must '
        'have been unable to write for a while (the reader paused with more outstanding than the socket buffers hold).')
ASSUMPTIONS = ['more than (ringbuffer-1)/2 outstanding messages may get a reader disconnected']


class Slow(Client):
    """A client with a pace: (bytes at a time, seconds between) until a budget of time is spent."""
    pace = None

    def recv_some(self):
        pass

    def fill(self, deadline):
        if self.pace is not None:
            n, pause = self.pace.step()
            if pause:
                time.sleep(pause)
            real = self.sock
            self.sock = Narrow(real, n)
            try:
                return Client.fill(self, deadline)
            finally:
                self.sock = real
        return Client.fill(self, deadline)


class Narrow:
    def __init__(self, s, n):
        self.s, self.n = s, n

    def recv(self, n):
        return self.s.recv(min(n, self.n))

    def __getattr__(self, k):
        return getattr(self.s, k)


class Pace:
    def __init__(self, rng, budget, first=None):
        self.rng, self.end = rng, time.monotonic() + budget
        self.first = first if first is not None else rng.choice([0, 0.05, 0.3, 0.6])
        self.style = rng.choice(['drip', 'burst', 'random', 'steady'])
        self.n = 0

    def step(self):
        self.n += 1
        r = self.rng
        if self.n == 1:
            return 65536, self.first
        if time.monotonic() > self.end:
            return 1 << 20, 0
        if self.style == 'drip':
            return r.choice([1, 2, 7, 100]), 0 if r.random() < 0.9 else 0.001
        if self.style == 'burst':
            return 1 << 18, 0 if r.random() < 0.8 else r.choice([0.01, 0.1, 0.3])
        if self.style == 'steady':
            return 20000, 0.001
        return r.choice([1, 3, 500, 1460, 4096, 16384, 65536, 1 << 20]), 0 if r.random() < 0.7 else r.choice([0.0005, 0.005, 0.05])


def opened(s, rng, tls, proto='echo', deflate=None, rcvbuf=4096, cls=Slow):
    t = rng.choice(['1.2', '1.3']) if tls else None
    c = cls(s.https if t else s.http, tls=t, timeout=40, rcvbuf=rcvbuf)
    h = c.handshake(protocols=proto, extensions=deflate)
    p = negotiated(h)
    if p is not None:
        c.deflate = peer(p, level=1)
        c.rsv1_ok = True
    return c


def conf(ring, frame_size=1048576, workers=4, pings=None, buf=32768):
    t = {'client': 30000, 'pings': pings} if pings else {}
    return {'setup': {'size': {'ringbuffer': ring, 'frame': frame_size, 'buffer': buf}, 'pool': {'workers': workers}, 'timeouts': t}}


def follow(c, expect, what, timeout=60, partial=False, pings=False):
    """Reads the expected events in their order. With partial the server may end
    the connection after any of the bytes. Returns the number read."""
    end = time.monotonic() + timeout
    i = 0
    while i < len(expect):
        try:
            op, d = c.read_event(max(0.001, end - time.monotonic()))
        except Timeout:
            raise Violation('slow:stuck', '%s: %d of %d arrived, then nothing' % (what, i, len(expect)), hang=True)
        except Closed as e:
            if partial:
                return i
            raise Violation('slow:closed', '%s: disconnected after %d of %d, %r' % (what, i, len(expect), e))
        if op == PING and pings:
            continue
        if op == CLOSE and partial:
            return i
        if (op, d) != expect[i]:
            for j, x in enumerate(expect):
                if x == (op, d):
                    raise Violation('slow:order', '%s: event %d came in the place of event %d' % (what, j, i))
            raise Violation('slow:differs', '%s: event %d: opcode %d instead of %d, %s' % (what, i, op, expect[i][0], differ(expect[i][1], d)))
        i += 1
    return i


def echo(ctx, variant, n, ring, tls=False, deflate=None, chaos=None, frame_size=1048576, pings=None, big=True, threads=2):
    """Echoes that are within the allowance: all must arrive, in order."""
    with ctx.server(variant, conf(ring, frame_size, pings=pings), tls=tls, deflate=deflate, chaos=chaos) as s:
        def one(rng):
            t = tls and rng.random() < 0.6
            c = opened(s, rng, t, deflate=rng.choice([None, 'permessage-deflate; client_max_window_bits']) if deflate is not None else None)
            c.max_frame = frame_size
            most = max(1, (ring - 1) // 2 - (60 if pings else 0))
            total = rng.choice([100000, 3000000, 7000000]) if big else rng.choice([2000, 60000])
            expect, wire = [], []
            size = 0
            while len(expect) < most and size < total:
                if rng.random() < 0.2:
                    d = rng.randbytes(min(rng.randrange(0, 126), frame_size))
                    expect.append((PONG, d))
                    wire.append(frame(PING, d))
                    continue
                k = rng.choice([0, 1, 125, 126, 1000, 60000, 65535, 65536, 300000, 1000000] if big else [0, 1, 125, 126, 127, 1000, 5000])
                d = blob(rng, k)
                m = Msg(rng, BIN, d, frame_size, deflate=c.deflate, compressed=c.deflate is not None and rng.random() < 0.6)
                expect.append((BIN, d))
                wire.append(m.wire() if callable(getattr(m, 'wire', None)) else m.wire)
                size += k
            what = '%d messages, %d bytes%s%s' % (len(expect), size, ' tls' if t else '', ' deflate' if c.deflate else '')
            c.pace = Pace(rng, rng.choice([0.5, 2]))
            what += ' ' + c.pace.style
            ctx.log(what)
            p = Pump(c, [(b''.join(wire), [rng.choice([1 << 20, 65536, 4096 if size < 1000000 else 1 << 18])], 0)])
            follow(c, expect, what, pings=pings is not None)
            if not p.join(20):
                raise Violation('slow:stuck', '%s: the server takes no more' % what, hang=True)
            c.pace = None
            while True:
                c.send(frame(PING, b'end'))
                op, d = c.read_event(20)
                while op == PING and pings:
                    op, d = c.read_event(20)
                ctx.check((op, d) == (PONG, b'end'), 'slow:surplus', '%s: opcode %d %r at the end' % (what, op, d[:40]))
                break
            c.close()
            ctx.case((variant, ring, frame_size, t, c.deflate is not None, what), nontrivial=size > 1000000 or not big, sample=what)
            ctx.count('bytes_echoed', size)

        def many(rng):
            def fn():
                for _ in range(n):
                    one(rng)
            return fn
        parallel(ctx, [many(random.Random(ctx.rng.random())) for _ in range(threads)])


def overload(ctx, variant, n, ring, tls=False, chaos=None, deflate=None):
    """More is produced than fits: a gap-free prefix arrives, and either all of it or the end of the connection."""
    rng = ctx.rng
    with ctx.server(variant, conf(ring), tls=tls, rec=True, deflate=deflate, chaos=chaos) as s:
        for i in range(n):
            t = tls and rng.random() < 0.6
            k = rng.choice([ring // 2, ring, 2 * ring, 5 * ring, 50])
            size = rng.choice([10, 1000, 70000, 400000]) if k < 200 else rng.choice([10, 2000, 20000])
            ext = 'permessage-deflate' if deflate is not None and rng.random() < 0.5 else None
            c = opened(s, rng, t, proto=rng.choice(['rec', 'rec', 'echo']), deflate=ext)
            byrec = rng.random() < 0.5
            c2 = None
            c.close()
            c = opened(s, rng, t, proto='rec' if byrec else 'echo', deflate=ext)
            c.pace = Pace(rng, rng.choice([0.2, 1]), first=rng.choice([0, 0.1, 0.5]))
            if byrec:
                expect = [(BIN, generated(size, j) if size <= 2000 else None) for j in range(k)]
                c.send(frame(TEXT, b'!send %d %d %d' % (k, size, BIN)))
                p = None
            else:
                d = [b'%d:' % j + blob(rng, size) for j in range(k)]
                expect = [(BIN, x) for x in d]
                p = Pump(c, [(b''.join(frame(BIN, x) for x in d), [1 << 18], 0)])
            what = '%d messages of %d bytes %s, ring %d%s%s' % (k, size, 'at once' if byrec else 'echoed', ring, ' tls' if t else '', ' deflate' if c.deflate else '')
            ctx.log(what)
            if byrec and size > 2000:
                # only compare numbers and sizes, the generator is slow
                got = 0
                end = time.monotonic() + 60
                while got < k:
                    try:
                        op, data = c.read_event(max(0.001, end - time.monotonic()))
                    except Closed:
                        break
                    except Timeout:
                        raise Violation('slow:stuck', '%s: %d arrived, then nothing' % (what, got), hang=True)
                    if op == CLOSE:
                        break
                    if op != BIN or len(data) != size or not data.startswith(b'%d:' % got) or not data[10:].isalpha():
                        raise Violation('slow:differs', '%s: message %d is %r (%d bytes)' % (what, got, data[:20], len(data)))
                    got += 1
            else:
                got = follow(c, expect, what, partial=True)
            if got < k and k <= (ring - 1) // 2:
                raise Violation('slow:closed', '%s: disconnected after %d' % (what, got))
            ctx.count('all_arrived' if got == k else 'given_up')
            if got < k:
                c.pace = None
                try:
                    left = c.expect_eof(10)
                except Timeout:
                    raise Violation('slow:gap', '%s: after %d messages the stream neither goes on nor ends' % (what, got))
            c.close()
            if p is not None:
                p.join(10)
            # others are served
            with Client(s.http, timeout=20) as o:
                o.handshake()
                o.send(frame(TEXT, b'and I'))
                ctx.check(o.read_message() == (TEXT, b'and I'), 'slow:others', 'echo of another client is wrong')
            ctx.case((variant, ring, t, what, got == k), nontrivial=k * size > 1000000 or k > ring, sample=what)


def room(ctx, variant, rounds, ring, fast, slow, tls=False, chaos=None, deflate=None, factor=0.4, size=30000):
    """Broadcast: the fast readers must get on, the slow ones get a gap-free prefix."""
    rng = ctx.rng
    with ctx.server(variant, conf(ring, workers=6), tls=tls, deflate=deflate, chaos=chaos) as s:
        for r in range(rounds):
            ext = 'permessage-deflate' if deflate is not None else None
            f = [opened(s, rng, tls and rng.random() < 0.5, 'broadcast', ext if rng.random() < 0.5 else None, rcvbuf=None, cls=Client) for _ in range(fast)]
            sl = [opened(s, rng, tls and rng.random() < 0.5, 'broadcast', ext if rng.random() < 0.5 else None) for _ in range(slow)]
            total = max(2, int((ring - 1) * factor / 2)) * 2
            window = max(1, min(8, (ring - 1) // 8))
            k = 0
            base = blob(rng, size)
            sent = []
            worst = 0
            while k < total:
                # a batch of each of two senders, awaited by all fast readers
                n = min(window, (total - k) // 2)
                batch = {0: [], 1: []}
                for w in (0, 1):
                    for j in range(n):
                        d = b'%d:%d:' % (w, len(sent) + j) + base[rng.randrange(0, size):]
                        batch[w].append(d)
                sent.append(batch)
                t0 = time.monotonic()
                p = [Pump(f[w], [(b''.join(frame(BIN, d) for d in batch[w]), [1 << 18], 0)]) for w in (0, 1)]
                for i, c in enumerate(f):
                    want = {w: list(batch[w]) for w in (0, 1) if w != i}
                    while any(want.values()):
                        try:
                            op, d = c.read_event(20)
                        except Timeout:
                            raise Violation('slow:others', 'a fast reader waits for %s messages while %d readers are slow' % ({w: len(x) for w, x in want.items()}, slow), hang=True)
                        except Closed as e:
                            raise Violation('slow:others-closed', 'a fast reader was disconnected, %s outstanding of %d' % ({w: len(x) for w, x in want.items()}, n))
                        w = d[0] - 48
                        if w not in want or not want[w] or want[w][0] != d:
                            raise Violation('slow:fast-order', 'a fast reader got %r' % d[:30])
                        want[w].pop(0)
                for x in p:
                    if not x.join(20):
                        raise Violation('slow:others', 'a sender cannot send while %d readers are slow' % slow, hang=True)
                worst = max(worst, time.monotonic() - t0)
                k += 2 * n
            every = {w: [d for b in sent for d in b[w]] for w in (0, 1)}
            for c in sl:
                c.pace = Pace(rng, 0.5)
                at = {0: 0, 1: 0}
                ended = False
                while at[0] < len(every[0]) or at[1] < len(every[1]):
                    try:
                        op, d = c.read_event(30)
                    except Timeout:
                        raise Violation('slow:stuck', 'the slow reader got %s of %d messages, then nothing' % (at, total), hang=True)
                    except Closed:
                        ended = True
                        break
                    if op == CLOSE:
                        ended = True
                        continue
                    w = d[:1] and d[0] - 48
                    if w not in at or at[w] >= len(every[w]) or every[w][at[w]] != d:
                        raise Violation('slow:gap', 'the slow reader got %r after %s' % (d[:30], at))
                    at[w] += 1
                ctx.count('given_up' if ended else 'all_arrived')
                if ended and factor < 0.5:
                    raise Violation('slow:closed', 'a slow reader was disconnected after %s of %d, ring %d' % (at, total, ring))
                ctx.case((variant, ring, fast, slow, c.tls, total, ended), nontrivial=total * size > 3000000 or ended)
            ctx.count('rounds')
            for c in f + sl:
                c.close()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    k = 6 if deep else 1
    out.append(Scenario('echo', echo, variant='rel', n=8 * k, ring=1024, tls=True, weight=2, timeout=240))
    out.append(Scenario('echo-poll', echo, variant='poll', n=6 * k, ring=64, tls=True, weight=2, timeout=240))
    out.append(Scenario('echo-small', echo, variant='rel', n=6 * k, ring=16, frame_size=3000, big=True, weight=2, timeout=240))
    out.append(Scenario('echo-deflate', echo, variant='rel', n=5 * k, ring=256, tls=True, deflate='', weight=2, timeout=240))
    out.append(Scenario('echo-pings', echo, variant='rel', n=5 * k, ring=1024, tls=True, pings=600, weight=2, timeout=240))
    out.append(Scenario('echo-faults', echo, variant='relc', n=5 * k, ring=256, tls=True, chaos=(30, 300, 60), pings=300, weight=2, timeout=240))
    out.append(Scenario('echo-faults-poll', echo, variant='poll', n=20 * k, ring=256, tls=True, chaos=(30, 300, 300), big=False, weight=2, timeout=240))
    out.append(Scenario('echo-asan', echo, variant='asan', n=3 * k, ring=128, tls=True, deflate='', weight=2, timeout=240))
    out.append(Scenario('echo-tsan', echo, variant='tsan', n=2 * k, ring=700, tls=True, pings=300, weight=2, timeout=240))
    for i, (v, ring, tls, ch, df) in enumerate([('rel', 16, False, None, None), ('rel', 128, True, None, ''), ('poll', 32, True, None, None), ('relc', 20, True, (50, 500, 50), None),
                                                ('asan', 8, True, None, '')]):
        out.append(Scenario('overload-%d' % i, overload, variant=v, n=10 * k, ring=ring, tls=tls, chaos=ch, deflate=df, weight=2, timeout=240))
    for i, (v, ring, fast, slow, tls, ch, df, fac) in enumerate([('rel', 512, 3, 1, False, None, None, 0.4), ('rel', 64, 4, 2, True, None, None, 3), ('poll', 256, 3, 2, True, None, '', 0.4),
                                                                 ('relc', 128, 3, 1, True, (20, 300, 30), None, 2), ('tsan', 128, 3, 1, False, None, None, 2)]):
        out.append(Scenario('room-%d' % i, room, variant=v, rounds=2 * k, ring=ring, fast=fast, slow=slow, tls=tls, chaos=ch, deflate=df, factor=fac, weight=2, timeout=240))
    if deep:
        for i in range(10):
            out.append(Scenario('echo-more-%d' % i, echo, variant=rng.choice(['rel', 'poll', 'relc']), n=30, ring=rng.choice([8, 33, 512, 4096]), tls=bool(i % 2),
                                deflate=rng.choice([None, '', 'server_max_window_bits=9']), frame_size=rng.choice([1048576, 200, 70000]), weight=2, timeout=300))
    return out

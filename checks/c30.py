"""C30: messages a subprotocol sends arrive intact, in order and exactly once."""
import random
import struct
import threading
import time

from checks.c10 import judge
from checks.c14 import parallel
from vlib.check import Scenario, Violation, short
from vlib.work import negotiated, payload, peer
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, Timeout, frame

PROPERTY = 'C30'
LEVEL = 'exploration'
TECHNIQUE = ('conformance monitoring of the send function that subprotocols get: a subprotocol of our own sends numbered messages from its callbacks and from its own '
             'threads, every client checks each stream it receives for order, gaps, repetition and content; sanitizers and injected delays and faults on the server')
NOTE = 'Schedules are sampled by stress and injected delays; what is sent never exceeds what the ring buffer of a session holds, except where that is the case examined.'
VARIANTS = ['rel', 'relc', 'poll', 'asan', 'tsan', 'tsanrp']
RULE = ('a case is one message received and compared, or one send that must have no effect; distinct by its source (callback or thread), type, size class, transport '
        'and what else was under way')
ASSUMPTIONS = ['the subprotocol of the check obeys the documented interface: memory it passes to send stays valid during the call']

PATIENCE = 25
PATTERN = 65521


def pattern():
    x, out = 1, bytearray(PATTERN)
    for i in range(PATTERN):
        x = (x * 1103515245 + 12345) & 0xffffffff
        out[i] = 97 + (x >> 16) % 26
    return bytes(out)


PAT = pattern()


def mix(key, t, i):
    m = (1 << 64) - 1
    h = (key * 2654435761 + t * 40503 + i * 69069 + 12345) & m
    h = (h * 6364136223846793005 + 1442695040888963407) & m
    return (h >> 33) & 0xffffffff


class Burst:
    """What a key stands for."""
    def __init__(self, key, n, lo, hi, op, threads):
        self.key, self.n, self.lo, self.hi, self.op = key, n, lo, hi, op
        self.next = {t: 0 for t in threads}

    def message(self, t, i):
        x = mix(self.key, t, i)
        size = self.lo + (x % (self.hi - self.lo + 1) if self.hi > self.lo else 0)
        h = b'B%d %d %d %d ' % (self.key, t, i, size)
        size = max(size, len(h))
        off = x % PATTERN
        m = size - len(h)
        return (self.op or (TEXT if (x >> 5) % 2 else BIN)), h + (PAT[off:] + PAT * (m // PATTERN + 1))[:m]

    def left(self):
        return sum(self.n - i for i in self.next.values())


class Guest:
    """A client of the subprotocol."""
    keys = 0
    guard = threading.Lock()

    def __init__(self, ctx, s, rng, tls=None, ext=None, size=None, rcvbuf=None):
        self.ctx, self.s, self.rng, self.ver = ctx, s, rng, tls
        self.c = c = Client(s.https if tls else s.http, tls=tls, timeout=PATIENCE, rcvbuf=rcvbuf)
        p = negotiated(c.handshake(protocols='push', extensions=ext, timeout=PATIENCE))
        self.d = None
        if p is not None:
            self.d = peer(p)
            c.deflate, c.rsv1_ok = self.d, True
        c.max_frame = size
        self.size = size or 1048576
        self.bursts, self.echoes, self.hi, self.bye, self.pongs = {}, [], [], [], []
        self.fd = self.number = self.closed = None
        self.lock = threading.RLock()
        self.echoed = 0
        self.noticing = self.strays = self.pings = self.unsolicited = 0
        self.last = None
        self.until(lambda: self.number is not None, 'the greeting')

    def send(self, data, op=TEXT):
        with self.lock:
            self.transmit(data, op)

    def transmit(self, data, op=TEXT):
        rsv, size = 0, self.size
        if self.d is not None and self.rng.random() < 0.6:
            data, rsv = self.d.compress(data), 4
        self.c.send(b''.join(frame(CONT if i else op, data[i:i + size], fin=i + size >= len(data), rsv=0 if i else rsv) for i in range(0, len(data) or 1, size)))

    def key(self, n, lo, hi, op, threads):
        with Guest.guard:
            Guest.keys += 1
            k = Guest.keys
        self.bursts[k] = b = Burst(k, n, lo, hi, op, threads)
        b.after = self.echoed + len(self.echoes)
        return k

    def echo(self):
        op = self.rng.choice([TEXT, BIN])
        m = b'E%d ' % (self.echoed + len(self.echoes)) + payload(self.rng, TEXT, self.rng.choice([0, 1, 100, 1400, 20000]))
        with self.lock:
            self.echoes.append((op, m))
            self.transmit(m, op)

    def step(self, timeout=PATIENCE):
        """One event. A close frame or the end of the stream is noted."""
        op, d = self.c.read_event(timeout)
        if self.closed is not None:
            raise Violation('send:after-close', '%d %s after the close frame' % (op, short(d)))
        if op == PING:
            self.pings += 1
            self.last = d
            with self.lock:
                self.c.send(frame(PONG, d))
        elif op == PONG:
            if self.pongs and d == self.pongs[0]:
                self.pongs.pop(0)
            else:
                self.unsolicited += 1
                self.last = d
        elif op == CLOSE:
            self.closed = d
        elif d[:1] == b'B':
            h = d[:100].split(b' ')
            try:
                k, t, i = int(h[0][1:]), int(h[1]), int(h[2])
            except (ValueError, IndexError):
                raise Violation('send:content', 'a message begins with %r' % d[:60])
            b = self.bursts.get(k)
            if b is None or t not in b.next:
                raise Violation('send:misdirected', 'message %r came to a client that is not meant' % d[:40])
            if i != b.next[t]:
                raise Violation('send:order', 'message %d of thread %d (key %d) came instead of %d' % (i, t, k, b.next[t]))
            want = b.message(t, i)
            if want != (op, d):
                at = next((j for j in range(min(len(d), len(want[1]))) if d[j] != want[1][j]), min(len(d), len(want[1])))
                raise Violation('send:content', 'message %d of thread %d: opcode %d instead of %d, %d bytes instead of %d, first difference at %d' % (
                    i, t, op, want[0], len(d), len(want[1]), at))
            if t == 99 and self.echoed != b.after:
                raise Violation('send:program-order', 'a message sent while message %d was handled came after %d answers' % (b.after, self.echoed))
            b.next[t] = i + 1
            if b.n and i >= b.n:
                raise Violation('send:repeated', 'message %d of %d of thread %d' % (i, b.n, t))
            self.ctx.case(('sent', 'here' if t == 99 else 'thread', op, len(d).bit_length(), self.ver, self.d is not None), sample='%d bytes' % len(d))
        elif d[:1] == b'E':
            if not self.echoes or self.echoes[0] != (op, d):
                raise Violation('send:echo', 'echo %s instead of %s' % (short(d), self.echoes and short(self.echoes[0][1])))
            for b in self.bursts.values():
                if 99 in b.next and b.after == self.echoed and b.left():
                    raise Violation('send:program-order', 'the answer to a message came before %d of %d messages sent while an earlier one was handled' % (b.left(), b.n))
            self.echoes.pop(0)
            self.echoed += 1
        elif d[:6] == b'hello ':
            if self.number is not None:
                raise Violation('send:repeated', 'a second greeting: %r' % d)
            self.fd, self.number = map(int, d[6:].split())
        elif d[:3] == b'hi ':
            self.hi.append(int(d[3:]))
        elif d[:4] == b'bye ':
            self.bye.append(int(d[4:]))
        elif d == b'noticing':
            self.noticing += 1
        elif d in (b'stray', b''):
            self.strays += 1
        else:
            raise Violation('send:unknown', 'opcode %d, %s' % (op, short(d)))

    def until(self, cond, what, timeout=PATIENCE):
        end = time.monotonic() + timeout
        while not cond():
            try:
                self.step(max(0.001, end - time.monotonic()))
            except Timeout:
                raise Violation('send:lost', '%s did not come in %d s; missing: %s' % (
                    what, timeout, ['key %d: %s of %d' % (b.key, b.next, b.n) for b in self.bursts.values() if b.n and b.left()]), hang=True)
            except Closed as e:
                if self.closed is None:
                    raise Violation('send:cut', 'the connection ended while waiting for %s, %d bytes of a frame' % (what, len(e.rest or b'')))
                return

    def quiet(self, t=0.05):
        """Nothing more comes, except what others cause."""
        try:
            while True:
                self.step(t)
        except Timeout:
            pass

    def ended(self):
        """Nothing follows the close frame."""
        try:
            self.c.read_event(PATIENCE)
        except Closed as e:
            if e.rest:
                raise Violation('send:after-close', '%d bytes after the close frame' % len(e.rest))
            return
        except Timeout:
            raise Violation('send:open', 'the connection stays open after a close frame of the subprotocol', hang=True)
        raise Violation('send:after-close', 'a frame after the close frame')

    def done(self):
        return not self.echoes and not any(b.n and b.left() for b in self.bursts.values())

    def leave(self):
        if self.rng.random() < 0.6:
            self.c.send(frame(CLOSE, b'\x03\xe8'))
            try:
                while True:
                    self.step()
            except Closed:
                pass
            if self.closed != b'\x03\xe8':
                raise Violation('send:goodbye', 'close answered with %r' % self.closed)
        self.c.close(abort=self.rng.random() < 0.4)


def conf(ring=1024, size=1048576, workers=4, **kw):
    return {'setup': dict({'size': {'frame': size, 'ringbuffer': ring, 'buffer': min(32768, max(64, size))}, 'pool': {'workers': workers}}, **kw)}


def guest(ctx, s, rng, tls, deflate, size=None, **kw):
    return Guest(ctx, s, rng, rng.choice([None, '1.2', '1.3']) if tls else None,
                 rng.choice([None, 'permessage-deflate', 'permessage-deflate; server_no_context_takeover', 'permessage-deflate; server_max_window_bits=9'])
                 if deflate is not None else None, size, **kw)


def sizes(rng, size):
    k = rng.randrange(5)
    if k == 0:
        return 0, 0
    if k == 1:
        n = rng.choice([125, 126, 127, 65535, 65536])
        return n, n
    if k == 2:
        return 0, 3000
    n = min(size, 30000) * rng.choice([1, 2, 3])
    return max(0, n - 5), n + 5


def bursts(ctx, variant, clients, rounds, threads=6, tls=False, deflate=None, chaos=None, ring=1024, size=1048576, strays=False, big=1, pinged=False):
    """Every client has threads send to it, to others of its friends, and talks
    itself; all of it must come, each stream in its order."""
    rng = ctx.rng
    kw = {'timeouts': {'client': 5000, 'pings': 100}} if pinged else {}
    with ctx.server(variant, conf(ring, size, **kw), tls=tls, deflate=deflate, chaos=chaos, push=threads) as s:
        room = (ring - 1) // 2 - 2
        errs = []
        done = threading.Barrier(clients, timeout=100)

        def run(num, r):
            g = guest(ctx, s, r, tls, deflate, size)
            all_[num] = g
            done.wait()
            for i in range(rounds):
                left = room
                # what comes when more bytes are asked for than a client that is
                # also busy sending can take is another matter
                for k in range(r.randrange(1, 5)):
                    kind = r.choice(['here', 'burst', 'burst', 'burst', 'to', 'pongs' if pinged else 'pings', 'pongs', 'echo'])
                    lo, hi = sizes(r, size)
                    lo, hi = lo * big, hi * big
                    frames = 1
                    most = max(1, min(left // 3, 1500000 // max(hi, 1), 60))
                    n = r.randrange(1, most + 1)
                    op = r.choice([0, 0, TEXT, BIN])
                    if left < n * 8:
                        break
                    if kind == 'here':
                        g.send(b'!here %d %d %d %d %d' % (g.key(n, lo, hi, op, [99]), n, lo, hi, op))
                        left -= n
                    elif kind == 'burst':
                        th = r.randrange(1, min(threads, 4) + 1)
                        n = max(1, n // th)
                        g.send(b'!burst %d %d %d %d %d %d %d' % (g.key(n, lo, hi, op, range(th)), n, lo, hi, op, r.choice([0, 0, 0, 50, 1000]), th))
                        left -= n * th
                    elif kind == 'to':
                        # by a go-between: the target is this client, told by another
                        o = all_[r.randrange(clients)]
                        with o.lock:
                            o.c.send(frame(TEXT, b'!to %d %d %d %d %d %d %d %d %d' % (g.fd, g.number, g.key(n, lo, hi, op, [0]), n, lo, hi, op, r.choice([0, 100]), 1)))
                        left -= n
                    elif kind in ('pings', 'pongs'):
                        m = min(size, r.choice([0, 4, 125]))
                        was = g.pings, g.unsolicited
                        n = min(n, 10)
                        with g.lock:
                            g.send(b'!%s %d %d' % (kind.encode(), n, m))
                        g.until(lambda: g.pings - was[0] == n if kind == 'pings' else g.unsolicited - was[1] == n, kind)
                        left -= n
                    if kind != 'to' and r.random() < 0.7:
                        for j in range(r.randrange(1, 6)):
                            with g.lock:
                                g.echo()
                        left -= 5
                if strays and r.random() < 0.3:
                    with g.lock:
                        g.send(b'!stray %d %d' % (r.randrange(1, 200), r.choice([0, 100])))
                g.until(g.done, 'all of round %d' % i)
                ctx.check(g.closed is None, 'send:closed', 'closed with %r' % g.closed)
            done.wait()
            g.quiet()
            ctx.check(g.done(), 'send:extra', 'more than was sent')
            ctx.count('strays', g.strays)
            ctx.count('pings', g.pings)
            g.leave()
        all_ = [None] * clients

        def go(i, r):
            try:
                run(i, r)
            except BaseException as e:
                done.abort()
                errs.append(e)
        ts = [threading.Thread(target=go, args=(i, random.Random(rng.random()))) for i in range(clients)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        errs.sort(key=lambda e: (not isinstance(e, Violation), isinstance(e, threading.BrokenBarrierError)))
        if errs:
            raise errs[0]


def notices(ctx, variant, n, watchers=3, tls=False, chaos=None, strays=True, deflate=None):
    """Sends from within onConnect and onClose: who comes and goes is told, once
    each, while others come and go and threads send to descriptors long gone."""
    rng = ctx.rng
    with ctx.server(variant, conf(4096), tls=tls, deflate=deflate, chaos=chaos, push=4, leaks=variant != 'tsan') as s:
        ws = []
        for i in range(watchers):
            g = guest(ctx, s, rng, tls, deflate)
            g.send(b'!notices')
            g.until(lambda: g.noticing, 'noticing')
            ws.append(g)
        if strays:
            for g in ws:
                g.send(b'!stray %d 200' % (n * 20))
        came = []
        lock = threading.Lock()

        def visit(r):
            for i in range(n // 4):
                g = guest(ctx, s, r, tls, deflate)
                with lock:
                    came.append(g.number)
                k = r.random()
                if k < 0.3:
                    m = r.randrange(1, 20)
                    g.send(b'!burst %d %d 0 500 0 100 1' % (g.key(m, 0, 500, 0, [0]), m))
                    g.until(g.done, 'a burst')
                elif k < 0.6:
                    # leaves while it is being sent to
                    m = 1000
                    g.send(b'!burst %d %d 0 500 0 20 2' % (g.key(m, 0, 500, 0, [0, 1]), m))
                    g.quiet(r.random() * 0.003)
                elif k < 0.8:
                    g.echo()
                g.c.close(abort=r.random() < 0.5) if 0.3 < k < 0.6 else g.leave()

        over = threading.Event()

        def watch(g):
            while not over.is_set() or len(g.bye) < want(g):
                wait = 10 if over.is_set() else 0.2
                try:
                    g.step(wait)
                except Timeout:
                    if wait > 1:
                        raise Violation('send:notices', 'watcher %d: %d came and %d left of %d' % (g.number, len(g.hi), len(g.bye), want(g)), hang=True)
                except Closed as e:
                    raise Violation('send:cut', 'a watcher was disconnected: %r' % g.closed)
            g.quiet(0.1)

        def want(g):
            return len(came)
        errs = []

        def run(f, *a):
            try:
                f(*a)
            except BaseException as e:
                errs.append(e)
        wt = [threading.Thread(target=run, args=(watch, g)) for g in ws]
        vt = [threading.Thread(target=run, args=(visit, random.Random(rng.random()))) for i in range(4)]
        for t in wt + vt:
            t.start()
        for t in vt:
            t.join()
        over.set()
        for t in wt:
            t.join()
        errs.sort(key=lambda e: not isinstance(e, Violation))
        if errs:
            raise errs[0]
        for i, g in enumerate(ws):
            other = [x.number for x in ws[i + 1:]]
            for what, got, exp in (('came', g.hi, came + other), ('left', g.bye, came)):
                ctx.check(sorted(got) == sorted(exp), 'send:notices', 'watcher %d was told that %s: %d, not %d; missing %s, too many %s' % (
                    g.number, what, len(got), len(exp), sorted(set(exp) - set(got))[:5], sorted(x for x in set(got) if got.count(x) > exp.count(x))[:5]))
            pos = {x: j for j, x in enumerate(g.hi)}
            ctx.case(('notices', tuple(g.hi[:40])), n=len(g.hi) + len(g.bye))
        ctx.count('visits', len(came))
        ctx.count('strays', sum(g.strays for g in ws))
        for g in ws:
            g.c.close()


def closes(ctx, variant, n, tls=False, deflate=None, chaos=None, threads=4):
    """The subprotocol sends a close frame, from a callback or from a thread among
    others that send: it is the last thing that comes, with its code and reason."""
    with ctx.server(variant, conf(4096), tls=tls, deflate=deflate, chaos=chaos, push=threads) as s:
        def one(r):
            g = guest(ctx, s, r, tls, deflate)
            code = r.choice([1000, 1001, 1002, 1003, 1007, 1008, 1011, 3000, 4000, 4999])
            reason = r.choice(['', 'x', 'a reason', 'r' * 123])
            before = None
            what = r.choice(['here', 'thread', 'among', 'among', 'partner'])
            if r.random() < 0.6:
                m = r.randrange(1, 30)
                before = g.key(m, 0, 3000, 0, [99])
                g.send(b'!here %d %d 0 3000 0' % (before, m))
            if what == 'here':
                g.send(('!closehere %d %s' % (code, reason)).encode())
            else:
                if what == 'among':
                    g.send(b'!burst %d 400 0 2000 0 30 2' % g.key(400, 0, 2000, 0, [0, 1]))
                g.send(('!close %d %d %s' % (r.choice([0, 100, 3000]), code, reason)).encode())
            talk = r.random() < 0.3
            try:
                if talk:
                    g.echo()
                g.until(lambda: g.closed is not None, 'the close frame')
            except (Violation, OSError) as e:
                # what is sent to a closed connection makes the kernel drop what was not read yet
                if not talk or isinstance(e, Violation) and e.key != 'send:cut':
                    raise
                ctx.count('lost_in_reset')
                g.c.close()
                return
            ctx.check(g.closed == struct.pack('>H', code) + reason.encode(), 'send:close', '%r instead of %d %r' % (g.closed, code, reason))
            if before and what == 'here':
                ctx.check(g.bursts[before].left() == 0, 'send:overtaken', '%d of %d messages sent before the close frame did not come' % (g.bursts[before].left(), g.bursts[before].n))
            g.ended()
            g.c.close()
            ctx.case(('close', what, code, len(reason), g.ver, g.d is not None), sample='%s %d %r' % (what, code, reason))
        jobs = []
        for k in range(4):
            r = random.Random(ctx.rng.random())
            jobs.append(lambda r=r: [one(r) for i in range(n // 4)])
        parallel(ctx, jobs)


def flood(ctx, variant, tls=False, chaos=None, clients=6):
    """More is sent to clients that do not read than can be kept: they are given
    up, what came before is intact, and the others do not notice."""
    rng = ctx.rng
    with ctx.server(variant, conf(64), tls=tls, chaos=chaos, push=clients + 2) as s:
        good = guest(ctx, s, rng, tls, None)

        def lazy(r):
            g = guest(ctx, s, r, tls, None, rcvbuf=4096)
            g.send(b'!burst %d 400 50000 60000 0 0 1' % g.key(400, 50000, 60000, 0, [0]))
            time.sleep(1.5)
            try:
                while g.closed is None:
                    g.step(10)
            except Closed:
                pass
            except Timeout:
                raise Violation('send:stalled', 'a client that did not read got %s of 400 messages, then nothing' % g.bursts[max(g.bursts)].next, hang=True)
            got = g.bursts[max(g.bursts)].next[0]
            ctx.check(got < 400, 'send:kept', 'all of it came through a ring of 64')
            ctx.case(('flood', got, g.ver), sample='%d of 400' % got)
            g.c.close()

        def busy(r):
            end = time.monotonic() + 3
            while time.monotonic() < end:
                m = r.randrange(1, 8)
                good.send(b'!burst %d %d 0 5000 0 0 2' % (good.key(m, 0, 5000, 0, [0, 1]), m))
                good.echo()
                good.until(good.done, 'a burst beside the flood')
        parallel(ctx, [lambda r=random.Random(rng.random()): lazy(r) for i in range(clients)] + [lambda: busy(random.Random(rng.random()))])
        good.leave()


def shutdown(ctx, variant, rounds, clients=8, tls=False, deflate=None, chaos=None):
    """The server is interrupted while threads send without end: it ends, and
    what was received until then is intact."""
    rng = ctx.rng
    for i in range(rounds):
        with ctx.server(variant, conf(4096), tls=tls, deflate=deflate, chaos=chaos, push=2 * clients + 2) as s:
            gs = []
            for j in range(clients):
                g = guest(ctx, s, rng, tls, deflate, rcvbuf=rng.choice([None, 4096]))
                k = rng.choice([1, 1, 2])
                g.key(0, 0, 2000, 0, range(k))
                g.send(b'!forever %d 2000 %d %d' % (max(g.bursts), rng.choice([0, 30, 300]), k))
                g.deaf = rng.random() < 0.3
                gs.append(g)
            gs[0].send(b'!stray 1000000000 %d' % rng.choice([0, 50]))
            stop = threading.Event()
            errs = []

            def read(g):
                try:
                    while True:
                        g.step(40)
                        if rng.random() < 0.02:
                            g.send(b'!burst %d 0 0 0 0 0 1' % 0)
                except (Closed, Timeout, OSError):
                    pass
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=read, args=(g,)) for g in gs if not g.deaf]
            for t in ts:
                t.start()
            time.sleep(rng.uniform(0.02, 0.3))
            alive = s.alive()
            judge(ctx, s, alive, s.stop(40))
            s.proc = None
            for t in ts:
                t.join()
            for g in gs:
                g.c.close()
            if errs:
                raise errs[0]
            n = sum(sum(b.next.values()) for g in gs for b in g.bursts.values())
            ctx.count('received_before_interrupt', n)
            ctx.case(('shutdown', n), sample='%d messages before the interrupt' % n)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 20 if deep else 3
    out = []
    out.append(Scenario('bursts', bursts, variant='rel', clients=6, rounds=25 * k))
    out.append(Scenario('bursts-tls', bursts, variant='rel', clients=6, rounds=20 * k, tls=True))
    out.append(Scenario('bursts-deflate', bursts, variant='rel', clients=6, rounds=15 * k, tls=True, deflate=''))
    out.append(Scenario('bursts-small', bursts, variant='rel', clients=5, rounds=15 * k, size=125, strays=True))
    out.append(Scenario('bursts-ring', bursts, variant='rel', clients=4, rounds=30 * k, ring=64))
    out.append(Scenario('bursts-big', bursts, variant='rel', clients=4, rounds=6 * k, big=30, threads=12))
    out.append(Scenario('bursts-poll', bursts, variant='poll', clients=5, rounds=15 * k, tls=True, strays=True))
    out.append(Scenario('bursts-faults', bursts, variant='relc', clients=5, rounds=15 * k, tls=True, chaos=(20, 300, 60)))
    out.append(Scenario('bursts-delays', bursts, variant='relc', clients=5, rounds=12 * k, deflate='', chaos=(150, 300, 0), strays=True))
    out.append(Scenario('bursts-pinged', bursts, variant='rel', clients=5, rounds=40 * k, tls=True, deflate='', pinged=True))
    out.append(Scenario('bursts-pinged-tsan', bursts, variant='tsan', clients=4, rounds=6 * k, pinged=True))
    out.append(Scenario('bursts-asan', bursts, variant='asan', clients=4, rounds=8 * k, tls=True, deflate='', strays=True))
    out.append(Scenario('bursts-tsan', bursts, variant='tsan', clients=4, rounds=6 * k, tls=True, strays=True))
    out.append(Scenario('bursts-tsanrp', bursts, variant='tsanrp', clients=4, rounds=6 * k, deflate=''))
    out.append(Scenario('notices', notices, variant='rel', n=200 * k))
    out.append(Scenario('notices-tls', notices, variant='rel', n=120 * k, tls=True, deflate=''))
    out.append(Scenario('notices-poll', notices, variant='poll', n=100 * k))
    out.append(Scenario('notices-faults', notices, variant='relc', n=80 * k, tls=True, chaos=(20, 300, 60)))
    out.append(Scenario('notices-delays', notices, variant='relc', n=80 * k, chaos=(150, 300, 0)))
    out.append(Scenario('notices-places', notices, variant='relc', n=60 * k, chaos=(300, 1500, 20, 150)))
    out.append(Scenario('notices-asan', notices, variant='asan', n=60 * k, tls=True))
    out.append(Scenario('notices-tsan', notices, variant='tsan', n=40 * k))
    out.append(Scenario('closes', closes, variant='rel', n=160 * k))
    out.append(Scenario('closes-tls', closes, variant='rel', n=100 * k, tls=True, deflate=''))
    out.append(Scenario('closes-poll', closes, variant='poll', n=60 * k))
    out.append(Scenario('closes-delays', closes, variant='relc', n=60 * k, chaos=(150, 300, 0)))
    out.append(Scenario('closes-places', closes, variant='relc', n=50 * k, chaos=(300, 1500, 0, 150)))
    out.append(Scenario('closes-asan', closes, variant='asan', n=40 * k, tls=True))
    out.append(Scenario('closes-tsan', closes, variant='tsan', n=40 * k))
    out.append(Scenario('flood', flood, variant='rel'))
    out.append(Scenario('flood-tls', flood, variant='relc', tls=True, chaos=(20, 300, 0)))
    out.append(Scenario('flood-asan', flood, variant='asan', clients=3))
    out.append(Scenario('shutdown', shutdown, variant='rel', rounds=4 * k))
    out.append(Scenario('shutdown-tls', shutdown, variant='rel', rounds=3 * k, tls=True, deflate=''))
    out.append(Scenario('shutdown-poll', shutdown, variant='poll', rounds=3 * k))
    out.append(Scenario('shutdown-delays', shutdown, variant='relc', rounds=3 * k, tls=True, chaos=(100, 1000, 20)))
    out.append(Scenario('shutdown-asan', shutdown, variant='asan', rounds=3 * k, tls=True))
    out.append(Scenario('shutdown-tsan', shutdown, variant='tsan', rounds=2 * k))
    return out

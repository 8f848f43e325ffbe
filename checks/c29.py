"""C29: stalled reads and writes are given up after their configured timeouts."""
import random
import socket
import threading
import time

from checks.c14 import parallel
from vlib.check import Scenario, Violation, short
from vlib.work import Pump, blob, payload, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, Timeout, frame, request

PROPERTY = 'C29'
LEVEL = 'exploration'
TECHNIQUE = ('real-time monitoring at the socket: clients stall for known times in the middle of requests, frames, fragmented messages and pending writes; a model '
             'of the two timeouts says whether the connection must be continued or closed at the next event')
NOTE = ('Sampled timeouts and stall lengths; stalls are at least 30 % off the configured time and a verdict that rests on time is given only when a second run '
        'of the same scenario gives it again.')
VARIANTS = ['rel', 'poll', 'relc', 'tsan']
RULE = 'a case is one stalled connection; distinct by its kind, configuration, where it was cut and how long it stalled'
ASSUMPTIONS = ['an event that comes while the rest is missing (such as a ping between fragments) starts the time anew, as the server has not waited since then']


class Plan:
    """Stalls that are clearly within or beyond the timeout."""
    def __init__(self, rng, T):
        self.T = T
        if T < 0:
            self.late = False
            self.sleep = rng.choice([0.05, 1.2])
        elif T == 0:
            self.late = True
            self.sleep = rng.choice([0.05, 0.5])
        elif T > 20000:
            self.late = False
            self.sleep = rng.choice([0.8, 1.7, 2.6])
        else:
            self.late = rng.random() < 0.5
            self.sleep = T / 1000 * rng.uniform(1.3, 1.6) + 0.15 if self.late else T / 1000 * rng.uniform(0, 0.5)

    def __repr__(self):
        return '%.2f s of %s ms' % (self.sleep, self.T)


class Overslept(Exception):
    """A stall that should have been short was not: nothing follows from it."""


class Watch:
    """What was slept must be clearly within the timeout as measured, too."""
    def __init__(self, T):
        self.T = T
        self.at = time.monotonic()

    def check(self):
        now = time.monotonic()
        if self.T > 0 and now - self.at > self.T / 1000 * 0.75:
            raise Overslept
        self.at = now


def connect(s, rng, tls, **kw):
    t = rng.choice(['1.2', '1.3']) if tls else None
    return Client(s.https if t else s.http, tls=t, timeout=30, **kw)


def gone(c, what, nothing=True):
    """The connection ends, and nothing that came late was answered."""
    try:
        rest = c.expect_eof(15)
    except Timeout:
        raise Violation('stall:open', '%s: the connection was not closed' % what)
    if nothing and rest:
        raise Violation('stall:continued', '%s: %d bytes %r were answered' % (what, len(rest), rest[:60]))


def send(c, data, what):
    try:
        c.send(data)
    except OSError:
        pass        # closed already


def late_or_served(c, plan, what, serve, watch=None):
    if plan.late:
        gone(c, what)
        return
    if watch:
        watch.check()
    try:
        serve()
    except Closed as e:
        raise Violation('stall:closed', '%s: closed, %r' % (what, e))


def k_request(s, rng, tls, R, W):
    c = connect(s, rng, tls)
    plan = Plan(rng, R)
    r, _ = request(port=c.port, protocols='echo')
    n = rng.randrange(1, len(r))
    w = Watch(R)
    c.send(r[:n])
    time.sleep(plan.sleep)
    what = 'request cut at %d, %r' % (n, plan)
    send(c, r[n:], what)

    def serve():
        h = c.read_http()
        if h.status != 101:
            raise Violation('stall:refused', '%s: %d' % (what, h.status))
        c.send(frame(TEXT, b'late'))
        if c.read_event() != (TEXT, b'late'):
            raise Violation('stall:echo', what)
    late_or_served(c, plan, what, serve, w)
    c.close()
    return ('request', n * 10 // len(r), plan.late, R), what


def k_drip(s, rng, tls, R, W):
    """Every pause is within the timeout, all of them together are not."""
    c = connect(s, rng, tls)
    r, _ = request(port=c.port, protocols='echo')
    pause = R / 1000 * 0.4 if R > 0 else 0.2
    parts = 5
    at = sorted(rng.sample(range(1, len(r)), parts - 1))
    w = Watch(R)
    for a, b in zip([0] + at, at + [len(r)]):
        send(c, r[a:b], '')
        w.check()
        time.sleep(pause)
    what = 'request in %d parts every %.2f s, timeout %s ms' % (parts, pause, R)
    try:
        if R != 0 and c.read_http().status != 101:
            raise Violation('stall:refused', what)
    except Closed:
        raise Violation('stall:closed', what)
    if R == 0:
        gone(c, what)
        return ('drip', R), what
    d = blob(rng, rng.choice([20, 500, 70000]))
    f = frame(BIN, d)
    at = sorted(rng.sample(range(1, len(f)), parts - 1))
    w = Watch(R)
    for a, b in zip([0] + at, at + [len(f)]):
        send(c, f[a:b], what)
        w.check()
        time.sleep(pause)
    try:
        if c.read_event() != (BIN, d):
            raise Violation('stall:echo', what)
    except Closed:
        raise Violation('stall:closed', 'frame instead of ' + what)
    c.close()
    return ('drip', R), what


def k_frame(s, rng, tls, R, W):
    c = connect(s, rng, tls)
    c.handshake(protocols='echo')
    plan = Plan(rng, R)
    d = blob(rng, rng.choice([0, 1, 125, 126, 5000, 65536, 200000]))
    f = frame(BIN, d)
    n = rng.choice([1, 2, 3, 5, 6, len(f) - 1, rng.randrange(1, len(f))])
    n = min(n, len(f) - 1)
    # the pong shows that the first part has been seen
    w = Watch(R)
    c.send(frame(PING, b'seen') + f[:n])
    if c.read_event() != (PONG, b'seen'):
        raise Violation('stall:pong', 'wrong answer to the ping')
    time.sleep(plan.sleep)
    what = 'frame of %d bytes cut at %d, %r' % (len(d), n, plan)
    send(c, f[n:], what)

    def serve():
        if c.read_event() != (BIN, d):
            raise Violation('stall:echo', what)
        # between frames there is nothing to wait for
        time.sleep(rng.choice([0, plan.T / 1000 * 1.5]) if 0 < plan.T < 20000 else 0)
        c.send(frame(TEXT, b'again'))
        if c.read_event() != (TEXT, b'again'):
            raise Violation('stall:echo', what)
    late_or_served(c, plan, what, serve, w)
    c.close()
    return ('frame', len(d), n, plan.late, R), what


def k_fragments(s, rng, tls, R, W):
    c = connect(s, rng, tls)
    c.handshake(protocols='echo')
    plan = Plan(rng, R)
    parts = [text(rng, rng.choice([0, 1, 200, 5000])) for _ in range(rng.randrange(2, 6))]
    k = rng.randrange(1, len(parts))
    w = Watch(R)
    c.send(frame(PING, b'seen') + b''.join(frame(CONT if i else TEXT, p, fin=False) for i, p in enumerate(parts[:k])))
    if c.read_event() != (PONG, b'seen'):
        raise Violation('stall:pong', 'wrong answer to the ping')
    time.sleep(plan.sleep)
    ping = 0 < R < 20000 and not plan.late and rng.random() < 0.4
    what = '%d of %d fragments, %r%s' % (k, len(parts), plan, ', pinged' if ping else '')
    if ping:
        # the ping is an event, so the time starts again
        c.send(frame(PING, b'still here'))
        w.check()
        try:
            if c.read_event() != (PONG, b'still here'):
                raise Violation('stall:pong', what)
        except Closed:
            raise Violation('stall:closed', what)
        time.sleep(R / 1000 * 0.5)
    rest = b''.join(frame(CONT, p, fin=k + i == len(parts) - 1) for i, p in enumerate(parts[k:]))
    if plan.late and rng.random() < 0.3:
        rest = frame(PING, b'late') + rest
    send(c, rest, what)

    def serve():
        if c.read_event() != (TEXT, b''.join(parts)):
            raise Violation('stall:echo', what)
    late_or_served(c, plan, what, serve, w)
    c.close()
    return ('fragments', k, len(parts), plan.late, R, ping), what


def k_idle(s, rng, tls, R, W):
    """Nothing is missing, so there is no timeout."""
    c = connect(s, rng, tls)
    late = max(R, W, 300) / 1000 * 1.4
    if rng.random() < 0.5:
        time.sleep(late)
    c.handshake(protocols=rng.choice(['echo', None]))
    what = 'idle for %.2f s, timeouts %s %s' % (late, R, W)
    for i in range(2):
        time.sleep(late)
        k = rng.random()
        try:
            if k < 0.3:
                c.send(frame(PONG, b'unasked'))
            elif k < 0.6:
                c.send(frame(PING, b'%d' % i))
                if c.read_event() != (PONG, b'%d' % i):
                    raise Violation('stall:pong', what)
            else:
                c.send(frame(TEXT, b'part', fin=False) + frame(CONT, b's'))
                if c.read_event() != (TEXT, b'parts'):
                    raise Violation('stall:echo', what)
        except Closed:
            raise Violation('stall:idle-closed', what)
    try:
        if c.goodbye() != 1000:
            raise Violation('stall:goodbye', what)
    except Closed:
        raise Violation('stall:idle-closed', what)
    return ('idle', R, W, tls), what


def k_write(s, rng, tls, R, W):
    c = connect(s, rng, tls, rcvbuf=4096)
    c.handshake(protocols='echo')
    plan = Plan(rng, W)
    n = 14
    base = blob(rng, 1000000)
    msgs = [b'%d' % i + base[i:] for i in range(n)]
    # from the moment at which nothing more goes in
    sent = [0]

    def push():
        try:
            for m in msgs:
                f = frame(BIN, m)
                for a in range(0, len(f), 65536):
                    c.sock.sendall(f[a:a + 65536])
                    sent[0] += 1
        except OSError:
            pass
    t = threading.Thread(target=push, daemon=True)
    t.start()
    if plan.late:
        # the time counts from the moment at which nothing more goes in, the
        # server does not read while it cannot write
        last, since = 0, time.monotonic()
        while time.monotonic() < since + 0.3:
            if sent[0] != last:
                last, since = sent[0], time.monotonic()
            time.sleep(0.01)
    time.sleep(plan.sleep)
    try:
        getattr(c.sock, 'sock', c.sock).setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
    except OSError:
        pass
    what = '%d pending messages of 1 MB, %r' % (n, plan)
    got = 0
    try:
        while got < n:
            op, d = c.read_event(20)
            if (op, d) != (BIN, msgs[got]):
                raise Violation('stall:differs', '%s: message %d' % (what, got))
            got += 1
    except Closed:
        if not plan.late:
            raise Violation('stall:closed', '%s: closed after %d' % (what, got))
        t.join(10)
        c.close()
        return ('write', plan.late, W, R, tls), what
    except Timeout:
        raise Violation('stall:open', '%s: %d arrived, then nothing' % (what, got))
    if plan.late:
        raise Violation('stall:continued', '%s: all of it arrived' % what)
    t.join(10)
    c.close()
    return ('write', plan.late, W, R, tls), what


def k_slow(s, rng, tls, R, W):
    """Reads slowly, but never stops for as long as the timeout."""
    c = connect(s, rng, tls, rcvbuf=65536)
    c.handshake(protocols='echo')
    n = 14
    base = blob(rng, 1000000)
    msgs = [b'%d' % i + base[i:] for i in range(n)]
    p = Pump(c, [(b''.join(frame(BIN, m) for m in msgs), [1 << 18], 0)])
    what = 'slow reader, %s ms' % W
    pause = W / 1000 * 0.3 if W > 0 else 0.3
    if pause > 0.6:
        pause = 0.6
    got = 0
    try:
        while got < n:
            if got % 2 == 0:
                time.sleep(pause)
            if c.read_event(20) != (BIN, msgs[got]):
                raise Violation('stall:differs', what)
            got += 1
    except Closed:
        raise Violation('stall:closed', '%s: after %d of %d' % (what, got, n))
    p.join(10)
    c.close()
    return ('slow', W, tls), what


KINDS = [k_request, k_drip, k_frame, k_fragments, k_idle, k_write, k_slow]


def stalls(ctx, variant, R, W, each, tls=False, deflate=None, chaos=None, kinds=KINDS):
    rng = ctx.rng
    conf = {'setup': {'timeouts': {'read': R, 'write': W}, 'pool': {'workers': 8}}}
    with ctx.server(variant, conf, tls=tls, deflate=deflate, chaos=chaos) as s:
        jobs = []
        for k in kinds:
            if k in (k_write, k_slow) and (W == 0 or R == 0):
                continue
            for i in range(each):
                def one(k=k, r=random.Random(rng.random())):
                    time.sleep(r.random() * 0.5)
                    try:
                        key, what = k(s, r, tls and r.random() < 0.5, R, W)
                    except Overslept:
                        ctx.count('overslept')
                        return
                    ctx.case((key, variant), sample=what)
                    ctx.count(k.__name__[2:])
                jobs.append(one)
        parallel(ctx, jobs)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    plan = [('rel', 700, 700, True, None), ('rel', 500, 1500, True, None), ('rel', 1800, 600, False, ''), ('rel', -1, 700, True, None), ('rel', 400, -1, False, None),
            ('rel', 0, 800, True, None), ('poll', 700, 900, True, None), ('rel', -1, -1, True, None)]
    if deep:
        plan += [(rng.choice(['rel', 'poll']), rng.choice([300, 600, 1000, 2500, -1]), rng.choice([600, 800, 1000, 2500, -1]), bool(i % 2), rng.choice([None, ''])) for i in range(24)]
    for i, (v, R, W, tls, df) in enumerate(plan):
        out.append(Scenario('stalls-%d' % i, stalls, variant=v, R=R, W=W, each=6 if deep else 3, tls=tls, deflate=df, confirm=True, weight=2, timeout=200))
    out.append(Scenario('stalls-faults', stalls, variant='relc', R=900, W=900, each=2, tls=True, chaos=(30, 300, 30), confirm=True, weight=2, timeout=200))
    # timeouts that differ from short ones only in what does not fit into 16 or 24 bits, or that are nearly too large
    for i, (R, W) in enumerate([(65536 + 500, 131072 + 700), (16777216 + 600, 65536 * 3 + 400), (2147483647, 2147483647)]):
        out.append(Scenario('long-%d' % i, stalls, variant='poll' if i == 1 else 'rel', R=R, W=W, each=6 if deep else 3, tls=i == 1, confirm=True, timeout=200,
                            kinds=[k_request, k_frame, k_fragments, k_write]))
    out.append(Scenario('stalls-tsan', stalls, variant='tsan', R=1500, W=1500, each=2, tls=True, confirm=True, weight=2, timeout=200,
                        kinds=[k_request, k_frame, k_fragments, k_idle]))
    return out

"""C14: idle clients are pinged and, if silent, closed after the configured time."""
import random
import socket
import ssl
import struct
import threading
import time

from vlib.check import Scenario, Violation, short
from vlib.work import blob, payload
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, Timeout, frame, request

PROPERTY = 'C14'
LEVEL = 'exploration'
TECHNIQUE = ('real-time monitoring at the socket: every client has a model of when it was last active and when it must (not) be pinged and closed, over many '
             'behaviours at once, with injected delays, TLS and compression')
NOTE = ('Sampled timeouts and behaviours. Lower bounds on times are exact, upper bounds allow for a loaded machine and a violation of them is reported only when '
        'it repeats. One ping per timeout (pings = 1) is left out: README.md warns that it is too imprecise to be answered in time.')
VARIANTS = ['rel', 'poll', 'relc', 'tsan']
RULE = 'a case is one client of one behaviour under one configuration; distinct by these'
ASSUMPTIONS = ['a client is active when bytes of it arrive at the server']
SLACK = 2.5


class Cfg:
    def __init__(self, T, P, D, faults=False):
        self.T, self.P, self.D = T, P, D
        # a write that the kernel refuses when the time is up is not repeated
        self.faults = faults
        self.period = T / P if P and T >= 0 else T


class Watch:
    """Reads what comes, when, and answers if it is to be answered."""
    faults = False

    def __init__(self, c, answer=False):
        self.c, self.answer = c, answer
        self.pings, self.closed, self.code, self.msgs = [], None, None, []
        self.last = time.monotonic()        # last activity

    def send(self, data):
        self.last = time.monotonic()
        self.c.send(data)

    def until(self, end):
        """False when the connection ended."""
        while time.monotonic() < end:
            try:
                op, d = self.c.read_event(max(0.001, end - time.monotonic()))
            except Timeout:
                return True
            except Closed as e:
                if e.rest and not self.faults:
                    raise Violation('idle:torn', 'the stream ends inside a frame: %r' % e.rest[:30])
                self.closed = self.closed or time.monotonic()
                return False
            if self.closed:
                raise Violation('idle:after-close', 'frame %d after the close frame' % op)
            if op == PING:
                self.pings.append(time.monotonic())
                if self.answer:
                    self.send(frame(PONG, d))
            elif op == CLOSE:
                self.closed = time.monotonic()
                self.code = struct.unpack('>H', d[:2])[0] if len(d) > 1 else None
            else:
                self.msgs.append((op, d))
        return True


def silent(cf, w, since, what, early=0.0, told=True):
    """The client is silent from now on: it must be closed, not too early and not too late."""
    w.answer, w.faults = False, cf.faults
    # the server stamps activity after it was sent, but never before
    end = w.last + cf.T + cf.period + SLACK
    w.until(end)
    if w.closed is None:
        raise Violation('idle:not-closed', '%s: silent for %.2f s of %.2f s and not closed, %d pings' % (what, time.monotonic() - w.last, cf.T, len(w.pings)))
    took = w.closed - w.last
    if took < cf.T - 0.003 - early:
        raise Violation('idle:early', '%s: closed %.3f s after the last activity, timeout %.2f s' % (what, took, cf.T))
    if told and not (cf.faults and w.code is None):
        if w.code != 1013:
            raise Violation('idle:code', '%s: closed with %s' % (what, w.code))
        if w.until(time.monotonic() + 5) and True:
            raise Violation('idle:half-closed', '%s: the connection stays open after the close frame' % what)
    elif not told and (w.code is not None or w.pings or w.msgs):
        raise Violation('idle:unasked', '%s: frames were sent before the handshake: %s' % (what, w.code))


def alive(w, what):
    if w.closed:
        raise Violation('idle:active-closed', '%s: closed with %s although it was active %.3f s ago' % (what, w.code, w.closed - w.last))


def pinged(cf, w, start, end, what):
    """Pings came about as often as configured."""
    n = len([t for t in w.pings if start <= t <= end])
    if not cf.P or cf.T < 0:
        if n:
            raise Violation('idle:pinged', '%s: %d pings, none configured' % (what, n))
        return
    most = (end - start) / cf.period + 1
    least = (end - start) / (cf.period + 0.25) - 1.5
    if not least <= n <= most:
        raise Violation('idle:ping-rate', '%s: %d pings in %.2f s, one every %.3f s is configured' % (what, n, end - start, cf.period))


# behaviours: (ctx, cf, rng, connect) -> None

def connect(s, rng, tls, deflate, **kw):
    t = rng.choice(['1.2', '1.3']) if tls else None
    return Client(s.https if tls else s.http, tls=t, timeout=30, **kw)


def opened(s, rng, tls, deflate, proto='echo', **kw):
    c = connect(s, rng, tls, deflate, **kw)
    c.handshake(protocols=proto)
    return Watch(c)


def b_silent(cf, s, rng, tls, deflate):
    w = opened(s, rng, tls, deflate, rng.choice(['echo', 'broadcast']))
    t0 = time.monotonic()
    silent(cf, w, t0, 'silent client')
    pinged(cf, w, t0, w.closed - 0.001, 'silent client')


def b_chatty(cf, s, rng, tls, deflate):
    w = opened(s, rng, tls, deflate)
    t0 = time.monotonic()
    end = t0 + cf.D
    sent = []
    while time.monotonic() < end:
        op = rng.choice([TEXT, BIN])
        d = payload(rng, op, rng.choice([0, 1, 100, 3000, 70000]))
        w.send(frame(op, d))
        sent.append((op, d))
        w.until(min(end, time.monotonic() + rng.uniform(0.05, 0.5) * cf.T))
        alive(w, 'client that sends messages')
    w.until(time.monotonic() + 2)
    if w.msgs != sent[:len(w.msgs)] or len(w.msgs) < len(sent):
        raise Violation('idle:messages', '%d of %d messages came back' % (len(w.msgs), len(sent)))
    pinged(cf, w, t0, end, 'client that sends messages')
    if w.closed is None:
        silent(cf, w, end, 'client that has become silent')


def b_pong(cf, s, rng, tls, deflate):
    w = opened(s, rng, tls, deflate)
    w.answer = True
    t0 = time.monotonic()
    w.until(t0 + cf.D)
    alive(w, 'client that answers pings')
    pinged(cf, w, t0, t0 + cf.D, 'client that answers pings')
    w.send(frame(TEXT, b'still here'))
    w.until(time.monotonic() + 0.3 * cf.T)
    if w.msgs != [(TEXT, b'still here')]:
        raise Violation('idle:service', 'a client that answered pings is not served: %s' % w.msgs)
    silent(cf, w, t0, 'client that has stopped answering pings')


def b_controls(cf, s, rng, tls, deflate):
    """Active by control frames or parts of a message only."""
    w = opened(s, rng, tls, deflate)
    t0 = time.monotonic()
    kind = rng.choice(['pong', 'ping', 'fragments', 'bytes'])
    first = True
    got = None
    f = frame(TEXT, b'q' * 300)
    at = 0
    while time.monotonic() < t0 + cf.D:
        if kind == 'pong':
            w.send(frame(PONG, b'unsolicited'))
        elif kind == 'fragments':
            w.send(frame(TEXT if first else CONT, b'part ', fin=False))
            first = False
        elif kind == 'bytes':
            w.send(f[at:at + 1])
            at += 1
        else:
            w.c.send(frame(PING, b''))
            w.last = time.monotonic()
            # the pong is not among the counted
        w.until(time.monotonic() + rng.uniform(0.1, 0.5) * cf.T)
        alive(w, 'client active by ' + kind)
    pinged(cf, w, t0, t0 + cf.D, 'client active by ' + kind)
    silent(cf, w, t0, 'client no longer active by ' + kind)


def b_half(cf, s, rng, tls, deflate):
    w = opened(s, rng, tls, deflate)
    f = frame(TEXT, b'x' * rng.choice([0, 1, 200, 70000]))
    w.send(f[:rng.randrange(1, len(f))] if rng.random() < 0.7 else frame(TEXT, b'begun', fin=False))
    silent(cf, w, 0, 'client with half a frame')


def b_tcp(cf, s, rng, tls, deflate):
    """Never finishes the request."""
    t0 = time.monotonic()
    c = connect(s, rng, tls and rng.random() < 0.6, deflate)
    w = Watch(c)
    w.last = t0 if not c.tls else w.last
    what = 'client that never starts a request'
    if rng.random() < 0.6:
        r = request(port=c.port)[0]
        w.send(r[:rng.randrange(1, len(r) - 1)])
        what = 'client that never finishes its request'
    # for TLS: the server may see the handshake as finished before the client does
    silent(cf, w, 0, what, told=False, early=0.05 if c.tls else 0)


def b_tlshello(cf, s, rng, tls, deflate):
    """Never finishes the TLS handshake."""
    if not tls:
        return b_tcp(cf, s, rng, tls, deflate)
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    x = ctx.wrap_bio(i, o)
    try:
        x.do_handshake()
    except ssl.SSLWantReadError:
        pass
    hello = o.read()
    k = rng.choice([0, 1, 5, len(hello) - 1, len(hello)])
    c = Client(s.https, timeout=30)
    last = time.monotonic()
    if k:
        c.send(hello[:k])
    end = last + cf.T + cf.period + SLACK
    while True:
        try:
            c.fill(end)
        except Closed:
            break
        except Timeout:
            raise Violation('idle:not-closed', 'TLS handshake with %d of %d bytes of the hello: not closed after %.2f s' % (k, len(hello), time.monotonic() - last))
    if time.monotonic() - last < cf.T - 0.003:
        raise Violation('idle:early', 'TLS handshake closed after %.3f s' % (time.monotonic() - last))


def b_slowhs(cf, s, rng, tls, deflate):
    """Takes long for its request, but is never silent for long."""
    c = connect(s, rng, tls, deflate)
    r = request(port=c.port, path='/slow')[0]
    cut = sorted(rng.sample(range(1, len(r)), 5)) + [len(r)]
    at = 0
    for k in cut:
        try:
            c.send(r[at:k])
        except OSError as e:
            raise Violation('idle:active-closed', 'during a slow request: %r' % e)
        at = k
        if k < len(r):
            time.sleep(rng.uniform(0.1, 0.5) * cf.T)
    try:
        h = c.read_http(10)
    except Closed:
        raise Violation('idle:active-closed', 'a slow but steady request was cut off')
    if h.status != 101:
        raise Violation('idle:slow-request', '%r' % h)
    silent(cf, Watch(c), 0, 'silent client with a slow request', early=0.05)


def b_stuck(cf, s, rng, tls, deflate):
    """Does not read what it is sent, is silent otherwise."""
    w = opened(s, rng, tls, deflate, rcvbuf=4096)
    d = blob(rng, 900000)
    n = 16
    for i in range(n):
        f = frame(BIN, d)
        w.c.sock.settimeout(1)
        try:
            w.c.send(f)
        except (socket.timeout, OSError, Timeout):
            break
    w.last = time.monotonic()
    time.sleep(cf.T + cf.period + SLACK)
    # now everything that was on its way is read, it must end
    end = time.monotonic() + 15
    got = 0
    while True:
        try:
            w.c.fill(min(end, time.monotonic() + 1.5))
            got += len(w.c.buf)
            w.c.buf = bytearray()
        except Closed:
            break
        except Timeout:
            raise Violation('idle:stuck', 'a silent client that does not read was not closed in %.1f s, timeout %.2f s; it could go on reading %d bytes' % (
                cf.T + cf.period + SLACK, cf.T, got))


BEHAVE = [b_silent, b_chatty, b_pong, b_controls, b_half, b_tcp, b_tlshello, b_slowhs, b_stuck]


def parallel(ctx, jobs):
    err = []

    def run(f):
        try:
            f()
        except BaseException as e:
            err.append(e)
    ts = [threading.Thread(target=run, args=(f,)) for f in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in err:
        if isinstance(e, Violation):
            raise e
    if err:
        raise err[0]


def idle(ctx, variant, T, P, each, tls, chaos=None, deflate=None, only=None):
    rng = ctx.rng
    cf = Cfg(T / 1000, P, 3.2 * T / 1000, chaos is not None and chaos[2] > 0)
    with ctx.server(variant, {'setup': {'timeouts': {'client': T, 'pings': P}, 'pool': {'workers': 6}}}, tls=tls, chaos=chaos, deflate=deflate) as s:
        jobs = []
        for b in only or BEHAVE:
            if b is b_pong and P < 2:
                continue
            for i in range(each):
                t = tls and rng.random() < 0.5
                r = random.Random(rng.random())

                def one(b=b, r=r, t=t):
                    time.sleep(r.uniform(0, cf.T))
                    b(cf, s, r, t, deflate)
                    ctx.case((b.__name__, T, P, t, variant, deflate))
                jobs.append(one)
        parallel(ctx, jobs)


def never(ctx, variant, P, seconds, tls, T=-1):
    """Without a client timeout, or long before it, nothing is closed or pinged."""
    rng = ctx.rng
    short = P > 2 and T / P < 1000 * seconds
    with ctx.server(variant, {'setup': {'timeouts': {'client': T, 'pings': P}}}, tls=tls) as s:
        ws = []
        for i in range(4):
            w = opened(s, rng, tls and i % 2 == 0, None)
            ws.append((w, b''))
        half = connect(s, rng, False, None)
        r = request(port=half.port)[0]
        half.send(r[:40])
        for i in range(2):
            w = opened(s, rng, tls and i % 2 == 0, None)
            f = frame(TEXT, b'in two parts')
            w.send(f[:7])
            ws.append((w, f[7:]))
        time.sleep(seconds)
        for w, rest in ws:
            if not w.until(time.monotonic() + 0.05) or (w.pings and not short) or w.closed or w.msgs:
                raise Violation('idle:unconfigured', 'closed or pinged without a timeout: %s %s' % (w.closed, w.pings))
            w.send(rest or frame(TEXT, b'in two parts'))
            w.until(time.monotonic() + 1)
            ctx.check(w.msgs == [(TEXT, b'in two parts')], 'idle:service', '%s' % w.msgs)
            ctx.case(('never', T, P, rest != b'', w.c.tls))
        half.send(r[40:])
        ctx.check(half.read_http().status == 101, 'idle:service', 'half a request')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    each = 3
    n = 0
    for v, T, P, tls, chaos, defl in [('rel', 1500, 3, True, None, None), ('rel', 2400, 2, False, None, ''), ('poll', 1500, 4, True, None, None),
                                      ('rel', 1500, 0, True, None, None), ('relc', 2000, 4, True, (60, 800, 20), None), ('rel', 2000, 20, False, None, None)] + (
            [(rng.choice(['rel', 'poll', 'relc']), rng.choice([1200, 2000, 3100, 5000]), rng.choice([0, 2, 3, 5, 10, 40]), bool(i % 2), None, rng.choice([None, '']))
             for i in range(24)] if deep else []):
        out.append(Scenario('idle-%d' % n, idle, variant=v, T=T, P=P, each=each * (2 if deep else 1), tls=tls, chaos=chaos, deflate=defl, confirm=True, weight=1, timeout=150))
        n += 1
    # long enough to tell a multiple of the timeout from it
    lazy = [b_silent, b_half, b_tcp, b_tlshello, b_stuck]
    out.append(Scenario('idle-long', idle, variant='rel', T=6000, P=6, each=2, tls=True, only=lazy, confirm=True, timeout=150))
    out.append(Scenario('idle-long-poll', idle, variant='poll', T=5500, P=0 if deep else 8, each=2, tls=False, only=lazy, confirm=True, timeout=150))
    # many clients: all of them are seen to
    out.append(Scenario('idle-many', idle, variant='rel', T=4000, P=3, each=400 if deep else 150, tls=False, only=[b_silent], confirm=True, weight=2, timeout=150))
    out.append(Scenario('idle-many-poll', idle, variant='poll', T=4500, P=2, each=40, tls=True, only=[b_silent, b_pong, b_half], confirm=True, weight=2, timeout=150))
    out.append(Scenario('idle-tsan', idle, variant='tsan', T=2000, P=3, each=2, tls=True, confirm=True, timeout=150))
    out.append(Scenario('never-0', never, variant='rel', P=0, seconds=20 if deep else 4, tls=True))
    out.append(Scenario('never-3', never, variant='rel', P=3, seconds=20 if deep else 4, tls=True))
    for i, (T, P) in enumerate([(65536 + 1300, 0), (2 * 65536 + 2000, 2), (16777216 + 1500, 1), (2147483647, 0), (86400000, 24), (65536 + 500, 60), (131072 + 300, 150)]):
        out.append(Scenario('later-%d' % i, never, variant='poll' if i == 2 else 'rel', T=T, P=P, seconds=20 if deep else 4, tls=i == 1))
    return out

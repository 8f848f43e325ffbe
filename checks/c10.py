"""C10: concurrent clients never cause a data race, deadlock or lost wake-up."""
import random
import select
import socket
import struct
import threading
import time

from vlib import hostile
from vlib.check import Scenario, Violation, short
from vlib.work import negotiated, payload, peer, segments
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

PROPERTY = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('ThreadSanitizer (happens-before races and lock-order inversions) over concurrent workloads with injected delays at lock and system calls, and '
             'progress monitors: every request of an honest client must be answered, and a client that waits while no thread of the server runs is a lost wake-up')
NOTE = ('Interleavings are sampled by stress and by injected delays; ThreadSanitizer reports a race whenever two unordered accesses are executed, whatever '
        'their actual order was.')
VARIANTS = ['rel', 'relc', 'poll', 'tsan', 'tsanrp', 'tsan2']
RULE = ('a case is one answered request of an honest client or one completed life of a hostile one; distinct by kind, size, transport, and by windows of the '
        'order in which the answers of concurrent clients arrived')
ASSUMPTIONS = ['ThreadSanitizer sees only code compiled with it: OpenSSL, zlib and the C library are modelled by its interceptors']

PATIENCE = 25


class Order:
    """Order in which answers arrive at concurrent clients: distinct windows are
    distinct schedules of the server as far as clients can tell."""
    def __init__(self, ctx, n=6):
        self.ctx, self.n = ctx, n
        self.lock = threading.Lock()
        self.win = []
        self.seen = set()

    def note(self, who, what):
        with self.lock:
            self.win.append((who, what))
            if len(self.win) > self.n:
                del self.win[0]
                names = {}
                self.seen.add(tuple((names.setdefault(w, len(names)), k) for w, k in self.win))

    def done(self):
        for k in self.seen:
            self.ctx.case(('order', k), n=0)
        self.ctx.count('distinct_orders', len(self.seen))


class Honest:
    """Requests and answers in turn; an answer that does not come is reported."""
    def __init__(self, ctx, s, rng, order, num, tls=False, deflate=False, timeouts=False, limit=70000):
        self.limit = limit
        self.ctx, self.s, self.rng, self.order, self.num = ctx, s, rng, order, num
        self.tls, self.deflate, self.timeouts = tls, deflate, timeouts

    def life(self, rounds):
        rng, s, ctx = self.rng, self.s, self.ctx
        t = rng.choice([None, '1.2', '1.3']) if self.tls else None
        c = Client(s.https if t else s.http, tls=t, timeout=PATIENCE)
        ext = rng.choice([None, 'permessage-deflate', 'permessage-deflate; server_no_context_takeover']) if self.deflate else None
        p = negotiated(c.handshake(protocols=rng.choice([None, 'echo', 'broadcast, echo', 'nothing, echo'][:2]), extensions=ext, timeout=PATIENCE))
        d = None
        if p is not None:
            d = peer(p)
            c.deflate, c.rsv1_ok = d, True
        self.order.note(self.num, 'open')
        for i in range(rounds):
            op = rng.choice([TEXT, BIN])
            m = payload(rng, op, min(self.limit, rng.choice([0, 1, 10, 125, 126, 500, 1400, 9000, 70000])))
            w = d.compress(m) if d is not None and rng.random() < 0.7 else None
            rsv, body = (4, w) if w is not None else (0, m)
            if rng.random() < 0.3:
                k = rng.randrange(len(body) + 1)
                data = frame(op, body[:k], fin=False, rsv=rsv) + frame(PING, b'p%d' % i) + frame(CONT, body[k:])
                pong = b'p%d' % i
            else:
                data, pong = frame(op, body, rsv=rsv), None
            if rng.random() < 0.4:
                k = rng.randrange(len(data) + 1)
                c.send(data[:k])
                if rng.random() < 0.7:
                    time.sleep(rng.random() * 0.0005)
                c.send(data[k:])
            else:
                c.send(data)
            while True:
                try:
                    o, x = c.read_event(PATIENCE)
                except Timeout as e:
                    raise Timeout('%s: the answer to message %d of client %d (%d bytes)' % (e, i, self.num, len(m)))
                if o == PING:
                    c.send(frame(PONG, x))
                elif o == PONG:
                    if x != pong:
                        raise Violation('progress:pong', '%r instead of %r' % (x, pong))
                    pong = None
                elif (o, x) == (op, m):
                    break
                elif o == CLOSE and self.timeouts and x[:2] == b'\x03\xf5':
                    c.close()
                    ctx.count('timed_out')
                    return
                else:
                    raise Violation('progress:differs', 'opcode %d, %s instead of %d, %s' % (o, short(x), op, short(m)))
            if pong is not None:
                raise Violation('progress:pong', 'the ping between the fragments was not answered before the message')
            self.order.note(self.num, 'answer')
            ctx.case(('answer', op, len(m), t, d is not None), sample='%d bytes, %s' % (len(m), t or 'plain'))
        if rng.random() < 0.5:
            c.goodbye(timeout=PATIENCE)
            c.close()
        else:
            c.close(abort=rng.random() < 0.5)
        self.order.note(self.num, 'close')
        ctx.count('honest_connections')

    def run(self, lives, rounds):
        for i in range(lives):
            self.life(self.rng.randrange(1, rounds + 1))


def parallel(jobs):
    """Runs functions at the same time, raises the first error."""
    errs = []

    def run(f):
        try:
            f()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=run, args=(f,), daemon=True) for f in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        raise errs[0]


def storm(ctx, variant, lives, rounds=8, honest=4, mobs=4, tls=False, deflate=None, workers=8, timeouts=False, end='quiet', chaos=None, size=None, kinds=None):
    conf = {'setup': {'pool': {'workers': workers}, 'size': size or {}, 'favicon': '/repo/resources/favicon.ico'}}
    if timeouts:
        conf['setup']['timeouts'] = {'client': 250, 'pings': 2, 'read': 200, 'write': 200}
    with ctx.server(variant, conf, tls=tls, deflate=deflate, leaks=False, chaos=chaos) as s:
        order = Order(ctx)
        over = threading.Event()
        errs = []
        crowd = hostile.crowd(ctx, s, 1 << 30, mobs, errors=errs, tls=tls, deflate=deflate is not None, kinds=kinds, patience=0.01) if False else []

        def mob(seed):
            m = hostile.Mob(ctx, s, random.Random(seed), tls=tls, deflate=deflate is not None, kinds=kinds, patience=0.01)
            while not over.is_set():
                m.one()

        ms = [threading.Thread(target=mob, args=(ctx.rng.random(),), daemon=True) for _ in range(mobs)]
        for t in ms:
            t.start()
        try:
            parallel([lambda k=k, r=random.Random(ctx.rng.random()): Honest(ctx, s, r, order, k, tls, deflate is not None, timeouts, 9000 if size else 70000).run(lives, rounds) for k in range(honest)])
        except BaseException:
            over.set()
            raise
        order.done()
        if end == 'busy':
            # interrupted in the middle of it all
            alive = s.alive()
            st = s.stop(40)
            over.set()
            judge(ctx, s, alive, st)
            s.proc = None
            ctx.count('busy_shutdowns')
        over.set()
        for t in ms:
            t.join(20)


def judge(ctx, s, alive, st):
    from vlib.check import Watched
    w = Watched(ctx)
    w.s = s
    w.judge(alive, st)


def wave(ctx, variant, clients, rounds, workers=4, tls=None, chaos=None, parts=True):
    """Many connections become ready at the same moment, again and again, many
    more than there are workers; each must be served."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}}}, tls=tls is not None, chaos=chaos) as s:
        order = Order(ctx, 4)
        cs = []
        for i in range(clients):
            c = Client(s.https if tls else s.http, tls=tls, timeout=PATIENCE)
            cs.append(c)
        for c in cs:
            c.handshake(timeout=PATIENCE)
        for r in range(rounds):
            part = rng.sample(cs, rng.randrange(1, clients + 1))
            body = b'%d' % r
            data = frame(TEXT, body)
            if parts and rng.random() < 0.5:
                k = rng.randrange(1, len(data))
                for c in part:
                    c.send(data[:k])
                if rng.random() < 0.5:
                    time.sleep(rng.random() * 0.001)
                for c in part:
                    c.send(data[k:])
            else:
                for c in part:
                    c.send(data)
            for i, c in enumerate(part):
                try:
                    got = c.read_event(PATIENCE)
                except Timeout as e:
                    raise Timeout('%s: round %d, client %d of %d' % (e, r, i, len(part)))
                if got != (TEXT, body):
                    raise Violation('progress:differs', '%r instead of %r' % (got, body))
            ctx.case(('wave', len(part), len(data), variant, tls), n=len(part), sample='%d connections at once' % len(part))
        for c in cs:
            c.close()


def turns(ctx, variant, clients, n, workers=4, chaos=None, tls=None):
    """Short requests in two pieces, the second one sent at about the moment the
    server has seen the first."""
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}}}, tls=tls is not None, chaos=chaos) as s:
        order = Order(ctx)

        def one(k, rng):
            c = Client(s.https if tls else s.http, tls=tls, timeout=PATIENCE)
            c.handshake(timeout=PATIENCE)
            for i in range(n):
                body = b'%d.%d' % (k, i)
                data = frame(TEXT, body)
                cut = rng.randrange(0, len(data))
                if cut:
                    c.send(data[:cut])
                    g = rng.random()
                    if g < 0.7:
                        t = time.monotonic() + g * 0.0003
                        while time.monotonic() < t:
                            pass
                c.send(data[cut:])
                try:
                    got = c.read_event(PATIENCE)
                except Timeout as e:
                    raise Timeout('%s: request %d of client %d, cut after %d bytes' % (e, i, k, cut))
                if got != (TEXT, body):
                    raise Violation('progress:differs', '%r instead of %r' % (got, body))
                order.note(k, 'answer')
                ctx.case(('turn', cut, len(data), tls, variant))
            c.goodbye(timeout=PATIENCE)
            c.close()
        parallel([lambda k=k, r=random.Random(ctx.rng.random()): one(k, r) for k in range(clients)])
        order.done()


def jam(ctx, variant, members, seconds, workers=4, ring=64, tls=False, chaos=None):
    """Everybody in the room talks and nobody listens, so every write blocks;
    others must be served all the same and the room must not stay stuck."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}, 'size': {'ringbuffer': ring}}}, tls=tls, leaks=False, chaos=chaos) as s:
        order = Order(ctx)
        over = threading.Event()
        stats = [0, 0]

        def talk(k, rng):
            while not over.is_set():
                t = rng.choice([None, '1.3']) if tls else None
                c = Client(s.https if t else s.http, tls=t, timeout=PATIENCE, rcvbuf=None if t else 4096)
                c.handshake(protocols='broadcast', timeout=PATIENCE)
                try:
                    c.sock.settimeout(0.2) if not t else None
                    for i in range(rng.randrange(5, 200)):
                        if over.is_set():
                            break
                        c.send(frame(BIN, rng.randbytes(rng.choice([1, 1000, 20000, 60000]))))
                        stats[0] += 1
                        if rng.random() < 0.05:
                            time.sleep(0.01)
                except (OSError, Closed, Timeout):
                    pass
                stats[1] += 1
                c.close(abort=rng.random() < 0.5)

        def listen(rng):
            # reads everything it gets
            while not over.is_set():
                c = Client(s.http, timeout=PATIENCE)
                c.handshake(protocols='broadcast', timeout=PATIENCE)
                try:
                    t = time.monotonic() + rng.random()
                    while time.monotonic() < t and not over.is_set():
                        try:
                            c.read_event(0.05)
                        except Timeout:
                            pass
                except (OSError, Closed):
                    ctx.count('listener_dropped')
                c.close()

        ts = [threading.Thread(target=talk, args=(k, random.Random(rng.random())), daemon=True) for k in range(members)]
        ts += [threading.Thread(target=listen, args=(random.Random(rng.random()),), daemon=True) for k in range(2)]
        for t in ts:
            t.start()
        h = Honest(ctx, s, random.Random(rng.random()), order, 0, tls)
        end = time.monotonic() + seconds
        try:
            while time.monotonic() < end:
                h.life(6)
        finally:
            over.set()
        for t in ts:
            t.join(PATIENCE)
        h.life(10)
        order.done()
        ctx.count('jam_messages', stats[0])
        ctx.count('jam_lives', stats[1])


def reuse(ctx, variant, seconds, members=6, threads=8, workers=6, chaos=None, client=-1):
    """Clients whose request is there before they are accepted take over the
    descriptors of others, for which events are still on their way."""
    rng = ctx.rng
    conf = {'setup': {'timeouts': {'client': client, 'pings': 1}, 'pool': {'workers': workers}, 'size': {'buffer': 1024, 'ringbuffer': 64}}}
    with ctx.server(variant, conf, chaos=chaos) as s:
        end = time.monotonic() + seconds
        n = [0, 0]

        def hasty(r):
            while time.monotonic() < end:
                k = socket.socket()
                try:
                    k.settimeout(5)
                    if r.random() < 0.5:
                        k.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
                    k.connect(('127.0.0.1', s.http))
                    q, _ = request(port=s.http, protocols=r.choice(['broadcast', 'broadcast', 'echo']))
                    k.sendall(q)
                    n[0] += 1
                    if r.random() < 0.8:
                        k.recv(4000)
                    for _ in range(r.randrange(12)):
                        k.sendall(frame(BIN, bytes(r.choice([0, 10, 1000, 20000]))))
                        if r.random() < 0.5:
                            k.settimeout(r.choice([0.001, 0.02]))
                            try:
                                k.recv(30000)
                            except socket.timeout:
                                pass
                            k.settimeout(5)
                    if r.random() < 0.6:
                        k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                except socket.timeout:
                    pass
                except OSError:
                    n[1] += 1
                finally:
                    k.close()
        ts = [threading.Thread(target=hasty, args=(random.Random(rng.random()),)) for _ in range(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        alive = s.alive()
        if alive:
            c = Client(s.http, timeout=20)
            c.handshake(protocols='echo')
            c.send(frame(TEXT, b'still there'))
            e = c.read_event()
            while e[0] == PING:
                e = c.read_event()
            if e != (TEXT, b'still there') and not (client >= 0 and e[0] == CLOSE):
                raise Violation('reuse:echo', 'no echo afterwards, but %r' % (e,))
            c.close()
        judge(ctx, s, alive, s.stop(40))
        s.proc = None
        ctx.count('hasty', n[0])
        ctx.case(('reuse', variant, workers, client, n[0]), sample='%d connections, %d of them cut off' % (n[0], n[1]))


def inspected(ctx, variant, seconds, client, pings, tls=True, deflate=None, chaos=None, kinds=None, mobs=6):
    """The thread that checks for timeouts looks at every session all the time,
    whatever is happening to it."""
    conf = {'setup': {'pool': {'workers': 6}, 'timeouts': {'client': client, 'pings': pings}}}
    with ctx.server(variant, conf, tls=tls, deflate=deflate, leaks=False, chaos=chaos) as s:
        end = time.monotonic() + seconds
        n = [0]

        def mob(r):
            m = hostile.Mob(ctx, s, r, tls=tls, deflate=deflate is not None, kinds=kinds, patience=0.01)
            while time.monotonic() < end:
                m.one()
                n[0] += 1
        parallel([lambda r=random.Random(ctx.rng.random()): mob(r) for _ in range(mobs)])
        ctx.case(('inspected', variant, client, pings, tuple(kinds or ()), chaos), sample='%d connections under inspection every %.1f ms' % (n[0], client / pings))
        ctx.count('inspected_connections', n[0])
        c = Client(s.http, timeout=20)
        c.handshake()
        c.send(frame(TEXT, b'at last'))
        e = c.read_event()
        while e[0] == PING:
            e = c.read_event()
        ctx.check(e == (TEXT, b'at last'), 'alive:echo', 'after the workload %s' % short(e))
        c.close()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 8 if deep else 1
    out = []
    for i in range(4 if deep else 1):
        d = (60, 300, 10) if i % 2 == 0 else (15, 3000, 0)
        out.append(Scenario('tsan-%d' % i, storm, variant='tsan', lives=40 * k, weight=2))
        out.append(Scenario('tsan-tls-deflate-%d' % i, storm, variant='tsan', lives=30 * k, tls=True, deflate='', weight=2))
        out.append(Scenario('tsan-delays-%d' % i, storm, variant='tsan', lives=30 * k, deflate='', chaos=d, weight=2, end='busy'))
        out.append(Scenario('tsan-timeouts-%d' % i, storm, variant='tsan', lives=30 * k, timeouts=True, tls=True, chaos=d if i % 2 else None, weight=2))
        out.append(Scenario('tsan-timeouts-delays-%d' % i, storm, variant='tsan', lives=25 * k, timeouts=True, chaos=d, weight=2, end='busy'))
        out.append(Scenario('tsan-rooms-%d' % i, storm, variant='tsan', lives=25 * k, kinds=['rooms', 'rooms', 'churn', 'unread'], weight=2, end='busy'))
        out.append(Scenario('tsan-rpmalloc-%d' % i, storm, variant='tsanrp', lives=30 * k, deflate='', weight=2))
        out.append(Scenario('tsan-poll-%d' % i, storm, variant='tsan2', lives=30 * k, deflate='', chaos=d if i % 2 else None, weight=2, timeouts=bool(i % 2)))
        out.append(Scenario('tsan-jam-%d' % i, jam, variant='tsan', members=4, seconds=4 * k, weight=2))
        out.append(Scenario('tsan-small-%d' % i, storm, variant='tsan', lives=25 * k, deflate='', weight=2,
                            size={'buffer': 64, 'ringbuffer': 8, 'frame': 30000, 'payload': 2000000, 'fragmented': 100}, kinds=['rooms', 'churn', 'stream', 'unread']))
    hello = ['tlsbytes', 'tlscut', 'tlscut']
    for i in range(4 if deep else 1):
        for j, (kinds, ch) in enumerate([(hello, None), (hello, (300, 1000, 0)), (None, None), (None, (100, 500, 10))]):
            out.append(Scenario('tsan-inspected-%d-%d' % (i, j), inspected, variant='tsan', seconds=5 * k if not deep else 20, client=800, pings=600, kinds=kinds, chaos=ch,
                                deflate='' if j > 1 else None, weight=2))
        out.append(Scenario('tsan-inspected-poll-%d' % i, inspected, variant='tsan2', seconds=5 if not deep else 20, client=800, pings=600, tls=False, chaos=(100, 500, 10), weight=2))
    for v in ('rel', 'relc', 'poll'):
        for i in range(3 if deep else 1):
            c = (30, 400, 5) if v == 'relc' else None
            out.append(Scenario('turns-%s-%d' % (v, i), turns, variant=v, clients=6, n=1500 * k if v != 'relc' else 700 * k, workers=[4, 1, 8][i], chaos=c, weight=2))
            out.append(Scenario('wave-%s-%d' % (v, i), wave, variant=v, clients=150, rounds=60 * k, workers=[2, 4, 8][i], chaos=c))
            out.append(Scenario('jam-%s-%d' % (v, i), jam, variant=v, members=6, seconds=3 * k, workers=[4, 2, 8][i], chaos=c, tls=i == 0 and v == 'rel', weight=2))
            out.append(Scenario('storm-%s-%d' % (v, i), storm, variant=v, lives=30 * k, tls=v != 'poll', deflate='', chaos=c, weight=2, end='busy'))
            if v == 'relc':
                for j in range(2):
                    out.append(Scenario('storm-places-%d-%d' % (i, j), storm, variant=v, lives=25 * k, deflate='', chaos=(200, 1500, 10, 150), weight=2, end='busy', timeouts=bool(j)))
    for i, (v, c) in enumerate([('relc', (60, 500, 20)), ('relc', (200, 2000, 40, 100)), ('relc', (200, 1000, 60, 250)), ('relc', (400, 500, 60, 200)), ('relc', (300, 1500, 40, 150)), ('relc', (60, 500, 40)), ('tsan', (200, 3000, 0, 200)), ('poll', (200, 3000, 0, 200))]):
        for j in range(3 if deep else 1):
            out.append(Scenario('reuse-%d-%d' % (i, j), reuse, variant=v, seconds=3 * k, chaos=c, client=[-1, 200][(i + j) % 2], weight=2))
    out.append(Scenario('turns-tls', turns, variant='rel', clients=6, n=700 * k, tls='1.3', weight=2))
    out.append(Scenario('wave-tls', wave, variant='rel', clients=60, rounds=40 * k, tls='1.2'))
    return out

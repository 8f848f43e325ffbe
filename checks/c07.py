"""C07: broadcast delivers each message exactly once to every other member, per
sender in order, and to nobody else."""
import random
import threading
import time

from vlib.check import Scenario, Violation, short
from vlib.work import Msg, marathon, negotiated, peer, segments
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame

PROPERTY = 'C07'
LEVEL = 'exploration'
TECHNIQUE = ('online trace checking of every receiver: self-describing numbered messages, per-sender sequence automata at each receiver, membership '
             'intervals taken from the handshake responses')
NOTE = ('Schedules are sampled: bursts of several senders, joins and leaves at random moments, several worker counts. A sender never has more '
        'outstanding than half of a receiver\'s ring buffer (C15 covers what happens beyond).')
VARIANTS = ['rel', 'poll', 'tsan', 'relc']
RULE = ('a case is one delivery (sender, message, receiver); distinct by size, type, number of frames, kind of receiver and configuration. Deliveries '
        'of permanent members are compared with everything sent; those of joining and leaving clients must be a gap-free range per sender.')
ASSUMPTIONS = ['a client is a member from the moment its 101 response can be read until it closes']

SIZES = [0, 1, 5, 60, 110, 118, 125, 126, 127, 300, 999, 1000, 1001, 4000, 16384, 33000, 65535, 65536]


def empty(sender, seq, share):
    """Some messages are empty and hence do not tell where they belong."""
    return seq > 0 and random.Random('%d|%d' % (sender, seq)).random() < share


def spec(sender, seq, limit, share=0):
    """(opcode, data) of message seq of a sender."""
    r = random.Random('%d/%d' % (sender, seq))
    if empty(sender, seq, share):
        return r.choice([TEXT, BIN]), b''
    n = min(limit, r.choice(SIZES) if r.random() < 0.5 else r.randrange(0, 200))
    head = b'%d:%d:' % (sender, seq)
    fill = bytes(r.randrange(32, 127) for _ in range(37))
    data = head + (fill * (n // 37 + 1))[:n]
    if r.random() < 0.5:
        return TEXT, data
    return BIN, data + b'\xff\xfe'


class Hub:
    def __init__(self, ctx, s, limit, empties=0.0):
        self.ctx, self.s, self.limit, self.empties = ctx, s, limit, empties
        self.blank = {}     # sender -> number of empty messages sent
        self.lock = threading.Lock()
        self.cond = threading.Condition(self.lock)
        self.err = None
        self.last = {}      # sender -> messages sent
        self.at = {}        # (sender, seq) -> time just before it was sent
        self.members = []

    def fail(self, e):
        with self.lock:
            if self.err is None:
                self.err = e
            self.cond.notify_all()


class Member:
    def __init__(self, hub, num, tls=None, ext=None, kind='member', rcvbuf=None):
        self.hub, self.num, self.kind = hub, num, kind
        self.rng = random.Random(num * 7919 + hub.ctx.seed)
        s = hub.s
        # joined: everything sent from now on is expected. The clock is read after
        # the response was, so that what is sent later finds the member listed.
        self.c = Client(s.https if tls else s.http, tls=tls, rcvbuf=rcvbuf)
        r = self.c.handshake(protocols='broadcast', extensions=ext)
        self.joined = time.monotonic()
        if r.get('sec-websocket-protocol') != 'broadcast':
            raise Violation('broadcast:protocol', 'answered %r' % r)
        self.deflate = None
        p = negotiated(r)
        if p is not None:
            self.deflate = peer(p)
            self.c.deflate = self.deflate
            self.c.rsv1_ok = True
        self.c.max_frame = s.frame_size
        self.seen = {}      # sender -> [first, last]
        self.blank = 0      # empty messages received
        self.owed = 0       # those that came before messages that were received
        self.pongs = 0
        self.pings = 0
        self.left = False
        self.closing = False
        self.wlock = threading.Lock()
        self.sent = 0
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        hub, c = self.hub, self.c
        try:
            while True:
                try:
                    op, d = c.read_event(3600)
                except (Closed, OSError, ValueError):
                    if self.closing:
                        return
                    raise
                if op == PONG:
                    with hub.lock:
                        self.pongs += 1
                        hub.cond.notify_all()
                    continue
                if op == CLOSE:
                    if self.closing:
                        continue
                    raise Violation('broadcast:closed', '%s %d was sent the close frame %s' % (self.kind, self.num, short(d)))
                if op not in (TEXT, BIN):
                    raise Violation('broadcast:frame', 'opcode %d' % op)
                self.take(op, d)
        except BaseException as e:
            hub.fail(e)

    def take(self, op, d):
        if not d:
            with self.hub.lock:
                self.blank += 1
                most = self.others()
                if self.blank > most:
                    raise Violation('broadcast:empty', '%s %d received %d empty messages, the others sent %d' % (self.kind, self.num, self.blank, most))
                self.hub.ctx.count('empty_messages')
                self.hub.cond.notify_all()
            return
        try:
            a, b, _ = d.split(b':', 2)
            snd, seq = int(a), int(b)
        except ValueError:
            raise Violation('broadcast:garbled', '%s %d received %s' % (self.kind, self.num, short(d)))
        if snd == self.num:
            raise Violation('broadcast:own', 'member %d received its own message %d' % (snd, seq))
        want = spec(snd, seq, self.hub.limit, self.hub.empties)
        if (op, d) != want:
            raise Violation('broadcast:differs', 'message %d of %d: %d %s instead of %d %s' % (seq, snd, op, short(d), want[0], short(want[1])))
        with self.hub.lock:
            r = self.seen.get(snd)
            if r is None:
                self.seen[snd] = [seq, seq]
            elif seq != self.next(snd, r[1]):
                raise Violation('broadcast:order', '%s %d received message %d of sender %d after message %d' % (self.kind, self.num, seq, snd, r[1]))
            else:
                self.owed += seq - r[1] - 1
                r[1] = seq
                if self.blank < self.owed:
                    raise Violation('broadcast:order', '%s %d received message %d of sender %d after %d empty messages instead of %d' % (
                        self.kind, self.num, seq, snd, self.blank, self.owed))
            self.hub.ctx.case((len(d), op, self.kind, self.deflate is not None, self.c.tls, self.hub.limit), sample='%d bytes to %s %d' % (len(d), self.kind, self.num))
            self.hub.cond.notify_all()

    def next(self, snd, seq):
        seq += 1
        while empty(snd, seq, self.hub.empties):
            seq += 1
        return seq

    def before(self, snd, seq):
        """The last message up to this that is not empty."""
        while empty(snd, seq, self.hub.empties):
            seq -= 1
        return seq

    def others(self):
        return sum(n for snd, n in self.hub.blank.items() if snd != self.num)

    def say(self, n, controls=0.1):
        """Sends the next n messages."""
        hub = self.hub
        try:
            for i in range(n):
                seq = self.sent
                op, d = spec(self.num, seq, hub.limit, hub.empties)
                comp = self.deflate is not None and self.rng.random() < 0.8
                m = Msg(self.rng, op, d, hub.s.frame_size, controls=controls, ctl_limit=min(125, hub.s.frame_size), deflate=self.deflate, compressed=comp, max_pings=2)
                with hub.lock:
                    self.pings += len(m.pings)
                    hub.at[(self.num, seq)] = time.monotonic()
                    hub.last[self.num] = seq
                    hub.blank[self.num] = hub.blank.get(self.num, 0) + (not d)
                self.sent += 1
                w = m.wire
                sizes, pause = segments(self.rng, w)
                self.c.send_segments(w, sizes, pause if len(sizes) < 20 else 0)
                hub.ctx.count('messages_sent')
                if self.rng.random() < 0.1:
                    time.sleep(self.rng.random() * 0.003)
        except BaseException as e:
            hub.fail(e)

    def missing(self, first):
        """What a member that is here since the beginning (first=True) or since it
        joined has not received of what was sent so far."""
        out = []
        for snd, last in self.hub.last.items():
            if snd == self.num:
                continue
            r = self.seen.get(snd)
            last = self.before(snd, last)
            if r is None or r[1] < last:
                if not first and r is None and self.hub.at[(snd, last)] <= self.joined:
                    continue
                out.append('message %d of sender %d' % ((r[1] + 1) if r else -1, snd))
        if first and self.blank < self.others():
            out.append('%d empty messages' % (self.others() - self.blank))
        if self.pongs < self.pings:
            out.append('%d pongs' % (self.pings - self.pongs))
        return out

    def gaps(self, first):
        """The beginning of what it saw."""
        for snd, r in self.seen.items():
            if r[0] == 0:
                continue
            if first or self.hub.at[(snd, self.before(snd, r[0] - 1))] > self.joined:
                raise Violation('broadcast:missed', '%s %d did not receive message %d of sender %d, sent %.1f ms after it joined; first is %d' % (
                    self.kind, self.num, self.before(snd, r[0] - 1), snd, 1000 * (self.hub.at[(snd, self.before(snd, r[0] - 1))] - self.joined), r[0]))

    def leave(self, how):
        self.closing = True
        try:
            if how == 'close':
                self.c.send(frame(CLOSE, b'\x03\xe8'))
                self.thread.join(15)
                if self.thread.is_alive():
                    raise Timeout('closing handshake of a leaving member')
            elif how == 'abort':
                self.c.close(abort=True)
            else:
                import socket
                self.c.sock.shutdown(socket.SHUT_RDWR)
        except (BrokenPipeError, ConnectionError, OSError):
            pass
        self.thread.join(5)
        if how != 'abort':
            self.c.close()


def settle(hub, members, firsts, timeout=25):
    end = time.monotonic() + timeout
    with hub.lock:
        while True:
            if hub.err:
                raise hub.err
            miss = [(m, m.missing(f)) for m, f in zip(members, firsts)]
            miss = [x for x in miss if x[1]]
            if not miss:
                break
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout('not delivered: %s' % ['%s %d: %s' % (m.kind, m.num, x) for m, x in miss[:5]])
            hub.cond.wait(min(left, 1))
        for m, f in zip(members, firsts):
            m.gaps(f)


def room(ctx, variant, conf, rounds, size, tls=False, deflate=None, limit=70000, churn=True, burst=None, chaos=None):
    rng = ctx.rng
    ring = conf.get('ringbuffer', 1024)
    c = {'setup': {'size': {k: v for k, v in conf.items() if k != 'workers'}, 'pool': {'workers': conf.get('workers', 4)}}}
    frame_size = conf.get('frame', 1048576)
    limit = min(limit, frame_size * 40)
    with ctx.server(variant, c, tls=tls, deflate=deflate, rec=True, rec_sink=True, chaos=chaos) as s:
        hub = Hub(ctx, s, limit, empties=0.1)
        counter = [0]

        def add(kind):
            counter[0] += 1
            ver = rng.choice([None, '1.2', '1.3']) if tls else None
            ext = None
            if deflate is not None and rng.random() < 0.7:
                ext = rng.choice(['permessage-deflate', 'permessage-deflate; client_no_context_takeover', 'permessage-deflate; server_no_context_takeover',
                                  'permessage-deflate; client_max_window_bits=10; server_max_window_bits=11'])
            return Member(hub, counter[0], tls=ver, ext=ext, kind=kind)
        perm = [add('member') for i in range(size)]
        late = []
        outsiders = []
        stop = threading.Event()

        def strangers(seed):
            """Clients of other subprotocols: they see only what they caused."""
            r = random.Random(seed)
            try:
                while not stop.is_set():
                    x = Client(s.http)
                    proto = r.choice([None, 'echo', 'rec', 'other'])
                    x.handshake(protocols=proto)
                    for i in range(r.randrange(0, 6)):
                        d = b'x%d' % r.randrange(1000000)
                        x.send(frame(BIN, d))
                        if proto != 'rec':
                            got = x.read_event(15)
                            if got != (BIN, d):
                                raise Violation('broadcast:stranger', 'client of %s received %s instead of its echo' % (proto, short(got)))
                    if not x.quiet(0.005):
                        raise Violation('broadcast:stranger', 'client of %s received %s' % (proto, bytes(x.buf[:60])))
                    ctx.count('strangers')
                    x.close(abort=r.random() < 0.5)
                    time.sleep(r.random() * 0.02)
            except BaseException as e:
                hub.fail(e)

        def coming_and_going(n):
            """Joins while messages fly; some stay for good."""
            for i in range(n):
                time.sleep(rng.random() * 0.01)
                m = add('joiner')
                ctx.count('joins')
                if rng.random() < 0.5:
                    late.append(m)
                else:
                    time.sleep(rng.random() * 0.02)
                    with hub.lock:
                        outsiders.append(m)
                    m.leave(rng.choice(['close', 'abort', 'end']))
                    with hub.lock:
                        m.gaps(False)
                    ctx.count('leaves')
        st = [threading.Thread(target=strangers, args=(rng.random(),), daemon=True) for _ in range(2 if churn else 0)]
        for t in st:
            t.start()
        window = max(1, (ring - 1) // 2)
        for rnd in range(rounds):
            senders = perm + late if rng.random() < 0.5 else rng.sample(perm + late, rng.randrange(1, len(perm + late) + 1))
            senders = senders[:window]
            per = max(1, min(burst or rng.choice([1, 3, 10, 20]), window // (len(senders)) if len(senders) else 1))
            # each message may come with up to two pings, and pongs share the ring
            controls = 0.15 if per * (len(senders) + 2) <= window else 0
            ts = [threading.Thread(target=m.say, args=(per, controls), daemon=True) for m in senders]
            for t in ts:
                t.start()
            if churn and len(late) < 8:
                coming_and_going(rng.randrange(0, 4))
            for t in ts:
                t.join(60)
            settle(hub, perm + late, [True] * len(perm) + [False] * len(late))
            ctx.count('rounds')
            if churn and late and rng.random() < 0.5:
                m = late.pop(rng.randrange(len(late)))
                m.leave(rng.choice(['close', 'abort', 'end']))
        stop.set()
        for t in st:
            t.join(20)
        if hub.err:
            raise hub.err
        # a duplicate of the last message would come now
        time.sleep(0.05)
        for m in perm + late:
            m.say(1, 0)
        settle(hub, perm + late, [True] * len(perm) + [False] * len(late))
        ctx.count('members', counter[0])
        ctx.count('max_members', len(perm) + len(late))
        for m in perm + late:
            m.closing = True
        for m in perm + late:
            if rng.random() < 0.5:
                m.leave('close')
        for m in perm + late:
            m.c.close()


def alone(ctx, variant, tls):
    """The sender alone in the room, and a room that empties and fills again."""
    with ctx.server(variant, tls=tls) as s:
        hub = Hub(ctx, s, 2000)
        for rnd in range(6):
            hub.last.clear()
            a = Member(hub, 2 * rnd + 1, kind='alone')
            a.say(5)
            settle(hub, [a], [True])
            b = Member(hub, 2 * rnd + 2, kind='second')
            with hub.lock:
                hub.last.pop(a.num)     # b came after these
            b.say(4)
            a.say(4)
            settle(hub, [a, b], [True, False])
            if b.seen.get(a.num, [None])[0] not in (5,):
                raise Violation('broadcast:history', 'a client that came after message 4 first saw message %s' % b.seen.get(a.num))
            a.leave('close')
            b.say(3)
            b.leave(ctx.rng.choice(['close', 'abort']))
            if hub.err:
                raise hub.err
            ctx.case(('alone', rnd, tls))


def hall(ctx, variant, n, rounds, tls=False):
    """Very many members: whoever speaks, each of the others hears it once, and
    those who were there longest or came last are no exception."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': 4}, 'timeouts': {'write': -1, 'read': -1}}}, tls=tls, nofile=4096) as s:
        there = []

        def come(k):
            for _ in range(k):
                c = Client(s.https if tls and rng.random() < 0.3 else s.http, timeout=30)
                if c.port == s.https:
                    c.close()
                    c = Client(s.https, tls='1.3', timeout=30)
                c.handshake(protocols='broadcast')
                there.append(c)
        come(n)
        said = 0
        for rnd in range(rounds):
            speakers = [there[0], there[-1]] + rng.sample(there, 3)
            for x in speakers[:2] if rnd == 0 else rng.sample(speakers, 2):
                out = []
                for _ in range(rng.randrange(1, 4)):
                    said += 1
                    out.append((rng.choice([TEXT, BIN]), b'%d ' % said + b'x' * rng.choice([0, 1, 118, 122, 130, 2000])))
                x.send(b''.join(frame(op, d) for op, d in out))
                for i, c in enumerate(there):
                    if c is x:
                        continue
                    for m in out:
                        try:
                            got = c.read_event(25)
                        except Timeout:
                            raise Violation('broadcast:lost', 'member %d of %d never got message %r' % (i, len(there), m[1][:12]), hang=True)
                        except Closed as e:
                            raise Violation('broadcast:closed', 'member %d of %d was closed: %r' % (i, len(there), e))
                        ctx.check(got == m, 'broadcast:differs', 'member %d of %d got %r instead of %r' % (i, len(there), (got[0], got[1][:12]), (m[0], m[1][:12])))
                    ctx.count('deliveries', len(out))
                ctx.case(('hall', n, variant, len(out), there.index(x) * 10 // len(there)))
            # some of them are replaced, in all places
            for c in rng.sample(there, n // 10):
                there.remove(c)
                c.goodbye()
            come(n // 10)
            rng.shuffle(there)
        # nobody got more than that
        for i, c in enumerate(there):
            c.send(frame(PING, b'end'))
        for i, c in enumerate(there):
            got = c.read_event(25)
            ctx.check(got == (PONG, b'end'), 'broadcast:twice', 'member %d got %r although nothing was said' % (i, (got[0], got[1][:12])))


def long(ctx, variant, n, members, tls=False):
    """More messages in one room than small counters can hold."""
    ring = 8192
    with ctx.server(variant, {'setup': {'size': {'ringbuffer': ring}}}, tls=tls) as s:
        room = []
        for i in range(members):
            c = Client(s.https if tls and i % 2 else s.http, tls='1.3' if tls and i % 2 else None, timeout=30)
            c.handshake(protocols='broadcast')
            room.append(c)
        for c in room[:2]:
            marathon(ctx, ctx.rng, c, [x for x in room if x is not c], n // 2, (ring - 1) // 2, 'broadcast:marathon')
            ctx.case(('long', variant, tls, c is room[0]), n=n // 2, sample='%d messages of one member' % (n // 2))
        for c in room:
            ctx.check(c.quiet(0.05), 'broadcast:twice', 'something came although nothing was said')


def strangers(ctx, variant, size, seconds, chaos, churners=4):
    """Members leave while messages are on their way and echo clients take over
    their descriptors: they must never see anything of the room."""
    rng = ctx.rng
    stop = time.monotonic() + seconds
    err = []

    def guard(fn, seed):
        try:
            fn(random.Random(seed))
        except Exception as e:      # judged below
            err.append(e)

    with ctx.server(variant, dict(workers=8, ringbuffer=4096), chaos=chaos) as s:
        room = []
        for i in range(size):
            c = Client(s.http, timeout=30)
            c.handshake(protocols='broadcast')
            room.append(c)

        def drain(c):
            def fn(r):
                while time.monotonic() < stop + 1:
                    try:
                        c.read_frame(timeout=max(0.1, stop + 1 - time.monotonic()))
                        ctx.count('room_frames')
                    except Timeout:
                        return
            return fn

        def talk(c):
            def fn(r):
                n = 0
                while time.monotonic() < stop:
                    n += 1
                    c.send(frame(TEXT, b'for the room %d' % n))
                    ctx.count('room_messages')
                    time.sleep(r.choice([0.002, 0.01, 0.02]))
            return fn

        def churn(r):
            i = 0
            while time.monotonic() < stop:
                i += 1
                m = [Client(s.http, timeout=30) for _ in range(2)]
                for c in m:
                    c.handshake(protocols='broadcast')
                time.sleep(r.choice([0, 0, 0.005, 0.02]))
                for c in m:
                    c.close(abort=r.random() < 0.5)
                e = [Client(s.http, timeout=30) for _ in range(3)]
                for c in e:
                    c.handshake(protocols='echo')
                for c in e:
                    c.send(frame(TEXT, b'for me %d' % i))
                for c in e:
                    for k in range(2):
                        op, data = c.read_message(timeout=30)[:2]
                        if (op, data) != (TEXT, b'for me %d' % i):
                            raise Violation('broadcast:stranger', 'an echo client received %r, which was sent to the room' % data[:60])
                        if k == 0:
                            c.send(frame(TEXT, b'for me %d' % i))
                    ctx.case(('stranger', variant, size))
                for c in e:
                    c.close(abort=r.random() < 0.5)

        jobs = [drain(c) for c in room] + [talk(c) for c in room[:3]] + [churn] * churners
        ts = [threading.Thread(target=guard, args=(f, rng.random())) for f in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for e in err:
            if isinstance(e, Violation):
                raise e
        if err:
            raise Violation('broadcast:lost', 'a client lost its connection: %r' % err[0]) if isinstance(err[0], (Closed, ProtocolError)) else err[0]
        for c in room:
            c.close()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 150 if deep else 12
    confs = [dict(workers=4), dict(workers=1), dict(workers=8, frame=100), dict(workers=4, frame=126, buffer=200, ringbuffer=16),
             dict(workers=2, frame=1000, buffer=1024, ringbuffer=64)]
    for i, cf in enumerate(confs):
        out.append(Scenario('room-%d' % i, room, variant='rel', conf=cf, rounds=n, size=4 if i != 3 else 3, weight=2, timeout=150))
    out.append(Scenario('room-tls', room, variant='rel', conf=dict(workers=4), rounds=n, size=4, tls=True, weight=2, timeout=150))
    out.append(Scenario('room-poll', room, variant='poll', conf=dict(workers=4, frame=500), rounds=n, size=4, weight=2, timeout=150))
    for i, d in enumerate(['', 'server_no_context_takeover;client_no_context_takeover', 'server_max_window_bits=10']):
        out.append(Scenario('room-deflate-%d' % i, room, variant='rel', conf=dict(workers=4, frame=1048576 if i else 300), rounds=n, size=4, deflate=d, weight=2,
                            timeout=150))
    out.append(Scenario('room-large', room, variant='rel', conf=dict(workers=8), rounds=n // 4, size=24, limit=3000, weight=3, timeout=150))
    out.append(Scenario('room-two', room, variant='rel', conf=dict(workers=8), rounds=n * 3, size=2, limit=300, burst=60, churn=False, timeout=150))
    out.append(Scenario('room-tsan', room, variant='tsan', conf=dict(workers=4), rounds=n // 3, size=4, limit=5000, weight=2, timeout=200))
    out.append(Scenario('hall', hall, variant='rel', n=700, rounds=20 if deep else 4, weight=2, timeout=200))
    out.append(Scenario('hall-poll', hall, variant='poll', n=300, rounds=20 if deep else 3, tls=True, weight=2, timeout=200))
    out.append(Scenario('long', long, variant='rel', n=300000 if deep else 140000, members=3, timeout=200))
    out.append(Scenario('long-tls', long, variant='poll', n=300000 if deep else 140000, members=3, tls=True, timeout=200))
    # many hands: as many threads as there are may write to the same client
    for v, w, m in (('rel', 80, 60), ('relc', 50, 40), ('tsan', 70, 40)):
        out.append(Scenario('hands-%s' % v, room, variant=v, conf=dict(workers=w), rounds=max(2, n // 6), size=m, limit=300, churn=False, weight=3, timeout=200,
                            chaos=(100, 500, 0) if v == 'relc' else None))
    out.append(Scenario('alone', alone, variant='rel', tls=False))
    for i in range(8 if deep else 2):
        out.append(Scenario('room-faults-%d' % i, room, variant=['relc', 'poll'][i % 2], conf=confs[[0, 4, 2, 3][i % 4]], rounds=n // 2, size=4, limit=5000,
                            chaos=[(30, 500, 50), (200, 100, 10)][i // 2 % 2], weight=2, timeout=200))
    for i in range(6 if deep else 2):
        out.append(Scenario('strangers-%d' % i, strangers, variant=['relc', 'poll'][i % 2], size=[24, 40, 10][i // 2 % 3], seconds=40 if deep else 8,
                            chaos=[(150, 2000, 0), (400, 500, 0)][i % 2], weight=3, timeout=200))
    if deep:
        for i in range(12):
            out.append(Scenario('room-more-%d' % i, room, variant=rng.choice(['rel', 'poll']), conf=rng.choice(confs), rounds=n, size=rng.randrange(2, 7),
                                tls=bool(i % 2), deflate=rng.choice([None, '', 'client_no_context_takeover']), weight=2, timeout=200))
    return out

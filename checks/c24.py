"""C24: no client can stop the server from serving the others."""
import gc
import multiprocessing
import os
import random
import select
import signal
import socket
import struct
import threading
import time

from checks.c14 import parallel
from vlib import hostile
from vlib.check import Scenario, Violation, short
from vlib.work import blob, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

PROPERTY = 'C24'
LEVEL = 'exploration'
TECHNIQUE = ('latency monitoring: honest clients on standing and on new connections, over plain TCP and TLS, measure how long the server takes to serve them while many more '
             'peers than there are workers are silent, stop half-way, never read, flood, break the protocol, leave at any moment, or use up the descriptors; '
             'also with the server stopped while things pile up, and with injected delays and failing system calls')
NOTE = 'Sampled mixes and moments of misbehaviour; a verdict that rests on time is given only when a second run gives it again.'
VARIANTS = ['rel', 'poll', 'relc', 'asan', 'tsan']
RULE = ('a case is one probe (echo on a standing connection, a new connection from connect to close, or a delivery between two broadcast members) during a siege, or one '
        'misbehaving client; distinct by what was probed, over what, and who misbehaved meanwhile')
ASSUMPTIONS = ['the machine gives the server and the probes processor time within seconds', 'a peer that uses up all descriptors of the process keeps newcomers waiting until it lets go of them']


class Siege:
    """Peers that stay where they are and are of no use to anybody."""
    def __init__(self, s, rng, tls):
        self.s, self.rng, self.tls = s, rng, tls
        self.keep = []
        self.kinds = {}

    def raw(self, port=None, rcvbuf=None):
        k = socket.socket()
        if rcvbuf:
            k.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        k.settimeout(20)
        k.connect(('127.0.0.1', port or (self.rng.choice([self.s.http, self.s.https]) if self.tls else self.s.http)))
        self.keep.append(k)
        return k

    def ws(self, proto='echo', rcvbuf=None, tls=None):
        t = self.rng.choice([None, '1.2', '1.3']) if self.tls and tls is None else tls
        c = Client(self.s.https if t else self.s.http, tls=t, timeout=20, rcvbuf=rcvbuf)
        c.handshake(protocols=proto, timeout=20)
        self.keep.append(c)
        return c

    def stuff(self, k, data, most=1 << 26, pause=0.15):
        """Sends until the server takes no more."""
        k.settimeout(pause)
        n = 0
        try:
            while n < most:
                n += k.send(data)
        except (socket.timeout, OSError):
            pass
        return n

    def silent(self):
        self.raw()

    def half_hello(self):
        from checks.c23 import hello
        if not self.tls:
            return self.silent()
        k = self.raw(self.s.https)
        d = hello(self.rng, self.rng.choice(['1.2', '1.3']))[2].read()
        k.sendall(d[:self.rng.randrange(1, len(d))])

    def no_finish(self):
        """A client hello, and then nothing."""
        from checks.c23 import hello
        if not self.tls:
            return self.silent()
        k = self.raw(self.s.https, rcvbuf=self.rng.choice([None, 2048]))
        k.sendall(hello(self.rng, self.rng.choice(['1.2', '1.3']))[2].read())

    def half_request(self):
        r, _ = request(port=1, protocols='echo')
        n = self.rng.randrange(1, len(r))
        if self.tls and self.rng.random() < 0.5:
            c = Client(self.s.https, tls=self.rng.choice(['1.2', '1.3']), timeout=20)
            self.keep.append(c)
            c.send(r[:n])
        else:
            self.raw(self.s.http).sendall(r[:n])

    def endless_header(self):
        k = self.raw(self.s.http)
        k.sendall(b'GET / HTTP/1.1\r\n' + b'X: y\r\n' * self.rng.randrange(1, 500))

    def half_header(self):
        c = self.ws()
        f = frame(BIN, bytes(70000))
        c.send(f[:self.rng.randrange(1, 14)])

    def half_frame(self):
        c = self.ws(self.rng.choice(['echo', 'broadcast']))
        n = self.rng.choice([1000, 70000, 1 << 20])
        f = frame(BIN, bytes(n))
        c.send(f[:self.rng.randrange(14, len(f))])

    def half_message(self):
        c = self.ws(self.rng.choice(['echo', 'broadcast']))
        c.send(frame(TEXT, b'never ends', fin=False) + frame(CONT, b'', fin=False) * self.rng.randrange(0, 50))

    def no_reader(self):
        """Asks for more and more and reads nothing."""
        c = self.ws('echo', rcvbuf=self.rng.choice([None, 2048]), tls=False)
        # 150000 frames in one read take the sanitizers, who copy at each realloc, minutes
        least = 50 if 'san' in self.s.variant else 1
        self.stuff(c.sock, frame(BIN, bytes(self.rng.choice([least, 1000, 60000, 500000]))) * 20)

    def no_reader_ping(self):
        c = self.ws('echo', rcvbuf=2048, tls=False)
        self.stuff(c.sock, frame(PING, bytes(125)) * 2000)

    def no_reader_tls(self):
        if not self.tls:
            return self.no_reader()
        c = self.ws('echo', rcvbuf=2048, tls=self.rng.choice(['1.2', '1.3']))
        d = frame(BIN, bytes(60000))
        for _ in range(60):
            with c.sock.lock:
                c.sock.obj.write(d)
                x = c.sock.outb.read()
            if self.stuff(c.sock.sock, x, most=len(x)) < len(x):
                break

    def no_reader_http(self):
        """Each of these requests is answered and the connection kept."""
        k = self.raw(self.s.http, rcvbuf=2048)
        r, _ = request(path='http://h/', port=1)
        self.stuff(k, r, most=1 << 23)

    def deaf_member(self):
        """Never reads what the others broadcast."""
        self.ws('broadcast', rcvbuf=2048, tls=False if self.rng.random() < 0.7 else None)

    def loud_member(self):
        c = self.ws('broadcast', rcvbuf=2048, tls=False)
        c.send(frame(BIN, bytes(self.rng.choice([10, 60000]))) * 15)

    def garbage(self):
        c = self.ws()
        c.send(self.rng.randbytes(self.rng.choice([2, 50, 5000])))

    def violator(self):
        """A close frame it does not look at, with more to come."""
        c = self.ws(tls=False)
        self.stuff(c.sock, self.rng.choice([frame(3, b'x'), frame(TEXT, b'\xff'), frame(TEXT, b'x', mask=False), frame(CLOSE, b'\x03\xe8')]) + frame(BIN, bytes(1000)) * 50, most=200000)

    KINDS = ['silent', 'half_hello', 'no_finish', 'half_request', 'endless_header', 'half_header', 'half_frame', 'half_message', 'no_reader', 'no_reader_ping',
             'no_reader_tls', 'no_reader_http', 'deaf_member', 'loud_member', 'garbage', 'violator']

    def add(self, kind):
        try:
            getattr(self, kind)()
        except (OSError, Closed):
            pass
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def lift(self):
        for k in self.keep:
            try:
                if isinstance(k, Client):
                    k.close(abort=self.rng.random() < 0.5)
                else:
                    k.close()
            except OSError:
                pass
        self.keep = []


class Member:
    """A member of the broadcast group, who reads all the time."""
    def __init__(self, c):
        self.c = c
        self.cond = threading.Condition()
        self.seen = set()
        self.end = None
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        try:
            while True:
                try:
                    op, d = self.c.read_message(3600)
                except Timeout:
                    continue
                if d.startswith(b'probe '):
                    with self.cond:
                        self.seen.add(d)
                        self.cond.notify_all()
        except (Closed, OSError, ProtocolError) as e:
            with self.cond:
                self.end = e
                self.cond.notify_all()

    def wait(self, d, seconds):
        end = time.monotonic() + seconds
        with self.cond:
            while d not in self.seen:
                if self.end is not None:
                    raise self.end
                left = end - time.monotonic()
                if left <= 0:
                    raise Timeout('no delivery')
                self.cond.wait(left)
            self.seen.discard(d)

    def leave(self):
        self.c.send(frame(CLOSE, b'\x03\xe8'))
        with self.cond:
            end = time.monotonic() + 20
            while self.end is None and time.monotonic() < end:
                self.cond.wait(1)
        if not isinstance(self.end, Closed) or self.end.rest != b'\x03\xe8':
            raise Violation('service:goodbye', 'a member got %r' % (self.end,))
        self.c.close()


class Probes:
    """Honest clients with a clock."""
    def __init__(self, ctx, s, tls, bound, label):
        self.ctx, self.s, self.tls, self.bound, self.label = ctx, s, tls, bound, label
        self.worst = 0.0
        kinds = [None, '1.2', '1.3'] if tls else [None, None]
        self.standing = [(t, self.connect(t)) for t in kinds]
        self.pairs = [(t, Member(self.connect(t, 'broadcast')), Member(self.connect(None, 'broadcast'))) for t in kinds[-2:]]
        self.n = 0
        self.lock = threading.Lock()

    def connect(self, t, proto='echo'):
        c = Client(self.s.https if t else self.s.http, tls=t, timeout=self.bound + 5)
        c.handshake(protocols=proto, timeout=self.bound + 5)
        return c

    def timed(self, what, t, f):
        t0 = time.monotonic()
        try:
            f()
        except Timeout:
            raise Violation('service:none', '%s: %s over %s got nothing in %.1f s' % (self.label(), what, t or 'TCP', time.monotonic() - t0))
        except (Closed, OSError) as e:
            raise Violation('service:refused', '%s: %s over %s: %r' % (self.label(), what, t or 'TCP', e))
        dt = time.monotonic() - t0
        self.worst = max(self.worst, dt)
        with self.lock:
            self.ctx.case((what, t, self.label(), int(dt * 20)), sample='%s over %s in %.1f ms while %s' % (what, t or 'TCP', dt * 1000, self.label()))
            self.ctx.count('probes_' + what.replace(' ', '_'))
        if dt > self.bound:
            raise Violation('service:late', '%s: %s over %s took %.2f s, bound %.2f s' % (self.label(), what, t or 'TCP', dt, self.bound))

    def echo(self, c, rng):
        d = text(rng, rng.choice([0, 5, 126, 3000, 50000]))
        c.send(frame(TEXT, d))
        e = c.read_message()
        if e != (TEXT, d):
            raise Violation('service:echo', 'wrong echo %s' % short(e))

    def deliver(self, a, b, rng):
        self.n += 1
        d = b'probe %d %d' % (self.n, rng.getrandbits(60))
        a.c.send(frame(BIN, d))
        b.wait(d, self.bound + 5)

    def newcomer(self, t, rng):
        c = self.connect(t)
        self.echo(c, rng)
        if c.goodbye(timeout=self.bound + 5) != 1000:
            raise Violation('service:goodbye', 'wrong status')

    def run(self, seconds):
        end = time.monotonic() + seconds
        seed = self.ctx.rng.random()

        def standing():
            rng = random.Random(seed)
            while time.monotonic() < end:
                for t, c in self.standing:
                    self.timed('echo', t, lambda: self.echo(c, rng))
                time.sleep(rng.random() * 0.03)

        def pairs():
            rng = random.Random(seed + 1)
            while time.monotonic() < end:
                for t, a, b in self.pairs:
                    self.timed('delivery', t, lambda: self.deliver(a, b, rng))
                time.sleep(rng.random() * 0.03)

        def newcomers():
            rng = random.Random(seed + 2)
            while time.monotonic() < end:
                for t in [None, '1.2', '1.3'] if self.tls else [None]:
                    self.timed('new connection', t, lambda: self.newcomer(t, rng))
                time.sleep(rng.random() * 0.03)
        try:
            parallel(self.ctx, [standing, pairs, newcomers])
        finally:
            k = 'worst_ms_' + self.ctx.name
            self.ctx.counters[k] = max(self.ctx.counters.get(k, 0), int(self.worst * 1000))

    def leave(self):
        for t, c in self.standing:
            if c.goodbye(timeout=20) != 1000:
                raise Violation('service:goodbye', 'wrong status')
        for t, a, b in self.pairs:
            a.leave()
            b.leave()


def siege(ctx, variant, workers=2, each=5, tls=True, bound=6.0, only=None, chaos=None, seconds=1.0, deflate=None, conf=None):
    """Peers that stay and do nothing useful, more of each kind than there are workers."""
    rng = ctx.rng
    c = {'setup': {'pool': {'workers': workers}, 'size': {'ringbuffer': rng.choice([64, 1024])}}}
    # longer than the bound: whoever waits for a besieger to be timed out is late
    c['setup']['timeouts'] = {'read': 20000, 'write': 20000}
    for k, v in (conf or {}).items():
        c['setup'][k] = v
    with ctx.server(variant, c, tls=tls, chaos=chaos, deflate=deflate) as s:
        sg = Siege(s, rng, tls)
        kinds = [k for k in (only or Siege.KINDS) if tls or k not in ('half_hello', 'no_finish', 'no_reader_tls')]
        now = ['nobody']
        p = Probes(ctx, s, tls, bound, lambda: now[0])
        rng.shuffle(kinds)
        for kind in kinds:
            now[0] = kind + ' arrive'
            ths = [threading.Thread(target=sg.add, args=(kind,), daemon=True) for _ in range(each)]
            for t in ths:
                t.start()
            p.run(0.25)
            while any(t.is_alive() for t in ths):
                p.run(0.1)      # a probe that stops for long would rightly be timed out
            now[0] = kind + ' and %d other kinds' % (len(sg.kinds) - 1)
            p.run(0.25)
            ctx.count('besiegers', each)
            ctx.case((kind, workers, variant), sample='%d peers: %s' % (each, kind))
        now[0] = 'all kinds'
        p.run(seconds)
        if variant in ('rel', 'poll') and not chaos:
            least = None
            for k in range(3):      # the lowest of a few, somebody could just have been served
                time.sleep(0.1)
                t0 = s.cpu()[1]
                time.sleep(0.5)
                n = s.cpu()[1] - t0
                least = n if least is None else min(least, n)
                if least < 5:
                    break
            ctx.count('ticks_per_half_second_' + ctx.name, least)
            if least > 25:
                raise Violation('service:spinning', 'the server uses %d ticks in half a second while none of its peers does anything' % least)
        t = threading.Thread(target=sg.lift, daemon=True)
        now[0] = 'all leave'
        t.start()
        p.run(0.4)
        t.join(60)
        p.leave()
        hostile.served(ctx, s, tls=tls)


def flooder(port, kind, seed, tls):
    """Runs in a process of its own: sends as fast as it can."""
    rng = random.Random(seed)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    read = kind.endswith('+')
    while True:
        try:
            if kind.startswith('connects'):
                ks = []
                for _ in range(rng.choice([1, 20, 60])):
                    k = socket.create_connection(('127.0.0.1', port), 20)
                    if rng.random() < 0.3:
                        k.sendall(rng.choice([b'GET', b'x' * 100, b'\r\n\r\n']))
                    ks.append(k)
                for k in ks:
                    if rng.random() < 0.5:
                        k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    k.close()
                continue
            if kind.startswith('requests'):
                k = socket.create_connection(('127.0.0.1', port), 20)
                r, _ = request(path=rng.choice(['http://h/', '/x', '/favicon.ico']), port=port)
                k.settimeout(0.5)
                try:
                    while True:
                        k.sendall(r * 20)
                        k.recv(1 << 20)
                except OSError:
                    pass
                k.close()
                continue
            c = Client(port, tls=tls, timeout=30)
            c.handshake(protocols='broadcast' if kind.startswith('rooms') else 'echo', timeout=30)
            d = {'pings': frame(PING, b'x') * 3000, 'echo': frame(BIN, bytes(2000)) * 200, 'large': frame(BIN, bytes(900000)), 'empty': frame(BIN, b'') * 5000,
                 'fragments': (frame(BIN, b'', fin=False) + frame(CONT, b'x')) * 2000, 'rooms': frame(BIN, bytes(3000)) * 20}[kind.rstrip('+')]
            if read:
                def drain(c=c):
                    try:
                        while c.sock.recv(1 << 20):
                            pass
                    except OSError:
                        pass
                threading.Thread(target=drain, daemon=True).start()
            while True:
                c.send(d)
                if kind.startswith('rooms'):
                    time.sleep(0.02)
        except (OSError, Closed, Timeout, ProtocolError):
            pass


FLOODS = ['connects', 'requests', 'pings+', 'echo+', 'large+', 'empty+', 'fragments+', 'pings', 'echo', 'large', 'rooms+']


def flood(ctx, variant, workers=3, kinds=None, procs=5, seconds=3, bound=10, tls=True, chaos=None):
    """Peers that keep the server as busy as they can."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}, 'favicon': '/repo/resources/favicon.ico'}}, tls=tls, chaos=chaos) as s:
        now = ['nobody']
        p = Probes(ctx, s, tls, bound, lambda: now[0])
        some = kinds or rng.sample(FLOODS, procs)
        some = [(k, tls and not k.startswith(('connects', 'requests')) and rng.random() < 0.4) for k in some]
        now[0] = 'floods of ' + ', '.join(k + (' over TLS' if t else '') for k, t in some)
        ps = [multiprocessing.Process(target=flooder, args=(s.https if t else s.http, k, rng.random(), '1.3' if t else None), daemon=True) for k, t in some]
        for x in ps:
            x.start()
        try:
            p.run(seconds)
        finally:
            for x in ps:
                x.kill()
                x.join()
        now[0] = 'after ' + now[0]
        p.run(0.3)
        p.leave()
        for k, t in some:
            ctx.case(('flood', k, t, workers), sample='flood of %s' % k)
            ctx.count('flooders')
        hostile.served(ctx, s, tls=tls)


def riot(ctx, variant, workers=2, threads=6, seconds=2.0, bound=10, tls=True, deflate='', chaos=None):
    """Clients that break the rules and leave at any moment."""
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}}}, tls=tls, deflate=deflate, chaos=chaos) as s:
        p = Probes(ctx, s, tls, bound, lambda: 'a riot of %d' % threads)
        errs = []
        ts = hostile.crowd(ctx, s, 1 << 30, threads, seconds=seconds, errors=errs, tls=tls, deflate=True)
        p.run(seconds)
        for t in ts:
            t.join(60)
        if errs:
            raise errs[0]
        p.leave()
        hostile.served(ctx, s, tls=tls)


def frozen(ctx, variant, rounds, workers=1, n=40, tls=True, chaos=None):
    """While the server is stopped everything piles up: connections that are reset before
    they are accepted, halves, closes, and honest clients between them."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}}}, tls=tls, chaos=chaos) as s:
        p = Probes(ctx, s, tls, 10, lambda: 'frozen')
        for r in range(rounds):
            sg = Siege(s, rng, False)
            sg.tls = tls
            old = []
            for _ in range(rng.randrange(0, 12)):
                old.append(sg.ws(rng.choice(['echo', 'broadcast'])))
            if rng.random() < 0.5:
                # all workers are in the middle of something
                for c in old:
                    c.send(frame(BIN, blob(rng, 50000)))
            os.kill(s.pid, signal.SIGSTOP)
            honest, done = [], []
            try:
                for _ in range(n):
                    k = rng.randrange(9)
                    if k == 0:
                        x = sg.raw()
                        x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                        x.close()
                    elif k == 1:
                        x = sg.raw()
                        x.sendall(request(port=1)[0][:rng.randrange(1, 100)])
                        if rng.random() < 0.6:
                            x.close()
                    elif k == 2:
                        x = sg.raw(s.http)
                        x.sendall(request(port=1, protocols=rng.choice(['echo', 'broadcast']))[0] + hostile.odd_frame(rng) * rng.randrange(0, 4))
                        if rng.random() < 0.5:
                            x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                        x.close()
                    elif k == 3:
                        sg.raw()
                    elif k == 4 and old:
                        c = old.pop(rng.randrange(len(old)))
                        if rng.random() < 0.7:
                            c.send(frame(BIN, blob(rng, 3000)) * rng.randrange(1, 5))
                        c.close(abort=rng.random() < 0.5)
                    elif k == 5 and old:
                        rng.choice(old).send(rng.choice([hostile.odd_frame(rng), frame(TEXT, b'hi'), frame(BIN, bytes(3000))[:rng.randrange(1, 3000)]]))
                    elif k == 6:
                        x = sg.raw(s.http)
                        x.sendall(request(port=1, path=rng.choice(['/', '/x', 'http://h/', '/favicon.ico']), version=rng.choice([13, 5]))[0] * rng.randrange(1, 4))
                        x.shutdown(socket.SHUT_WR)
                    else:
                        c = Client(s.http, timeout=25)
                        q, key = request(port=s.http, protocols='echo')
                        d = text(rng, 100)
                        c.send(q)
                        honest.append((c, d))
                # and messages of the standing clients
                for t, c in p.standing:
                    d = text(rng, 200)
                    c.send(frame(TEXT, d))
                    done.append((t, c, d))
            except OSError:
                pass
            finally:
                os.kill(s.pid, signal.SIGCONT)
            for t, c, d in done:
                def f():
                    if c.read_message(20) != (TEXT, d):
                        raise Violation('service:echo', 'wrong echo after the stop')
                p.timed('echo', t, f)
            for c, d in honest:
                def f():
                    h = c.read_http(20)
                    if h.status != 101:
                        raise Violation('service:handshake', 'status %d' % h.status)
                    c.send(frame(TEXT, d))
                    if c.read_message(20) != (TEXT, d):
                        raise Violation('service:echo', 'wrong echo after the stop')
                    c.close()
                p.timed('piled up connection', None, f)
            p.run(0.05)
            sg.lift()
            ctx.case(('frozen', workers, r, len(honest)), sample='%d honest of %d piled up' % (len(honest), n))
        p.leave()
        hostile.served(ctx, s, tls=tls)


def exhausted(ctx, variant, rounds, nofile=48, tls=True):
    """All descriptors are used up by idle connections; when those go, whoever has been
    waiting is served, without anybody else having to come."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': 2}}}, tls=tls, nofile=nofile) as s:
        hostile.served(ctx, s, tls=tls)
        base = len(s.fds())
        for r in range(rounds):
            resident = Client(s.http, timeout=20)
            resident.handshake()
            ks = []
            hog = rng.choice([s.http, s.https]) if tls else s.http
            for _ in range(nofile + rng.randrange(0, 20)):
                k = socket.create_connection(('127.0.0.1', hog), 20)
                ks.append(k)
            time.sleep(0.05)
            d = text(rng, 100)
            resident.send(frame(TEXT, d))
            ctx.check(resident.read_event(20) == (TEXT, d), 'service:echo', 'wrong echo while the descriptors are used up')
            # over the other port or the same
            t = rng.choice([None, '1.3']) if tls else None
            got = []
            w = socket.create_connection(('127.0.0.1', s.https if t else s.http), 20)
            w.close()
            honest = Client(s.http, timeout=20)
            q, _ = request(port=s.http)
            honest.send(q)
            time.sleep(rng.choice([0, 0.02]))
            rng.shuffle(ks)
            for k in ks:
                if rng.random() < 0.5:
                    k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                k.close()
            t0 = time.monotonic()
            try:
                h = honest.read_http(15)
            except (Timeout, Closed, OSError) as e:
                raise Violation('service:exhausted', 'a client that connected while the descriptors were used up was not served in %.1f s after they were free: %r' % (time.monotonic() - t0, e))
            ctx.check(h.status == 101, 'service:exhausted-status', 'status %d' % h.status)
            honest.send(frame(TEXT, d))
            ctx.check(honest.read_event(20) == (TEXT, d), 'service:echo', 'wrong echo')
            honest.close()
            resident.close()
            ctx.case(('exhausted', hog == s.http, r), sample='%d idle connections with %d descriptors' % (len(ks), nofile))
            hostile.served(ctx, s, tls=tls)
            now = s.settled(base)
            ctx.check(len(now) <= base, 'service:descriptors', '%s' % now)


def many(ctx, variant, n, tls=False):
    """Very many open connections, from one moment to the next."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': 2}, 'size': {'ringbuffer': 128}}}, tls=tls, nofile=4096) as s:
        p = Probes(ctx, s, tls, 5, lambda: '%d connections' % n)
        ks = []

        def come(k):
            for _ in range(n // 4):
                x = socket.create_connection(('127.0.0.1', rng.choice([s.http, s.https]) if tls else s.http), 20)
                if k % 2:
                    x.sendall(request(port=1, protocols=rng.choice(['echo', 'broadcast']))[0])
                ks.append(x)
        ts = [threading.Thread(target=come, args=(k,), daemon=True) for k in range(4)]
        for t in ts:
            t.start()
        p.run(0.5)
        for t in ts:
            t.join(60)
        # some at once, so that not all of them take the place of one that has gone
        late = []
        for i in range(8):
            def come_late(v=rng.choice(['1.2', '1.3']) if tls and i % 2 else None):
                late.append(p.connect(v))
                p.echo(late[-1], rng)
            p.timed('new connection', 'TCP or TLS', come_late)
        p.run(0.5)
        for c in late:
            p.timed('echo', 'TCP or TLS', lambda: p.echo(c, rng))
            c.close()
        t = threading.Thread(target=lambda: [x.close() for x in ks], daemon=True)
        t.start()
        p.run(0.5)
        t.join()
        p.leave()
        ctx.case(('many', n, variant), sample='%d connections' % len(ks))
        ctx.count('open_connections', len(ks))
        hostile.served(ctx, s, tls=tls)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    for rep in range(8 if deep else 1):
        x = '-%d' % rep if rep else ''
        out.append(Scenario('siege-1' + x, siege, variant='rel', workers=1, each=4, confirm=True))
        out.append(Scenario('siege-3' + x, siege, variant='rel', workers=3, each=6, tls=False, confirm=True))
        out.append(Scenario('siege-poll' + x, siege, variant='poll', workers=1, each=4, confirm=True))
        out.append(Scenario('siege-deflate' + x, siege, variant='rel', workers=2, each=4, deflate='', tls=False, confirm=True))
        out.append(Scenario('siege-timeouts' + x, siege, variant='rel', workers=1, each=4, confirm=True, conf={'timeouts': {'client': 4000, 'pings': 4, 'read': 300, 'write': 300}}))
        out.append(Scenario('siege-faults' + x, siege, variant='relc', workers=2, each=4, chaos=(20, 300, 60), confirm=True))
        out.append(Scenario('siege-asan' + x, siege, variant='asan', workers=1, each=3, confirm=True))
        for i in range(6 if deep else 3):
            out.append(Scenario('flood-%d%s' % (i, x), flood, variant='rel', weight=3, workers=rng.choice([1, 3]), confirm=True))
        out.append(Scenario('flood-poll' + x, flood, variant='poll', weight=3, workers=2, confirm=True))
        out.append(Scenario('riot' + x, riot, variant='rel', workers=1, confirm=True))
        out.append(Scenario('riot-poll' + x, riot, variant='poll', workers=2, confirm=True))
        out.append(Scenario('riot-faults' + x, riot, variant='relc', workers=2, chaos=(20, 300, 60), confirm=True))
        out.append(Scenario('riot-tsan' + x, riot, variant='tsan', workers=2, confirm=True))
        out.append(Scenario('frozen' + x, frozen, variant='rel', rounds=15, confirm=True))
        out.append(Scenario('frozen-poll' + x, frozen, variant='poll', rounds=10, confirm=True))
        out.append(Scenario('frozen-asan' + x, frozen, variant='asan', rounds=6, workers=2, confirm=True))
        out.append(Scenario('exhausted' + x, exhausted, variant='rel', rounds=6, confirm=True))
        out.append(Scenario('exhausted-poll' + x, exhausted, variant='poll', rounds=6, confirm=True))
        out.append(Scenario('many' + x, many, variant='rel', n=1600, confirm=True))
        out.append(Scenario('many-poll' + x, many, variant='poll', n=600, confirm=True))
        out.append(Scenario('many-tls' + x, many, variant='rel', n=400, tls=True, confirm=True))
    return out

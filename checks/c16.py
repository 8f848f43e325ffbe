"""C16: an interrupt shuts the server down promptly and cleanly in any state."""
import os
import random
import signal
import socket
import threading
import time

from checks.c10 import judge
from vlib import hostile
from vlib.check import Inconclusive, Scenario, Violation, short
from vlib.work import blob
from vlib.ws import BIN, CLOSE, CONT, PING, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('fault injection of interrupts at random moments of random histories under AddressSanitizer/LeakSanitizer and ThreadSanitizer, with exit status, time to exit, '
             'leak report, the life cycles seen by a recording subprotocol and an immediate restart on the same ports as oracles')
NOTE = 'Sampled moments; the bound on the time is 10 s (25 s with sanitizers, 60 s with injected delays), far above what a shutdown takes and far below the timeouts that a stuck one would wait for.'
VARIANTS = ['rel', 'asan', 'asan2', 'relc', 'tsan', 'poll']
RULE = 'a case is one run of the server that is interrupted; distinct by configuration and the set of activities in which it was interrupted'
ASSUMPTIONS = ['the interrupt comes after the server has installed its handler']
OSE = (OSError, Closed, Timeout, ProtocolError, AssertionError)
BOUND = {'rel': 10, 'poll': 10, 'relc': 60, 'asan': 25, 'asan2': 25, 'tsan': 30}


class Scene:
    """What goes on at the moment of the interrupt."""
    def __init__(self, ctx, s, rng, tls, deflate, rec):
        self.ctx, self.s, self.rng, self.tls, self.deflate, self.rec = ctx, s, rng, tls, deflate, rec
        self.keep, self.threads, self.over = [], [], threading.Event()
        self.held = []

    def port(self):
        if self.tls and self.rng.random() < 0.5:
            return self.s.https, self.rng.choice(['1.2', '1.3'])
        return self.s.http, None

    def client(self, **kw):
        p, t = self.port()
        c = Client(p, tls=t, timeout=20, **kw)
        self.keep.append(c)
        return c

    def opened(self, proto='echo', **kw):
        c = self.client(**kw)
        ext = self.rng.choice([None, 'permessage-deflate']) if self.deflate else None
        c.handshake(protocols=proto, extensions=ext)
        c.ext = ext
        return c

    def plain(self, port):
        k = socket.create_connection(('127.0.0.1', port), 20)
        self.keep.append(k)
        return k

    def busy(self, fn):
        seed = self.rng.random()

        def run():
            rng = random.Random(seed)
            while not self.over.is_set():
                try:
                    fn(rng)
                except OSE:
                    if self.over.wait(0.001):
                        return
        t = threading.Thread(target=run, daemon=True)
        t.start()
        self.threads.append(t)

    # -- activities
    def a_idle(self):
        for _ in range(self.rng.choice([1, 5, 30])):
            self.opened(self.rng.choice(['echo', 'broadcast'] + ['rec'] * self.rec))

    def a_mute(self):
        for _ in range(self.rng.choice([1, 5, 20])):
            self.plain(self.rng.choice([self.s.http] + [self.s.https] * self.tls))

    def a_half_request(self):
        for _ in range(self.rng.choice([1, 4])):
            c = self.client()
            r, _ = request(port=c.port)
            c.send(r[:self.rng.randrange(1, len(r))])

    def a_half_tls(self):
        if not self.tls:
            return self.a_half_request()
        import ssl
        from vlib.ws import tls_context
        for _ in range(self.rng.choice([1, 4])):
            k = self.plain(self.s.https)
            i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
            obj = tls_context(self.rng.choice(['1.2', '1.3'])).wrap_bio(i, o)
            try:
                obj.do_handshake()
            except ssl.SSLWantReadError:
                pass
            d = o.read()
            k.sendall(d[:self.rng.choice([1, 5, 100, len(d), len(d)])])

    def a_refused(self):
        for _ in range(3):
            c = self.client()
            c.handshake(expect=426, drop=('Upgrade',))

    def a_half_frame(self):
        for _ in range(self.rng.choice([1, 5])):
            c = self.opened(self.rng.choice(['echo', 'broadcast'] + ['rec'] * self.rec))
            d = frame(BIN, blob(self.rng, self.rng.choice([0, 10, 200, 70000])))
            c.send(d[:self.rng.randrange(1, len(d))])

    def a_half_message(self):
        for _ in range(self.rng.choice([1, 5])):
            c = self.opened(self.rng.choice(['echo', 'broadcast'] + ['rec'] * self.rec))
            for k in range(self.rng.randrange(1, 5)):
                c.send(frame(CONT if k else TEXT, b'part %d' % k, fin=False))

    def a_pending(self):
        """Writes that cannot go on."""
        for _ in range(self.rng.choice([1, 3])):
            c = self.opened('rec' if self.rec and self.rng.random() < 0.5 else 'echo', rcvbuf=4096)
            c.sock.settimeout(0.3)
            try:
                for k in range(self.rng.randrange(1, 12)):
                    c.send(frame(BIN, blob(self.rng, self.rng.choice([1000, 300000, 1000000]))))
            except OSE:
                pass

    def a_echoing(self):
        for _ in range(self.rng.choice([1, 3])):
            c = self.opened()

            def talk(rng, c=c):
                if c.ext:
                    return self.over.wait(0.1)
                d = blob(rng, rng.choice([0, 10, 5000, 200000]))
                for _ in range(rng.choice([1, 5])):
                    c.send(frame(BIN, d))
                    c.read_message(5)
            self.busy(talk)

    def a_broadcasting(self):
        for _ in range(self.rng.choice([2, 6])):
            c = self.opened('broadcast')

            def say(rng, c=c):
                c.send(frame(TEXT, b'x' * rng.choice([0, 100, 20000])))
                c.sock.settimeout(0.001)
                try:
                    c.sock.recv(1 << 20)
                except socket.timeout:
                    pass
                c.sock.settimeout(5)
                time.sleep(rng.random() * 0.01)
            self.busy(say)
        if self.rng.random() < 0.5:
            # a member who does not listen
            self.opened('broadcast', rcvbuf=4096)

    def a_churning(self):
        def come(rng):
            p, t = (self.s.https, rng.choice(['1.2', '1.3'])) if self.tls and rng.random() < 0.5 else (self.s.http, None)
            c = Client(p, tls=t, timeout=5)
            try:
                if rng.random() < 0.2:
                    return
                c.handshake(protocols=rng.choice(['echo', 'broadcast', None]))
                if rng.random() < 0.5:
                    c.send(frame(TEXT, b'hello'))
                if rng.random() < 0.3:
                    c.goodbye(timeout=5)
            finally:
                c.close(abort=rng.random() < 0.3)
        for _ in range(self.rng.choice([1, 4])):
            self.busy(come)

    def a_hostile(self):
        from vlib.check import Ctx
        m = hostile.Mob(Ctx('C16', '', 'mob', 0), self.s, random.Random(self.rng.random()), tls=self.tls, deflate=self.deflate, patience=0.01)
        self.busy(lambda rng: m.one())

    def a_pinging(self):
        c = self.opened()

        def ping(rng):
            c.send(b''.join(frame(PING, b'%d' % k) for k in range(20)))
            c.sock.settimeout(0.01)
            try:
                c.sock.recv(1 << 16)
            except socket.timeout:
                pass
            time.sleep(0.003)
        self.busy(ping)

    def a_leaving(self):
        """Many leave at once, just before the interrupt."""
        cs = [self.opened(self.rng.choice(['echo', 'broadcast'])) for _ in range(self.rng.choice([3, 30]))]
        self.held += cs

    def a_arriving(self):
        """Many come at once, just before the interrupt."""
        self.arrive = self.rng.choice([5, 60])

    arrive = 0

    def moment(self):
        for c in self.held:
            if self.rng.random() < 0.5:
                try:
                    c.send(frame(CLOSE))
                except OSE:
                    pass
            else:
                c.close(abort=self.rng.random() < 0.5)
        for _ in range(self.arrive):
            try:
                k = self.plain(self.rng.choice([self.s.http] + [self.s.https] * self.tls))
                r, _ = request(port=self.s.http)
                k.sendall(r)
            except OSE:
                pass

    def end(self):
        self.over.set()
        for c in self.keep:
            try:
                c.close()
            except OSE:
                pass
        for t in self.threads:
            t.join(20)


KINDS = [n for n in dir(Scene) if n.startswith('a_')]


def listener(port):
    h = ':%04X' % port
    with open('/proc/net/tcp6') as f:
        return [l for l in f if l.split()[1].endswith(h) and l.split()[3] == '0A']


def shutdowns(ctx, variant, n, tls=False, deflate=None, chaos=None, repeats=True, kinds=None):
    """Each run of the server uses the ports of the one before."""
    rng = ctx.rng
    ports = None
    for i in range(n):
        conf = {'setup': {'pool': {'workers': rng.choice([1, 2, 4, 8])}, 'size': {'ringbuffer': rng.choice([16, 128, 1024]), 'buffer': rng.choice([512, 32768])},
                          'timeouts': rng.choice([{}, {'client': 60000, 'pings': 0}, {'client': 40, 'pings': 3}, {'client': 100000, 'pings': 2, 'poll': 100}, {'poll': 1, 'read': 10, 'write': 10}])}}
        acts = rng.sample(kinds or KINDS, rng.choice([0, 1, 1, 2, 3, 4]) if not kinds else rng.randrange(1, len(kinds) + 1))
        if chaos:
            rec = False
        else:
            rec = rng.random() < 0.5
        with ctx.server(variant, conf, tls=tls, deflate=deflate, chaos=chaos, rec=rec, ports=ports, start=False) as s:
            # started at the first attempt: the previous one has released the ports
            if ports and any(listener(p) for p in ports):
                ports = s.fixed_ports = None
            try:
                s.start()
            except Exception as e:
                if ports and any(listener(p) for p in ports):
                    raise Inconclusive('somebody else took the port')
                raise Violation('shutdown:restart', 'a server could not be started%s: %s' % (' on the ports of the previous one' if ports else '', e))
            ctx.count('servers')
            if ports and s.attempts > 1:
                raise Violation('shutdown:restart', 'the ports of the previous server could not be used at once: %s' % s.tail_log())
            fresh = ports is not None
            ports = (s.http, s.https)
            sc = Scene(ctx, s, rng, tls, deflate is not None, rec)
            errs = []
            for a in acts:
                try:
                    getattr(sc, a)()
                except OSE as e:
                    # clients of 40 ms timeouts may be gone already
                    errs.append(repr(e))
            time.sleep(rng.choice([0, 0.001, 0.01, 0.05, 0.2]) * rng.random())
            desc = '%s %s %s' % (' '.join(a[2:] for a in acts) or 'nothing', conf['setup']['timeouts'], 'workers %d' % conf['setup']['pool']['workers'])
            ctx.log(desc)
            sc.moment()
            alive = s.alive()
            t0 = time.monotonic()
            times = 1
            if repeats and rng.random() < 0.5:
                times = rng.choice([2, 3, 10, 50])
            for k in range(times):
                if not s.alive():
                    break
                s.interrupt()
                if times > 1:
                    time.sleep(rng.choice([0, 0.0001, 0.002, 0.01]))
            st = s.stop(BOUND[variant])
            took = time.monotonic() - t0
            sc.over.set()
            if st is not None and times < 50 and took > BOUND[variant]:
                raise Violation('shutdown:slow', '%s: %.1f s' % (desc, took), hang=True)
            ctx.counters['max_exit_ms'] = max(ctx.counters.get('max_exit_ms', 0), int(took * 1000))
            judge(ctx, s, alive, st)
            # every connection has ended
            for c in sc.keep[:10]:
                k = c.sock if isinstance(c, Client) else c
                k = getattr(k, 'sock', k)
                try:
                    k.settimeout(5)
                    while k.recv(1 << 20):
                        pass
                except socket.timeout:
                    if k.fileno() >= 0:
                        raise Violation('shutdown:connection', '%s: a connection is still open' % desc)
                except OSError:
                    pass
            if rec:
                ev = s.events()
                o = [e for e in ev if e[0] == 'CONNECT']
                ctx.count('recorded_lives', len(o))
            sc.end()
            s.proc = None
            ctx.case((variant, tls, deflate, tuple(sorted(acts)), conf['setup']['timeouts'].get('client'), times > 1), nontrivial=bool(acts), sample='%s: exit after %d ms' % (desc, took * 1000))
            for a in acts:
                ctx.count('during_' + a[2:])
            if times > 1:
                ctx.count('repeated_interrupts')
            if fresh:
                ctx.count('restarted_on_same_ports')


def exhausted(ctx, variant, rounds, tls):
    """Interrupted while there is no file descriptor left."""
    rng = ctx.rng
    for r in range(rounds):
        n = rng.choice([20, 33, 48, 64])
        with ctx.server(variant, {'setup': {'pool': {'workers': rng.choice([1, 4])}}}, tls=tls, nofile=n) as s:
            keep = []
            opened = 0
            for i in range(n + 10):
                p = rng.choice([s.http, s.https]) if tls else s.http
                if i < 8 and rng.random() < 0.7:
                    t = None if p == s.http else '1.3'
                    try:
                        c = Client(p, tls=t, timeout=10)
                        c.handshake(protocols=rng.choice([None, 'echo']))
                        opened += 1
                        keep.append(c)
                    except OSE:
                        pass
                else:
                    keep.append(socket.create_connection(('127.0.0.1', p), 10))
            end = time.monotonic() + 5
            while len(os.listdir('/proc/%d/fd' % s.pid)) < n and time.monotonic() < end:
                time.sleep(0.01)
            left = n - len(os.listdir('/proc/%d/fd' % s.pid))
            ctx.count('descriptors_left', max(0, left))
            alive = s.alive()
            t0 = time.monotonic()
            st = s.stop(BOUND[variant])
            judge(ctx, s, alive, st)
            s.proc = None
            for k in keep:
                k.close()
            ctx.case(('exhausted', variant, tls, n, left <= 0, opened), sample='no descriptor of %d left: exit after %d ms' % (n, (time.monotonic() - t0) * 1000))


def handler_there(pid):
    try:
        with open('/proc/%d/status' % pid) as f:
            for l in f:
                if l.startswith('SigCgt:'):
                    return bool(int(l.split()[1], 16) >> (signal.SIGINT - 1) & 1)
    except OSError:
        pass
    return False


def starting(ctx, variant, n, tls=False):
    """The interrupt comes while the server is still starting."""
    rng = ctx.rng
    for i in range(n):
        with ctx.server(variant, {'setup': {'pool': {'workers': rng.choice([1, 8])}}}, tls=tls, start=False, deflate='') as s:
            import subprocess
            from vlib.server import free_ports
            s.http, s.https = free_ports(2)
            s.conf['setup']['port'] = {'http': s.http, 'https': s.https}
            cfg = s.write_config()
            s.stderr = open(os.path.join(s.dir, 'stderr'), 'ab')
            s.proc = subprocess.Popen([os.path.join(s.bdir, 'WSServer'), '-c', cfg], cwd=s.dir, stdin=subprocess.DEVNULL, stdout=s.stderr, stderr=s.stderr, env=s.environment())
            end = time.monotonic() + 30
            while not handler_there(s.pid) and s.proc.poll() is None and time.monotonic() < end:
                pass
            d = rng.choice([0, 0, 0.0002, 0.001, 0.005, 0.02]) * rng.random()
            time.sleep(d)
            t0 = time.monotonic()
            alive = s.alive()
            st = s.stop(BOUND[variant])
            took = time.monotonic() - t0
            if st not in (0, None) and 'already in use' in s.tail_log():
                s.proc = None
                continue
            judge(ctx, s, alive, st)
            s.proc = None
            ctx.case(('starting', variant, tls, int(d * 20000)), sample='interrupted %.2f ms after the handler was installed' % (d * 1000))
            ctx.counters['max_exit_ms'] = max(ctx.counters.get('max_exit_ms', 0), int(took * 1000))
            ctx.count('during_start')


def crowded(ctx, variant, clients, tls=False):
    """Hundreds of connections, all of them with work at the moment of the interrupt."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': rng.choice([2, 8])}, 'size': {'ringbuffer': 64}}}, tls=tls) as s:
        cs = []
        for k in range(clients):
            t = '1.3' if tls and k % 4 == 0 else None
            c = Client(s.https if t else s.http, tls=t, timeout=20)
            c.handshake(protocols=rng.choice(['echo', 'broadcast']))
            cs.append(c)
        for c in cs:
            c.send(frame(TEXT, b'x' * rng.choice([1, 100, 3000])))
        time.sleep(rng.random() * 0.01)
        alive = s.alive()
        t0 = time.monotonic()
        st = s.stop(BOUND[variant] * 2)
        judge(ctx, s, alive, st)
        ctx.counters['max_exit_ms'] = max(ctx.counters.get('max_exit_ms', 0), int((time.monotonic() - t0) * 1000))
        s.proc = None
        for c in cs:
            c.close()
        ctx.case(('crowded', variant, clients, tls))
        ctx.count('during_crowd')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 8 if deep else 1
    out = []
    for i in range(4 if deep else 2):
        out.append(Scenario('asan-%d' % i, shutdowns, variant='asan', n=14 * k, tls=True, deflate='' if i else None))
    out.append(Scenario('asan-plain', shutdowns, variant='asan', n=12 * k))
    out.append(Scenario('asan2', shutdowns, variant='asan2', n=12 * k, deflate=''))
    out.append(Scenario('rel', shutdowns, variant='rel', n=25 * k, tls=True, deflate=''))
    out.append(Scenario('poll', shutdowns, variant='poll', n=15 * k, tls=True))
    out.append(Scenario('delays', shutdowns, variant='relc', n=15 * k, tls=True, chaos=(100, 300, 0)))
    for i in range(4 if deep else 2):
        out.append(Scenario('places-%d' % i, shutdowns, variant='relc', n=10 * k, tls=bool(i), chaos=(300, 3000, 0, 200)))
    out.append(Scenario('faults', shutdowns, variant='relc', n=15 * k, tls=True, deflate='', chaos=(20, 300, 60)))
    out.append(Scenario('tsan', shutdowns, variant='tsan', n=8 * k, tls=True))
    out.append(Scenario('busy', shutdowns, variant='rel', n=20 * k, tls=True, kinds=['a_broadcasting', 'a_churning', 'a_echoing', 'a_leaving', 'a_arriving']))
    out.append(Scenario('busy-asan', shutdowns, variant='asan', n=10 * k, tls=True, kinds=['a_broadcasting', 'a_churning', 'a_echoing', 'a_leaving', 'a_arriving', 'a_half_tls']))
    out.append(Scenario('starting', starting, variant='rel', n=40 * k, tls=True))
    out.append(Scenario('starting-asan', starting, variant='asan', n=15 * k, tls=True))
    out.append(Scenario('starting-tsan', starting, variant='tsan', n=5 * k))
    out.append(Scenario('exhausted', exhausted, variant='rel', rounds=6 * k, tls=True))
    out.append(Scenario('exhausted-poll', exhausted, variant='poll', rounds=4 * k, tls=False))
    out.append(Scenario('crowded', crowded, variant='rel', clients=400, tls=True))
    out.append(Scenario('crowded-asan', crowded, variant='asan', clients=200, tls=True))
    return out

"""C33: the log is whole records, at the configured level, of every connection."""
import datetime
import os
import random
import re
import resource
import signal
import socket
import struct
import subprocess
import threading
import time

from checks.c10 import judge
from checks.c14 import parallel
from vlib import req as R
from vlib import server as S
from vlib.check import Scenario, Violation, short
from vlib.work import blob, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

PROPERTY = 'C33'
LEVEL = 'exploration'
TECHNIQUE = ('online and offline checking of the log file of the real server while concurrent clients (plain, secure, IPv4 and IPv6, well-behaved and hostile) come and go: every record '
             'is parsed and the records are matched with the connections the clients know to have had; starts that fail, also with every small number of file descriptors and threads allowed')
NOTE = 'Sampled histories. Records about a connection are judged only for connections that ended before the server did.'
VARIANTS = ['rel', 'poll', 'relc', 'asan']
RULE = 'a case is one connection with its records, or one run of the server at a level; distinct by kind of client, transport, address family and way of ending'
ASSUMPTIONS = ['the clock of the machine is not set back during a run', 'the texts of the records that tell of the start and the end of a connection contain "connected" and '
               '"disconnected", its number, and for the end its address and port']

LEVELS = ['FATAL', 'ERROR', 'WARN', 'INFO', 'DEBUG', 'TRACE']
LINE = re.compile(rb'^\[(\d+)\] (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}) +(FATAL|ERROR|WARN|INFO|DEBUG|TRACE) +([\w./+-]+):(\d+): (.*)$')
START = re.compile(rb'(?<![a-z])session (\d+) connected', re.I)
END = re.compile(rb'session (\d+) disconnected from ip: (\S+):(\d+) using (HTTPS?)\b', re.I)
MARK = b'zQxW'      # what clients send contains this; nothing else does


class Rec:
    def __init__(self, m):
        self.thread, self.time, level, self.file, self.line, self.text = m.groups()
        self.level = LEVELS.index(level.decode())


def records(data, level, what):
    """Parses a log of at most INFO: every line is a record."""
    if data and not data.endswith(b'\n'):
        raise Violation('log:incomplete', '%s: the last record is cut: %r' % (what, data[-200:]))
    out = []
    for l in data.split(b'\n')[:-1]:
        m = LINE.match(l)
        if not m:
            raise Violation('log:line', '%s: not a record: %r' % (what, l[:300]))
        if MARK in l:
            raise Violation('log:foreign', '%s: data of a client in a record: %r' % (what, l[:300]))
        r = Rec(m)
        if re.search(rb'\[\d{6,}\] \d{4}-\d\d-', r.text) or re.search(rb'[^\x20-\x7e]', l):
            raise Violation('log:mixed', '%s: two records in one line, or control characters: %r' % (what, l[:300]))
        if r.level > level:
            raise Violation('log:level', '%s: a record of level %s while %d is configured: %r' % (what, LEVELS[r.level], level, l[:300]))
        if out and r.time < out[-1].time:
            raise Violation('log:time', '%s: %r follows a record of %r' % (what, l[:200], out[-1].time))
        out.append(r)
    return out


def ends(recs):
    return [m for m in (END.search(r.text) for r in recs) if m]


class Known:
    """The connections the clients had."""
    def __init__(self):
        self.lock = threading.Lock()
        self.had = []

    def add(self, ip, port, tls, started, kind):
        with self.lock:
            self.had.append((ip, port, tls, started, kind))


KINDS = ['goodbye', 'close', 'reset', 'nothing', 'partial', 'refused', 'bad', 'violation', 'echo', 'garbage', 'noisy', 'crawl']


def one(s, rng, kn, kind, tls, host, source, garbage):
    port = s.https if tls else s.http
    if kind == 'garbage' and tls:
        c = Client(port, host=host, source=source, timeout=20)
        kn.add(c.sock.getsockname()[0], c.local_port, True, False, kind)
        c.send(garbage)
        c.expect_eof(15)
        c.close()
        return
    c = Client(port, tls=tls, host=host, source=source, timeout=20)
    sock = getattr(c.sock, 'sock', c.sock)
    kn.add(sock.getsockname()[0], c.local_port, bool(tls), True, kind)
    if kind == 'nothing':
        pass
    elif kind == 'garbage':
        c.send(garbage)
    elif kind == 'partial':
        r, _ = request(port=c.port, protocols='echo', path='/' + MARK.decode())
        c.send(r[:rng.randrange(1, len(r))])
    elif kind == 'refused':
        c.send(b'GET /%s HTTP/1.1\r\nHost: %s\r\nUser-Agent: %s\r\n\r\n' % (MARK, MARK, MARK * rng.randrange(1, 100)))
    elif kind == 'bad':
        c.send(rng.choice([b'PUT /' + MARK + b' HTTP/1.1\r\n\r\n', b'GET ' + MARK + b'%s%n%n HTTP/1.1\r\nHost: a\r\n\r\n', MARK + b'\r\n\r\n',
                           b'GET /favicon.ico?' + MARK + b' HTTP/1.1\r\nHost: ' + MARK + b'\r\n\r\n',
                           b'GET / HTTP/1.1\r\nHost: a\r\nOrigin: ' + MARK + b'%s%s%n\x1b[31m\r\nCookie: ' + MARK + b'\r\n\r\n']))
    else:
        c.handshake(protocols='echo', path='/%s?%%s%%n=%s' % (MARK.decode(), MARK.decode()), extra=[('Cookie', MARK.decode() + '%n')])
        for i in range(rng.choice([0, 1, 3])):
            d = MARK + text(rng, rng.choice([0, 5, 200, 70000])) + b'%s%n\n[1] 2020-01-01 00:00:00.000000  INFO a.c:1: x\r\n'
            c.send(frame(TEXT, d))
            e = c.read_event()
            while e[0] == PING:
                e = c.read_event()
            if e != (TEXT, d):
                raise Violation('log:echo', 'an echo differs')
        if kind == 'violation':
            c.send(rng.choice([frame(3, MARK), frame(CLOSE, struct.pack('!H', 5) + MARK), frame(TEXT, MARK + b'\xff'), frame(PING, MARK * 40), frame(CONT, MARK)]))
            try:
                while True:
                    c.read_event(10)
            except (Closed, ProtocolError, Timeout):
                pass
        elif kind == 'noisy':
            for i in range(20):
                c.send(frame(rng.choice([PING, PONG]), MARK + bytes([10, 13, 27, 0])))
        elif kind == 'crawl':
            f = frame(BIN, MARK)
            c.send(f[:rng.randrange(1, len(f))])
        elif kind == 'goodbye':
            c.send(frame(CLOSE, struct.pack('!H', 1000) + MARK))
            c.expect_eof(10)
    if kind == 'reset':
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        sock.close()
        return
    if kind in ('refused', 'bad') and rng.random() < 0.5:
        try:
            c.read_http()
        except (Closed, ProtocolError, Timeout):
            pass
    c.close()


def read(s):
    with open(os.path.join(s.dir, 'log', 'WSServer.log'), 'rb') as f:
        return f.read()


def size(s):
    return os.path.getsize(os.path.join(s.dir, 'log', 'WSServer.log'))


def crowd(s, rng, kn, threads, rounds, tls, hosts):
    def client(r):
        for i in range(rounds):
            t = r.choice(['1.2', '1.3']) if tls and r.random() < 0.5 else None
            h = r.choice(hosts)
            src = None if ':' in h else r.choice([None, '127.0.0.%d' % r.randrange(2, 250), '127.%d.%d.%d' % (r.randrange(256), r.randrange(256), r.randrange(1, 255))])
            k = r.choice(KINDS)
            g = MARK + bytes(r.choice([10, 13, 0, 37, 110, 115, 200, 65]) for _ in range(r.randrange(1, 60)))
            try:
                one(s, r, kn, k, t, h, src, g)
            except (Closed, OSError) as e:
                if isinstance(e, ConnectionRefusedError):
                    raise
                if k not in ('bad', 'refused', 'garbage', 'violation', 'noisy', 'goodbye'):
                    raise Violation('log:client', '%s: %r' % (k, e))
    parallel(None, [lambda r=random.Random(rng.random()): client(r) for _ in range(threads)])


def match(ctx, s, kn, recs, start, what):
    """Every connection has one record of its end, with its address."""
    found = {}
    order = {}
    for n, r in enumerate(recs):
        m = END.search(r.text)
        if m:
            k = (m.group(2).decode(), int(m.group(3)), m.group(4) == b'HTTPS')
            found[k] = found.get(k, 0) + 1
            order.setdefault(m.group(1), []).append('end')
            continue
        m = START.search(r.text)
        if m:
            order.setdefault(m.group(1), []).append('start')
    had = {}
    for ip, port, tls, started, kind in kn.had:
        k = (ip, port, tls)
        had[k] = had.get(k, 0) + 1
    for k in set(had) | set(found):
        if found.get(k, 0) != had.get(k, 0):
            ks = [x[4] for x in kn.had if x[:3] == k]
            raise Violation('log:end-count', '%s: connection from %s:%d (%s, %s) has %d records of its end instead of %d' %
                            (what, k[0], k[1], 'https' if k[2] else 'http', ks, found.get(k, 0), had.get(k, 0)))
    for fd, seq in order.items():
        for a, b in zip(['end'] + seq, seq):
            if a == b == 'start':
                raise Violation('log:order', '%s: session %s starts twice without an end: %s' % (what, fd, seq[:40]))
    n = sum(q.count('start') for q in order.values())
    want = sum(1 for x in kn.had if x[3])
    # a secure client may leave just before the server knows that the handshake is complete
    may = sum(1 for x in kn.had if x[2])
    if not want - may <= n <= want:
        raise Violation('log:start-count', '%s: %d records of a start for %d connections' % (what, n, want))
    for x in kn.had:
        ctx.case((x[4], x[2], ':' in x[0]), sample=repr(x))
    ctx.count('connections with one end record', len(kn.had))
    ctx.count('records', len(recs))


def connections(ctx, variant, threads, rounds, tls=False, chaos=None, workers=4, buffer=32768):
    rng = ctx.rng
    conf = {'setup': {'log_level': 3, 'timeouts': {'read': 3000, 'write': 3000}, 'pool': {'workers': workers}, 'size': {'buffer': buffer}}}
    with ctx.server(variant, conf, tls=tls, chaos=chaos) as s:
        c = Client(s.http)
        c.handshake(protocols='echo')
        c.close()
        waitend(s, 1)
        at = settle(s)
        kn = Known()
        crowd(s, rng, kn, threads, rounds, tls, ['127.0.0.1', '127.0.0.1', '::1'])
        end = time.monotonic() + 20
        while True:
            recs = records(whole(s)[at:], 3, 'log')
            if len(ends(recs)) >= len(kn.had) or time.monotonic() > end:
                break
            time.sleep(0.1)
        match(ctx, s, kn, recs, at, variant)
        alive = s.alive()
        judge(ctx, s, alive, s.stop(40))
        s.proc = None
        records(read(s), 3, 'after the end')


def whole(s):
    """The log up to its last complete record, it is being written."""
    for _ in range(50):
        d = read(s)
        if d.endswith(b'\n'):
            return d
        time.sleep(0.01)
    raise Violation('log:incomplete', 'a record stays incomplete: %r' % d[-200:])


def waitend(s, n):
    end = time.monotonic() + 10
    while len(ends(records(whole(s), 3, 'log'))) < n:
        if time.monotonic() > end:
            raise Violation('log:end-count', 'the end of a connection is not recorded: %r' % read(s)[-500:])
        time.sleep(0.02)


def settle(s):
    """Nothing is written any more (no connections, no timer)."""
    last, since = size(s), time.monotonic()
    while time.monotonic() - since < 0.3:
        time.sleep(0.03)
        if size(s) != last:
            last, since = size(s), time.monotonic()
    return last


def levels(ctx, variant, level, tls):
    """At each level: what is above does not appear, and the level above all else
    has the records of the connections."""
    rng = ctx.rng
    conf = {'setup': {'log_level': level, 'timeouts': {'read': 500, 'write': 500, 'client': 3000, 'pings': 10}, 'pool': {'workers': 6}}}
    with ctx.server(variant, conf, tls=tls) as s:
        c = Client(s.http)
        c.handshake(protocols='echo')
        c.send(frame(TEXT, b'x'))
        c.read_event()
        at = len(whole(s))
        kn = Known()
        crowd(s, rng, kn, 6, 10, tls, ['127.0.0.1', '::1'])
        time.sleep(1)
        c.close()
        end = time.monotonic() + 10
        while True:
            d = whole(s)
            if level < 3 or len(ends_raw(d[at:])) >= len(kn.had) or time.monotonic() > end:
                break
            time.sleep(0.1)
        d = d[at:]
        if level <= 3:
            recs = records(d, level, 'level %d' % level)
        else:
            # what clients send is shown at these levels, and may have lines of its own
            recs = [Rec(m) for m in (LINE.match(l) for l in d.split(b'\n')) if m]
            if any(r.level > level for r in recs):
                raise Violation('log:level', 'a record of level TRACE at level %d' % level)
            for l in range(3, min(level, 5) + 1):
                if not any(r.level == l for r in recs):
                    raise Violation('log:none', 'no record of level %s at level %d' % (LEVELS[l], level))
        if level < 3 and ends(recs):
            raise Violation('log:level', 'level %d' % level)
        if level >= 3 and len(ends(recs)) < len(kn.had):
            raise Violation('log:end-count', 'level %d: %d of %d' % (level, len(ends(recs)), len(kn.had)))
        alive = s.alive()
        judge(ctx, s, alive, s.stop(40))
        s.proc = None
        err = open(os.path.join(s.dir, 'stderr'), 'rb').read()
        # the records up to the one that says so go there as well
        after = err.split(b'quiet mode')[-1]
        if len(after.split(b'\n')) > 2:
            raise Violation('log:stderr', 'a release build writes to stderr: %r' % after[:500])
        ctx.case(('level', level, tls), sample='%d records, %d connections' % (len(recs), len(kn.had)))
        ctx.count('records at level %d' % level, len(recs))


def ends_raw(d):
    return [m for m in (END.search(l) for l in d.split(b'\n')) if m]


def appended(ctx, variant, runs):
    """What was in the file stays there, also after starts that fail."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'log_level': 3}}, start=False) as s:
        first = b'[1] 2020-01-01 00:00:00.000000  INFO old.c:1: of an earlier program\n' * rng.randrange(1, 2000)
        with open(os.path.join(s.dir, 'log', 'WSServer.log'), 'wb') as f:
            f.write(first)
        seen = first
        for i in range(runs):
            s.start()
            kn = Known()
            crowd(s, rng, kn, 3, 3, False, ['127.0.0.1'])
            time.sleep(0.3)
            alive = s.alive()
            judge(ctx, s, alive, s.stop(40))
            s.proc = None
            d = read(s)
            if not d.startswith(seen):
                raise Violation('log:lost', 'run %d: what an earlier run wrote has changed' % i)
            new = d[len(seen):]
            if not new:
                raise Violation('log:none', 'run %d wrote nothing' % i)
            records(new, 3, 'run %d' % i)
            seen = d
            ctx.case(('append', i), sample='%d bytes kept, %d added' % (len(seen) - len(new), len(new)))


def clock(ctx, variant, zone, hours, n, tls):
    """The time of a record is the time at which it happened."""
    rng = ctx.rng
    tz = datetime.timezone(datetime.timedelta(hours=hours))

    def when(r):
        return datetime.datetime.strptime(r.time.decode(), '%Y-%m-%d %H:%M:%S.%f').replace(tzinfo=tz).timestamp()

    with ctx.server(variant, {'setup': {'log_level': 3}}, tls=tls, env={'TZ': zone}, start=False) as s:
        before = time.time()
        s.start()
        fractions = set()
        for i in range(n):
            kn = Known()
            k = rng.choice(['goodbye', 'close', 'reset', 'echo', 'nothing'])
            at = settle(s) if i % 8 == 0 else len(whole(s))
            t0 = time.time()
            one(s, rng, kn, k, '1.3' if tls and rng.random() < 0.5 else None, '127.0.0.1', None, b'')
            end = time.monotonic() + 10
            while True:
                recs = records(whole(s)[at:], 3, 'log')
                if ends(recs) or time.monotonic() > end:
                    break
                time.sleep(0.005)
            t1 = time.time()
            if len(ends(recs)) != 1:
                raise Violation('log:end-count', '%d records of the end of one connection (%s)' % (len(ends(recs)), k))
            for r in recs:
                if not t0 - 0.002 <= when(r) <= t1 + 0.002:
                    raise Violation('log:clock', 'zone %s: a record of %s (%r) was written between %r and %r' % (zone, r.time, r.text[:100], t0, t1))
                fractions.add(r.time[-6:])
            ctx.case(('clock', zone, k), sample='%d records in %.4f s' % (len(recs), t1 - t0))
        alive = s.alive()
        judge(ctx, s, alive, s.stop(40))
        s.proc = None
        for r in records(read(s), 3, 'whole')[1:]:
            # what is logged before the configuration is known goes elsewhere
            if not before - 0.002 <= when(r) <= time.time() + 0.002:
                raise Violation('log:clock', 'zone %s: a record of %s (%r)' % (zone, r.time, r.text[:100]))
        if len(fractions) < n // 2:
            raise Violation('log:clock', 'only %d different fractions of a second in %d connections' % (len(fractions), n))


def failing(ctx, variant, how):
    """A start that fails leaves records of why."""
    with ctx.server(variant, {'setup': {'log_level': 3}}, tls=how not in ('http',), start=False) as s:
        socks = []
        ports = []
        for i in range(2):
            k = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
            k.bind(('::', 0))
            ports.append(k.getsockname()[1])
            if i == (how == 'https') and how in ('http', 'https'):
                k.listen(1)
                socks.append(k)
            else:
                k.close()
        if how not in ('http', 'https'):
            junk = os.path.join(s.dir, 'junk.pem')
            with open(junk, 'w') as f:
                f.write('junk\n')
            s.conf['setup']['ssl'][how.rstrip('-')] = junk if not how.endswith('-') else junk + '-absent'
        s.conf['setup']['port'] = {'http': ports[0], 'https': ports[1]}
        cfg = s.write_config()
        with open(os.path.join(s.dir, 'stderr'), 'ab') as err:
            p = subprocess.Popen([os.path.join(s.bdir, 'WSServer'), '-c', cfg], cwd=s.dir, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=s.environment())
            try:
                st = p.wait(60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Violation('log:start-hangs', how)
        for k in socks:
            k.close()
        if st <= 0:
            raise Violation('log:start-status', 'start that cannot succeed (%s) ends with %d' % (how, st))
        recs = records(read(s), 5, how)
        if not any(r.level <= 1 for r in recs):
            raise Violation('log:none', 'a start failed (%s) without a record of level ERROR: %s' % (how, [r.text for r in recs][-4:]))
        if how not in ('http', 'https') and not any(r.level <= 1 and re.search(rb'error:[0-9A-F]{8}', r.text) for r in recs):
            raise Violation('log:reason', 'the record of a failed start (%s) does not have the error of the TLS library: %s' % (how, [r.text for r in recs if r.level <= 1]))
        ctx.case(('failing', how), sample=repr([r.text for r in recs if r.level <= 1][:3]))


def scarce(ctx, variant, tls, files):
    """Where file descriptors are scarce, the server starts or leaves the reason why not."""
    kind = 'files'
    with ctx.server(variant, {'setup': {'log_level': 3, 'size': {'thread': 4194304}, 'pool': {'workers': 8}}}, tls=tls, start=False) as s:
        started = 0
        for n in files:
            try:
                os.unlink(os.path.join(s.dir, 'log', 'WSServer.log'))
            except OSError:
                pass
            s.conf['setup']['port'] = dict(zip(('http', 'https'), S.free_ports(2)))
            cfg = s.write_config()
            with open(os.path.join(s.dir, 'stderr'), 'wb') as err:
                p = subprocess.Popen([os.path.join(s.bdir, 'WSServer'), '-c', cfg], cwd=s.dir, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=s.environment(),
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (n, n)))
                try:
                    end = time.monotonic() + 60
                    up = 0
                    while p.poll() is None and up < 3 and time.monotonic() < end:
                        try:
                            k = socket.create_connection(('127.0.0.1', s.conf['setup']['port']['https' if tls else 'http']), 5)
                            k.close()
                            up += 1
                        except OSError:
                            up = 0
                        time.sleep(0.03)
                    was = p.poll()
                    if was is None:
                        p.send_signal(signal.SIGINT)
                    st = p.wait(60)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    raise Violation('scarce:hangs', 'with %d (%s) the server neither starts nor ends' % (n, kind), hang=True)
            with open(os.path.join(s.dir, 'stderr'), 'rb') as f:
                said = f.read()[-600:]
            # (it may listen already, and fail later)
            if was is None and up >= 3 and st != 1:
                started += 1
                ctx.check(st == 0, 'scarce:end:%d' % st, '%d (%s): interrupted, status %d: %r' % (n, kind, st, said))
            elif was is None and st != 1:
                ctx.count('undecided')
            else:
                try:
                    recs = records(read(s), 5, kind)
                except FileNotFoundError:
                    recs = []
                why = [r.text for r in recs if r.level <= 1]
                ctx.check(st == 1, 'scarce:start:%d' % st, '%d (%s): the start ended with %d: %r, log %s' % (n, kind, st, said, why))
                ctx.check(why, 'scarce:none', '%d (%s): nothing in the log tells that the start failed' % (n, kind))
                ctx.check(any(b'Too many open files' in w for w in why), 'scarce:reason', '%d files: the log does not tell the reason: %s' % (n, why))
            ctx.case(('scarce', kind, n, was is None), sample='%d (%s): %s' % (n, kind, 'started' if was is None else st))
        ctx.count('scarce_starts', started)


def unthreaded(ctx, variant, tls):
    """A start that gets only some of the threads it needs ends as one that failed."""
    rng = ctx.rng
    workers = rng.choice([1, 2, 3])
    need = (2 + workers) * (2 if tls else 1) + 1       # with the main thread: loop and workers of each instance, cleanup, main
    with ctx.server(variant, {'setup': {'log_level': 3, 'pool': {'workers': workers}}}, tls=tls, start=False) as s:
        logs = os.path.join(s.dir, 'log')
        os.makedirs(logs, exist_ok=True)
        for d in (s.dir, logs):
            os.chmod(d, 0o777)
        up = down = 0
        for n in list(range(2, need + 4)):
            for f in os.listdir(logs):
                os.unlink(os.path.join(logs, f))
            s.conf['setup']['port'] = dict(zip(('http', 'https'), S.free_ports(2)))
            cfg = s.write_config()
            os.chmod(cfg, 0o644)
            # the limit counts what a user runs; nobody else is this one
            uid = 540000 + rng.randrange(400000)

            def limit():
                resource.setrlimit(resource.RLIMIT_NPROC, (n, n))
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            err = os.path.join(s.dir, 'stderr')
            with open(err, 'wb') as f:
                try:
                    p = subprocess.Popen([os.path.join(s.bdir, 'WSServer'), '-c', cfg], cwd=s.dir, stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=s.environment(), preexec_fn=limit)
                except (subprocess.SubprocessError, OSError):
                    ctx.count('no_other_user')
                    return
            try:
                end = time.monotonic() + 30
                while p.poll() is None and time.monotonic() < end:
                    try:
                        socket.create_connection(('127.0.0.1', s.conf['setup']['port']['https' if tls else 'http']), 5).close()
                        break
                    except OSError:
                        time.sleep(0.02)
                end = time.monotonic() + 0.3
                while p.poll() is None and time.monotonic() < end:
                    time.sleep(0.02)
                if p.poll() is None:
                    p.send_signal(signal.SIGINT)
                st = p.wait(60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Violation('unthreaded:hangs', 'allowed %d threads (%d workers, %s) the server neither starts nor ends' % (n, workers, tls), hang=True)
            with open(err, 'rb') as f:
                said = f.read()[-1500:]
            try:
                why = [r.text for r in records(read(s), 5, 'threads') if r.level <= 1]
            except FileNotFoundError:
                ctx.count('no_other_user')
                return
            ctx.check(st in (0, 1), 'unthreaded:status:%d' % st, 'allowed %d threads (%d workers, %s): status %d: %r' % (n, workers, tls, st, said))
            if st == 1:
                down += 1
                ctx.check(why, 'unthreaded:none', '%d threads: nothing in the log tells that the start failed' % n)
            else:
                up += 1
            ctx.case(('unthreaded', variant, workers, tls, n, st), sample='%d threads allowed: status %d %r' % (n, st, why[:1]))
        ctx.check(up, 'unthreaded:never', 'the server never started, with up to %d threads and %d workers' % (need + 3, workers))
        ctx.count('unthreaded_failed', down)
        ctx.count('unthreaded_started', up)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    k = 6 if deep else 1
    for i in range(2 * k):
        out.append(Scenario('crowd-%d' % i, connections, variant='rel', threads=14, rounds=70 * (4 if deep else 1), tls=bool(i % 2), workers=rng.choice([2, 4, 8]), weight=3, timeout=150))
    out.append(Scenario('crowd-poll', connections, variant='poll', threads=10, rounds=60 * k, tls=True, weight=3, timeout=150))
    out.append(Scenario('crowd-small', connections, variant='rel', threads=8, rounds=30 * k, tls=True, buffer=7, weight=2, timeout=150))
    out.append(Scenario('crowd-delays', connections, variant='relc', threads=10, rounds=25 * k, tls=True, chaos=(60, 500, 0), weight=2, timeout=150))
    for l in [-1, 0, 1, 2, 3, 4, 5, 7]:
        out.append(Scenario('level%d' % l, levels, variant='rel', level=l, tls=l in (3, 5), weight=1, timeout=120))
    for z, h in [('UTC', 0), ('AAA-5:45', 5.75), ('BBB+11', -11)]:
        out.append(Scenario('clock-%d' % h, clock, variant='rel', zone=z, hours=h, n=40 * k, tls=h > 0, weight=1, timeout=120))
    for how in ['http', 'https', 'cert', 'cert-', 'key', 'key-', 'ca_file', 'ca_file-']:
        out.append(Scenario('failing-' + how, failing, variant='rel', how=how, weight=1, timeout=90))
    for v, tls in (('rel', True), ('poll', True), ('rel', False)):
        out.append(Scenario('scarce-%s-%s' % (v, 'tls' if tls else 'plain'), scarce, variant=v, tls=tls, files=list(range(5, 40 if deep else 26)), weight=1, timeout=150))
    for i in range(5 if deep else 1):
        for v, tls in (('rel', True), ('rel', False), ('asan', True)):
            out.append(Scenario('unthreaded-%s-%s-%d' % (v, 'tls' if tls else 'plain', i), unthreaded, variant=v, tls=tls, weight=1, timeout=150))
    out.append(Scenario('append', appended, variant='rel', runs=3 * k, weight=1, timeout=120))
    return out

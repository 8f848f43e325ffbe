"""C08: a subprotocol is told of every accepted client exactly once, of its
messages in between, and of its end exactly once."""
import random
import socket
import struct
import threading
import time

from vlib import req as R
from vlib.check import Scenario, Violation, short
from vlib.work import negotiated, payload, peer, segments
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, fnv, frame, request

PROPERTY = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('offline trace checking: recording subprotocols log every callback; a per-descriptor automaton and the clients\' own account of what they sent '
             'judge the log after shutdown')
NOTE = 'Histories are sampled: every way a connection can end, in random order and concurrently, with descriptors being reused all the time.'
VARIANTS = ['rel', 'poll', 'asan', 'tsan', 'relc']
RULE = ('a case is one connection with its history (subprotocol, path, cookies, messages, how it ended); distinct by these. The log must contain for each '
        'accepted connection exactly one CONNECT with its data, then its messages in order, then exactly one CLOSE, and nothing for refused ones.')
ASSUMPTIONS = ['a connection is identified in the log by the path it asked for']

ENDS = ['close', 'close', 'rst', 'fin', 'halfclose', 'protocol', 'utf8', 'midframe', 'midmessage', 'shutdown', 'unread', 'toobig']


class Account:
    """What a client knows about its connection."""
    def __init__(self, port, proto, path, cookies):
        self.port, self.proto, self.path, self.cookies = port, proto, path, cookies
        self.sent = []          # messages in order: (op, len, fnv)
        self.sure = 0           # that many have certainly been delivered
        self.end = None
        self.upgraded = False
        self.maybe = False      # the client cannot know whether it was upgraded


class Life:
    def __init__(self, ctx, s, rng, timeouts=False, deflate=False, tls=False, refuse=None):
        self.ctx, self.s, self.rng = ctx, s, rng
        self.accounts = []
        self.open = []
        self.deflate, self.tls = deflate, tls
        self.lock = threading.Lock()
        self.timeouts = timeouts

    def connect(self):
        rng, s = self.rng, self.s
        ver = rng.choice([None, '1.2', '1.3']) if self.tls else None
        host, source = rng.choice([('127.0.0.1', None)] * 3 + [('::1', None), ('127.0.0.1', '127.%d.%d.%d' % (rng.randrange(1, 256), rng.choice([0, 7, 200]), rng.randrange(2, 255)))])
        c = Client(s.https if ver else s.http, tls=ver, host=host, source=source)
        proto = rng.choice(['rec', 'rec', 'other'])
        path = rng.choice(['/', '/?a=b', '/x/y', '/%20?token=1&t=' + 'q' * rng.randrange(0, 200), '/' + 'p' * rng.randrange(1, 300)])
        cookies = rng.choice([None, 'a=b', 'a=b; c="d e"', 'x=' + 'y' * rng.randrange(1, 500)])
        if rng.random() < 0.1:
            path = '/' + 'long/' * rng.randrange(100, 1500)
        if rng.random() < 0.1:
            cookies = 'x=' + 'long' * rng.randrange(100, 1700)
        with self.lock:
            # what identifies the connection in the log
            path += '%sn=%d' % ('&' if '?' in path else '?', len(self.accounts))
            a = Account(c.local_port, proto, path, cookies)
            a.ip = source or host
            self.accounts.append(a)
        extra = [('Cookie', cookies)] if cookies else []
        return c, a, extra

    def refused(self):
        """A request that is not upgraded, or not even complete."""
        rng, s = self.rng, self.s
        c, a, extra = self.connect()
        kind = rng.choice(['silent', 'half', 'bad', 'version', 'key', 'http', 'garbage', 'early', 'tlsgarbage', 'method'])
        try:
            self.refuse(c, a, extra, kind)
        except (Closed, OSError):
            pass
        c.close(abort=rng.random() < 0.5)
        a.end = 'refused ' + kind
        self.ctx.count('refused')

    def refuse(self, c, a, extra, kind):
        rng, s = self.rng, self.s
        data, key = request(path=a.path, port=c.port, protocols=a.proto, extra=extra)
        if kind == 'half':
            c.send(data[:rng.randrange(1, len(data) - 1)])
        elif kind == 'bad':
            c.send(b'GET /\r\n\r\n')
            c.read_http()
        elif kind == 'version':
            data, key = request(path=a.path, port=c.port, protocols=a.proto, version=12)
            c.send(data)
            c.read_http()
        elif kind == 'key':
            data, key = request(path=a.path, port=c.port, protocols=a.proto, key='short')
            c.send(data)
            c.read_http()
        elif kind == 'http':
            c.send(b'GET /x HTTP/1.1\r\nHost: a\r\n\r\n')
            c.read_http()
        elif kind == 'method':
            c.send(data.replace(b'GET', b'PUT', 1))
            c.read_http()
        elif kind == 'garbage':
            c.send(rng.randbytes(50) + b'\r\n\r\n')
            c.read_http()
        elif kind == 'early':
            # gone before it can read the answer
            c.send(data)
            a.maybe = True
        if rng.random() < 0.3:
            time.sleep(rng.random() * 0.005)

    def accepted(self, maxmsg=8, linger=False):
        rng, s, ctx = self.rng, self.s, self.ctx
        c, a, extra = self.connect()
        ext = rng.choice([None, 'permessage-deflate', 'permessage-deflate; client_no_context_takeover']) if self.deflate else None
        r = c.handshake(path=a.path, protocols=a.proto, extra=extra, extensions=ext)
        a.upgraded = True
        if r.get('sec-websocket-protocol') != a.proto:
            raise Violation('lifecycle:protocol', 'offered %s, answered %r' % (a.proto, r))
        p = negotiated(r)
        defl = None
        if p is not None:
            defl = peer(p)
            c.deflate, c.rsv1_ok = defl, True
        # the subprotocol is told before the response is sent
        if rng.random() < 0.2:
            log = [e for e in s.events(None if a.proto == 'rec' else a.proto) if e[0] == 'CONNECT' and e[4] == a.path]
            if len(log) != 1:
                raise Violation('lifecycle:connect', 'when the response was read the log had %d CONNECT entries for port %d' % (len(log), a.port))
        n = rng.randrange(0, maxmsg)
        for i in range(n):
            self.message(c, a, defl)
        got = 0
        if rng.random() < 0.7:
            while got < n:
                op, d = c.read_event(15)
                if op in (TEXT, BIN):
                    if (op, len(d), fnv(d)) != a.sent[got]:
                        raise Violation('lifecycle:echo', 'message %d differs' % got)
                    got += 1
            a.sure = n
        if linger:
            with self.lock:
                self.open.append((c, a, defl))
            return
        self.finish(c, a, defl)

    def message(self, c, a, defl):
        rng = self.rng
        op = rng.choice([TEXT, BIN])
        d = payload(rng, op, rng.choice([0, 1, 10, 125, 126, 200, 1000, 5000]))
        if d[:1] == b'!':
            d = b'?' + d[1:]
        a.sent.append((op, len(d), fnv(d)))
        w, rsv = d, 0
        if defl is not None and rng.random() < 0.8:
            w, rsv = defl.compress(d), 4
        if rng.random() < 0.3 and len(w) > 1:
            k = rng.randrange(0, len(w))
            data = frame(op, w[:k], fin=False, rsv=rsv) + (frame(PING, b'x') if rng.random() < 0.3 else b'') + frame(CONT, w[k:])
        else:
            data = frame(op, w, rsv=rsv)
        sizes, pause = segments(rng, data) if rng.random() < 0.2 and len(data) < 500 else ([len(data)], 0)
        c.send_segments(data, sizes, pause)

    def finish(self, c, a, defl, end=None):
        rng = self.rng
        end = end or rng.choice(ENDS)
        a.end = end
        try:
            if end == 'close':
                c.send(frame(CLOSE, b'\x03\xe8bye'))
                c.ended(15)
                a.sure = len(a.sent)
                c.close()
            elif end == 'rst':
                c.close(abort=True)
            elif end == 'fin':
                c.close()
            elif end == 'halfclose':
                c.sock.shutdown(socket.SHUT_WR) if not c.tls else None
                if not c.tls:
                    c.ended(15, cut=True)
                c.close()
            elif end == 'protocol':
                c.send(frame(TEXT, b'x', mask=False))
                c.ended(15)
                a.sure = len(a.sent)
                c.close()
            elif end == 'utf8':
                c.send(frame(TEXT, b'\xff\xfe'))
                c.ended(15)
                a.sure = len(a.sent)
                c.close()
            elif end == 'toobig':
                c.send(frame(BIN, b'abc', length=1 << 40))
                c.ended(15)
                a.sure = len(a.sent)
                c.close()
            elif end == 'midframe':
                c.send(frame(BIN, bytes(100))[:rng.randrange(1, 100)])
                c.close(abort=rng.random() < 0.5)
            elif end == 'midmessage':
                c.send(frame(TEXT, b'abc', fin=False))
                if rng.random() < 0.5:
                    time.sleep(0.003)
                c.close(abort=rng.random() < 0.5)
            elif end == 'shutdown':
                c.sock.shutdown(socket.SHUT_RDWR)
                c.close()
            elif end == 'unread':
                # the echoes of a burst are never read
                for i in range(20):
                    self.message(c, a, defl)
                c.close(abort=rng.random() < 0.5)
        except (BrokenPipeError, ConnectionError, Closed, OSError):
            c.close()
        except ProtocolError as e:
            raise ProtocolError('%s, end was %s: %s' % (e, end, a.sent))
        self.ctx.count('end_' + end)


def judge(ctx, s, name, accounts, final=True):
    """The automaton over the log of one subprotocol."""
    log = s.events(None if name == 'rec' else name)
    if not log or log[0][0] != 'INIT':
        raise Violation('lifecycle:init', 'log of %s starts with %s' % (name, log[:1]))
    bypath = {a.path: a for a in accounts if a.proto == name}
    state = {}      # fd -> [account, messages so far, running]
    seen = {}       # port -> number of CONNECTs
    over = False
    for i, e in enumerate(log):
        k = e[0]
        if k == 'INIT':
            if i:
                raise Violation('lifecycle:init', 'second INIT')
            continue
        if over:
            raise Violation('lifecycle:after-destroy', '%s after DESTROY' % e)
        if k == 'DESTROY':
            if state:
                raise Violation('lifecycle:destroy-open', 'DESTROY while %d connections were not closed: %s' % (len(state), [(f, x[0].port, x[0].end) for f, x in state.items()][:5]))
            over = True
            continue
        fd = e[1]
        if k == 'CONNECT':
            port = e[4]
            a = bypath.get(port)
            if a is None:
                raise Violation('lifecycle:stranger', '%s was told of an unknown client: %s' % (name, e))
            if not (a.upgraded or a.maybe):
                raise Violation('lifecycle:refused-announced', 'a connection that ended as "%s" was announced: %s' % (a.end, e))
            if port in seen:
                raise Violation('lifecycle:connect-twice', 'second %s' % e)
            if fd in state:
                raise Violation('lifecycle:connect-open', 'CONNECT for descriptor %s which was not closed (%s)' % (fd, state[fd][0].end))
            seen[port] = 1
            rest = ' '.join(e[4:])
            want = '%s %s' % (a.path, a.cookies if a.cookies else '(null)')
            if e[2] != a.ip or rest != want or e[3] != str(a.port):
                raise Violation('lifecycle:data', 'announced as %s:%s, %s; connected from %s:%d, %s' % (e[2], e[3], short(rest), a.ip, a.port, short(want)))
            state[fd] = [a, 0, 0]
            continue
        st = state.get(fd)
        if st is None:
            raise Violation('lifecycle:%s-without-connect' % k.lower(), '%s, entry %d: %s; before: %s' % (name, i, e, [x for x in log[:i] if x[1:2] == [fd]][-4:]))
        if k == 'MESSAGE':
            a = st[0]
            if st[2] or e[5] != '1':
                raise Violation('lifecycle:nested', 'message while another of the same connection is handled: %s' % e)
            got = (int(e[2]), int(e[3]), int(e[4], 16))
            if st[1] >= len(a.sent) or got != a.sent[st[1]]:
                raise Violation('lifecycle:message', 'message %d of port %d (%s) is %s, sent was %s' % (
                    st[1], a.port, a.end, got, a.sent[st[1]] if st[1] < len(a.sent) else 'nothing'))
            if e[6] != '0':
                raise Violation('lifecycle:terminator', 'message is not followed by a null byte: %s' % e)
            st[1] += 1
            st[2] = 1
        elif k == 'DONE':
            st[2] = 0
        elif k == 'CLOSE':
            if st[2]:
                raise Violation('lifecycle:close-early', 'CLOSE of %s while a message of it is handled' % fd)
            a = st[0]
            if st[1] < a.sure:
                raise Violation('lifecycle:lost', 'port %d (%s) had %d messages delivered of %d that must have been' % (a.port, a.end, st[1], a.sure))
            del state[fd]
            ctx.case((name, a.path, a.cookies, tuple(a.sent), a.end), sample='%s %s: %d messages, ended by %s' % (name, a.path[:20], st[1], a.end))
            ctx.count('closes')
    for a in bypath.values():
        if a.upgraded and a.path not in seen:
            raise Violation('lifecycle:never', 'port %d (%s) was upgraded but never announced' % (a.port, a.end))
    if final:
        if state:
            raise Violation('lifecycle:never-closed', 'no CLOSE for %s' % [(f, x[0].port, x[0].end) for f, x in state.items()][:5])
        if not over:
            raise Violation('lifecycle:destroy', 'no DESTROY')
    ctx.count('log_entries', len(log))
    return state


def wait_closed(ctx, s, life, keep, timeout=20):
    """All but the connections still open have been withdrawn."""
    end = time.monotonic() + timeout
    want = {a.path for c, a, d in keep}
    while True:
        left = {}
        for n in (None, 'other'):
            for e in s.events(n):
                if e[0] == 'CONNECT':
                    left[(n, e[1])] = e[4]
                elif e[0] == 'CLOSE':
                    left.pop((n, e[1]), None)
        rest = {p for p in left.values() if p not in want}
        if not rest:
            return
        if time.monotonic() > end:
            ends = {a.path: a.end for a in life.accounts}
            raise Timeout('still not withdrawn: %s' % [(p, ends.get(p)) for p in rest])
        time.sleep(0.05)


def history(ctx, variant, n, threads=1, tls=False, deflate=None, workers=4, linger=6, log=True, chaos=None):
    with ctx.server(variant, {'setup': {'pool': {'workers': workers}}}, tls=tls, rec=['rec', 'other'], deflate=deflate, chaos=chaos) as s:
        life = Life(ctx, s, ctx.rng, tls=tls, deflate=deflate is not None)
        errs = []

        def run(seed, k):
            l2 = Life(ctx, s, random.Random(seed), tls=tls, deflate=deflate is not None)
            l2.accounts, l2.open, l2.lock = life.accounts, life.open, life.lock
            try:
                for i in range(k):
                    if l2.rng.random() < 0.3:
                        l2.refused()
                    else:
                        l2.accepted()
            except BaseException as e:
                errs.append(e)
        if threads == 1:
            for i in range(n):
                if ctx.rng.random() < 0.3:
                    life.refused()
                else:
                    life.accepted()
        else:
            ts = [threading.Thread(target=run, args=(ctx.rng.random(), n // threads)) for _ in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
        for i in range(linger):
            life.accepted(linger=True)
        wait_closed(ctx, s, life, life.open)
        for nm in ('rec', 'other'):
            judge(ctx, s, nm, life.accounts, final=False)
        for c, a, d in life.open:
            a.end = 'server shutdown'
            if ctx.rng.random() < 0.5:
                self_msgs = ctx.rng.randrange(0, 4)
                for i in range(self_msgs):
                    life.message(c, a, d)
            elif ctx.rng.random() < 0.5:
                c.send(frame(TEXT, b'half', fin=False))
        alive = s.alive()
        st = s.stop(40)
        ctx_judge(ctx, s, alive, st)
        for nm in ('rec', 'other'):
            judge(ctx, s, nm, life.accounts)
        for c, a, d in life.open:
            c.close()
        s.proc = None
        ctx.count('histories')


def ctx_judge(ctx, s, alive, st):
    from vlib.check import Watched
    w = Watched(ctx)
    w.s = s
    w.judge(alive, st)


def timeouts(ctx, variant, n):
    """Connections that end because they stay silent."""
    with ctx.server(variant, {'setup': {'timeouts': {'client': 400, 'pings': 2}}}, rec=['rec', 'other']) as s:
        life = Life(ctx, s, ctx.rng)
        for i in range(n):
            life.accepted(maxmsg=4, linger=True)
        silent = [Client(s.http) for i in range(3)]
        end = time.monotonic() + 15
        for c, a, d in life.open:
            a.end = 'timeout'
            c.ended(max(0.1, end - time.monotonic()))
        wait_closed(ctx, s, life, [])
        for c, a, d in life.open:
            c.close()
        for c in silent:
            c.close()
        alive = s.alive()
        st = s.stop(40)
        ctx_judge(ctx, s, alive, st)
        for nm in ('rec', 'other'):
            judge(ctx, s, nm, life.accounts)
        s.proc = None


def busy_close(ctx, variant, n):
    """The client goes away while its message is still being handled, and another
    one takes its descriptor."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'pool': {'workers': 6}}}, rec=['rec', 'other']) as s:
        life = Life(ctx, s, rng)
        for i in range(n):
            c, a, extra = life.connect()
            c.handshake(path=a.path, protocols=a.proto, extra=extra)
            a.upgraded = True
            for k in range(rng.randrange(1, 4)):
                d = b'!sleep %d' % rng.choice([1, 5, 20])
                a.sent.append((TEXT, len(d), fnv(d)))
                c.send(frame(TEXT, d))
            time.sleep(rng.random() * 0.01)
            a.end = rng.choice(['rst', 'fin'])
            c.close(abort=a.end == 'rst')
            if rng.random() < 0.5:
                life.accepted(maxmsg=3)
        wait_closed(ctx, s, life, [])
        alive = s.alive()
        st = s.stop(40)
        ctx_judge(ctx, s, alive, st)
        for nm in ('rec', 'other'):
            judge(ctx, s, nm, life.accounts)
        s.proc = None


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 1500 if deep else 250
    for i in range(6 if deep else 2):
        out.append(Scenario('history-%d' % i, history, variant='rel', n=n, workers=rng.choice([1, 2, 4, 8])))
        out.append(Scenario('parallel-%d' % i, history, variant='rel', n=n * 4, threads=8, workers=8, weight=2))
    out.append(Scenario('history-tls', history, variant='rel', n=n, tls=True))
    out.append(Scenario('history-deflate', history, variant='rel', n=n, deflate=''))
    out.append(Scenario('history-poll', history, variant='poll', n=n))
    out.append(Scenario('history-asan', history, variant='asan', n=n, deflate=''))
    out.append(Scenario('parallel-asan', history, variant='asan', n=n * 2, threads=6, tls=True, weight=2))
    out.append(Scenario('parallel-tsan', history, variant='tsan', n=n, threads=6, weight=2))
    out.append(Scenario('parallel-faults', history, variant='relc', n=n * 2, threads=8, workers=8, weight=2, chaos=(30, 300, 20)))
    out.append(Scenario('parallel-places', history, variant='relc', n=n * 2, threads=8, workers=8, weight=2, chaos=(200, 1500, 20, 200)))
    out.append(Scenario('parallel-faults-asan', history, variant='asan', n=n * 2, threads=8, workers=8, weight=2, deflate='', chaos=(100, 200, 50)))
    out.append(Scenario('timeouts', timeouts, variant='rel', n=8))
    out.append(Scenario('timeouts-asan', timeouts, variant='asan', n=8))
    out.append(Scenario('busy-close', busy_close, variant='rel', n=40 if not deep else 300))
    out.append(Scenario('busy-close-tsan', busy_close, variant='tsan', n=40 if not deep else 300))
    return out

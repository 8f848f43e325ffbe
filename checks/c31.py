"""C31: extensions are negotiated, called and closed as their interface says."""
import os
import random
import re
import struct
import threading
import time

from checks.c10 import judge
from checks.c14 import parallel
from vlib.check import Scenario, Violation, short
from vlib.work import cuts, negotiated, payload, peer, segments
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, request

PROPERTY = 'C31'
LEVEL = 'exploration'
TECHNIQUE = ('conformance monitoring of the hooks of extensions: recording extensions of our own assert order, pairing and exclusion of the calls they get and transform '
             'messages in a way that does not commute, clients undo it and compare every byte; offline check of the recorded life cycle; sanitizers on the server')
NOTE = 'Schedules are sampled by stress, slow hooks and injected delays; extensions under observation are the ones of the check and permessage-deflate.'
VARIANTS = ['rel', 'relc', 'poll', 'asan', 'tsan', 'tsanrp']
RULE = ('a case is one message compared through a chain of extensions, one handshake whose answer was compared with the negotiation expected, or one life cycle of '
        'extension state checked; distinct by chain, framing, size class and how the connection ended')
ASSUMPTIONS = ['the extensions of the check obey the documented interface']

PATIENCE = 25
NONE = ('', '(null)')


class Ext:
    """An extension under a name: what it does to messages."""
    def __init__(self, name, rsv=2, x=0, r=0, p=0, e=0, f=0, d=0, l=0):
        self.name, self.rsv, self.x, self.r, self.p, self.e, self.f, self.d, self.l = name, rsv, x, r, p, e, f, d, l
        self.bit = {2: 2, 3: 1, 0: 0}[rsv]

    @property
    def config(self):
        return 'log=@%s.log;rsv=%d;x=%d;r=%d;p=%d;e=%d;f=%d;l=%d;d=%d' % (self.name, self.rsv, self.x, self.r, self.p, self.e, self.f, self.l, self.d)

    def front(self):
        return bytes((80 + i) & 255 for i in range(self.p))

    def rotate(self, data, sign):
        if not self.r:
            return data
        k = (sign * self.r) & 255
        return bytes((b + k * i) & 255 for i, b in enumerate(data))

    def flip(self, data):
        return data.translate(bytes(i ^ self.x for i in range(256))) if self.x else data

    def do(self, data):
        return self.flip(self.rotate(self.front() + data, 1))

    def undo(self, data):
        data = self.rotate(self.flip(data), -1)
        if data[:self.p] != self.front():
            raise Violation('ext:undo', 'what %s put in front of the message is %s' % (self.name, short(data[:self.p])))
        return data[self.p:]

    def chunks(self, fs):
        """What the server makes of the frames of a message."""
        fs = fs[:-1] + [fs[-1] + b'+' * self.l]
        whole = self.rotate(self.front() + b''.join(fs), 1)
        out, off = [], 0
        for i, c in enumerate(fs):
            n = len(c) + (self.p if i == 0 else 0)
            out.append(self.flip(whole[off:off + n]) + b'~' * self.f)
            off += n
        return out


class Deflater:
    name, bit, f, l = 'permessage-deflate', 4, 0, 0

    def __init__(self, params):
        self.d = peer(params)

    def do(self, data):
        return self.d.compress(data)

    def undo(self, data):
        return self.d.decompress(data)


def split(data, size):
    return [data[i:i + size] for i in range(0, len(data), size)] or [b'']


def answers(resp):
    """The extensions of the response as (name, parameter text) in order."""
    v = resp.all('sec-websocket-extensions')
    if len(v) > 1:
        raise Violation('ext:response', 'several extension headers in the response: %r' % v)
    if not v:
        return []
    out = []
    for e in v[0].split(','):
        n, _, p = e.partition(';')
        out.append((n.strip(), p.strip()))
    return out


class Guest:
    def __init__(self, ctx, s, rng, exts, chain, tls=None, size=1048576, proto='echo', plain=(), rcvbuf=None, loss=False):
        """chain: the names offered; exts: by name."""
        self.ctx, self.rng, self.size, self.loss = ctx, rng, max(1, size), loss
        self.c = c = Client(s.https if tls else s.http, tls=tls, timeout=PATIENCE, rcvbuf=rcvbuf)
        offers = []
        for n in chain:
            offers.append(n + (rng.choice(['; plain', ';a;plain', ';plain=1']) if n in plain else rng.choice(['', '', ';', '; a=b', ';x']) if n != 'permessage-deflate' else
                               rng.choice(['', ';server_no_context_takeover', '; client_max_window_bits=9'])))
        r = c.handshake(protocols=proto, extensions=rng.choice([', '.join(offers), ','.join(offers), offers]) if offers else None, timeout=PATIENCE)
        got = answers(r)
        if [n for n, _ in got] != list(chain):
            raise Violation('ext:negotiation', 'offered %r, answered %r' % (offers, got))
        self.chain, self.ids = [], {}
        for n, p in got:
            if n == 'permessage-deflate':
                text = [v for v in r.all('sec-websocket-extensions')[0].split(',') if 'permessage-deflate' in v][0]
                d = {}
                for x in text.split(';')[1:]:
                    k, _, v = x.partition('=')
                    if k.strip():
                        d[k.strip()] = int(v) if v.strip().isdigit() else True
                self.chain.append(Deflater(d))
            else:
                m = re.match(r'id=(\d+); ok$', p)
                if not m:
                    raise Violation('ext:accepted', '%s answered %r' % (n, p))
                self.ids[n] = int(m.group(1))
                self.chain.append(exts[n])
        self.plain = set(plain)
        self.out = [e for e in self.chain if e.name not in self.plain]
        self.frames_in = self.msgs_in = self.frames_out = self.msgs_out = 0
        self.expect, self.pongs, self.pings, self.left = [], [], 0, False
        self.label = '>'.join(chain)
        self.ver = tls

    def transmit(self, op, data, transform=True, pings=True, parts=None):
        """Sends a message, returns nothing; the answer is expected."""
        rng = self.rng
        body, rsv = data, 0
        for e in self.chain:
            if transform and (rng.random() < 0.8 or transform == 'all') or not e.bit:
                body = e.do(body)
                rsv |= e.bit
        sizes = cuts(rng, len(body), parts or rng.choice([1, 1, 2, 3, 5]))
        fs = []
        for n in sizes:
            while n > self.size:
                fs.append(self.size)
                n -= self.size
            fs.append(n)
        wire, off = [], 0
        for i, n in enumerate(fs):
            wire.append(frame(CONT if i else op, body[off:off + n], fin=i + 1 == len(fs), rsv=0 if i else rsv))
            off += n
            if pings and i + 1 < len(fs) and rng.random() < 0.2:
                p = rng.randbytes(min(self.size, rng.choice([0, 3, 125])))
                wire.append(frame(PING, p))
                self.pongs.append(p)
                self.pings += 1
        self.frames_in += len(fs)
        self.msgs_in += 1
        wire = b''.join(wire)
        sz, pause = segments(rng, wire, rng.choice(['whole', None])) if rng.random() < 0.2 and len(wire) < 20000 else (None, 0)
        if sz:
            self.c.send_segments(wire, sz, min(pause, 0.001))
        else:
            self.c.send(wire)
        self.desc = '%d bytes through %s in %d frames' % (len(data), self.label, len(fs))

    def wants(self, op, data):
        self.expect.append((op, data))

    def receive(self, timeout=PATIENCE):
        """One message of the server, checked byte by byte down to the frames."""
        fs, op, rsv = [], None, 0
        while True:
            f = self.raw(timeout)
            if f.opcode >= 8:
                return f.opcode, f.payload, None, None
            if (f.opcode == CONT) != (op is not None):
                raise Violation('ext:framing', '%r' % f)
            if op is None:
                op, rsv = f.opcode, f.rsv
            elif f.rsv:
                raise Violation('ext:framing', 'reserved bits on a continuation %r' % f)
            if len(f.payload) > self.size:
                raise Violation('ext:framesize', 'a frame of %d bytes, the largest allowed is %d (%s)' % (len(f.payload), self.size, self.label))
            fs.append(f.payload)
            if f.fin:
                break
        want = 0
        for e in self.out:
            want |= e.bit
        if rsv != want:
            raise Violation('ext:bits', 'reserved bits %d instead of %d on the message, negotiated %s' % (rsv, want, self.label))
        self.msgs_out += 1
        return op, fs, rsv, None

    def raw(self, timeout):
        from vlib.ws import check_server_frame, parse_frame
        c, deadline = self.c, time.monotonic() + timeout
        while True:
            f, p = parse_frame(c.buf, c.pos)
            if f is not None:
                c.pos = p
                rsv, f.rsv = f.rsv, 0
                check_server_frame(f)
                f.rsv = rsv
                if rsv and f.opcode >= 8:
                    raise Violation('ext:bits', 'reserved bits %d on a control frame' % rsv)
                return f
            c.fill(deadline)

    def compare(self, fs, data):
        """fs came for data."""
        fixed = split(data, self.size)
        self.frames_out += len(fixed)
        if not any(isinstance(e, Deflater) for e in self.out):
            for e in self.out:
                fixed = e.chunks(fixed)
            if any(len(x) > self.size for x in fixed):
                fixed = split(b''.join(fixed), self.size)
            if fs != fixed:
                if b''.join(fs) == b''.join(fixed):
                    raise Violation('ext:frames', 'message of %d bytes through %s: frames of %r, expected %r' % (len(data), self.label, [len(x) for x in fs][:9], [len(x) for x in fixed][:9]))
                raise Violation('ext:content', 'message of %d bytes through %s: %s, expected %s' % (len(data), self.label, short(b''.join(fs)), short(b''.join(fixed))))
        else:
            got = b''.join(fs)
            for e in reversed(self.out):
                got = e.undo(got)
            if got != data:
                raise Violation('ext:content', 'message of %d bytes through %s comes as %s instead of %s' % (len(data), self.label, short(got), short(data)))
        self.ctx.case((self.label, tuple(sorted(self.plain)), len(fs), len(data).bit_length(), self.size, self.ver), sample='%d bytes through %s, %d frames' % (len(data), self.label, len(fs)))

    def settle(self):
        """All that is expected comes, in order; pongs in theirs."""
        while self.expect or self.pongs:
            try:
                op, fs, _, _ = self.receive()
            except Timeout:
                raise Violation('ext:missing', '%s: %d messages and %d pongs did not come' % (self.label, len(self.expect), len(self.pongs)), hang=True)
            except Closed as e:
                raise Violation('ext:cut', '%s: closed while %d messages and %d pongs are missing' % (self.label, len(self.expect), len(self.pongs)))
            if op == PONG:
                self.ctx.check(self.pongs and fs == self.pongs.pop(0), 'ext:pong', 'wrong pong %s' % short(fs))
            elif op in (TEXT, BIN):
                self.ctx.check(self.expect, 'ext:extra', 'unexpected message')
                o, d = self.expect.pop(0)
                self.ctx.check(o == op, 'ext:opcode', 'opcode %d instead of %d' % (op, o))
                self.compare(fs, d)
            elif op == CLOSE:
                raise Violation('ext:closed', 'close frame %s while %d messages through %s are missing' % (short(fs), len(self.expect), self.label))

    def leave(self):
        self.c.send(frame(CLOSE, struct.pack('>H', 1000)[:self.size if self.size > 1 else 0]))
        op, d, _, _ = self.receive()
        self.ctx.check(op == CLOSE, 'ext:goodbye', 'no close frame but %d' % op)
        try:
            self.c.expect_eof(PATIENCE)
        except Timeout:
            raise Violation('ext:goodbye', 'the connection is not closed', hang=True)
        self.c.close()
        self.left = True


def log(s, name):
    p = os.path.join(s.dir, name + '.log')
    if not os.path.exists(p):
        return []
    with open(p, errors='replace') as f:
        return f.read().splitlines()


def lives(ctx, s, exts, guests=(), ended=True):
    """The record of the calls after the server has ended."""
    tally = {}
    for e in exts:
        if e.name == 'permessage-deflate':
            continue
        ls = [x.split(' ', 1)[1] for x in log(s, e.name)]
        bad = [x for x in ls if x.startswith('BAD')]
        if bad:
            w = bad[0].split()
            raise Violation('ext:hooks:' + re.sub(r'[^a-zA-Z]+', '-', ' '.join(x for x in w[1:] if not x.isdigit())), '%s: %s (%d like that)' % (e.name, bad[0], len(bad)))
        inits = [x for x in ls if x.startswith('init')]
        ctx.check(len(inits) == 1 and ls[0] == 'init ' + e.config.replace('@', s.dir + '/'), 'ext:init', '%s: initialised with %r' % (e.name, inits))
        if ended:
            ctx.check(ls and ls[-1] == 'destroy' and ls.count('destroy') == 1, 'ext:destroy', '%s: the last call is %r, %d times onDestroy' % (e.name, ls[-1:], ls.count('destroy')))
        opens, closes = {}, {}
        for x in ls:
            w = x.split()
            if w[0] == 'open':
                opens[int(w[2])] = int(w[1])
            elif w[0] == 'close':
                i = int(w[2])
                ctx.check(i in opens and opens[i] == int(w[1]) and i not in closes, 'ext:close', '%s: %s without its open' % (e.name, x))
                closes[i] = [int(v) for v in w[3:]]
        left = sorted(set(opens) - set(closes))
        ctx.check(not left, 'ext:leftover', '%s: %d of %d states opened were not closed' % (e.name, len(left), len(opens)))
        ctx.count('lifecycles', len(opens))
        tally[e.name] = closes
        ctx.case(('lives', len(opens).bit_length(), ended), sample='%s: %d states opened and closed' % (e.name, len(opens)))
    for g in guests:
        for n, i in g.ids.items():
            got = tally[n].get(i)
            ctx.check(got is not None, 'ext:id', 'state %d of %s is not in the log' % (i, n))
            fi, mi, fo, mo = got[:4]
            ctx.check((fi, mi) == (g.frames_in, g.msgs_in), 'ext:in', '%s of %s was called for %d frames and %d messages, sent were %d and %d' % (n, g.label, fi, mi, g.frames_in, g.msgs_in))
            ctx.check((fo, mo) == (g.frames_out, g.msgs_out), 'ext:out', '%s of %s was called for %d frames and %d messages, received were %d and %d' % (n, g.label, fo, mo, g.frames_out, g.msgs_out))
            if g.left:
                # every ping and the close frame in, every pong and the close frame out
                ctx.check(got[4:] == [g.pings + 1, g.pings + 1], 'ext:control', '%s of %s was called for %r control frames in and out, there were %d pings and a close frame' % (n, g.label, got[4:], g.pings))
            ctx.count('counts_compared')


def finish(ctx, s, exts, guests=()):
    alive = s.alive()
    judge(ctx, s, alive, s.stop(40))
    s.proc = None
    lives(ctx, s, exts, guests)


def setup(exts, deflate=False, front=False):
    """The extensions of the configuration."""
    l = [(e.name, e.config) for e in exts]
    if deflate:
        l.insert(0 if front else len(l), ('permessage-deflate', ''))
    return l


def conf(frame=1048576, ring=1024, workers=4, buf=32768, **kw):
    c = {'setup': {'pool': {'workers': workers}, 'size': {'frame': frame, 'ringbuffer': ring, 'buffer': buf}}}
    c['setup'].update(kw)
    return c


TWO = lambda d=0: [Ext('spy', rsv=2, x=0x5a, r=3, d=d), Ext('pad', rsv=3, p=5, r=1, d=d)]


def chains(rng, names):
    c = rng.sample(names, rng.randrange(0, len(names) + 1))
    return c


def crowd(rng, n):
    return [Ext('ext-%d' % i, rsv={0: 2, 1: 3}.get(i, 0), x=rng.randrange(256), r=rng.randrange(4), p=rng.choice([0, 0, 1, 3])) for i in range(n)]


def exchange(ctx, variant, exts, clients=5, rounds=4, msgs=12, deflate=False, tls=False, chaos=None, size=1048576, ring=1024, limit=60000):
    """Messages through chains of extensions in any order."""
    rng = ctx.rng
    names = [e.name for e in exts] + (['permessage-deflate'] if deflate else [])
    by = {e.name: e for e in exts}
    done = []
    with ctx.server(variant, conf(size, ring), tls=tls, chaos=chaos, extensions=setup(exts, deflate, rng.random() < 0.5)) as s:
        def one(r):
            for i in range(rounds):
                ch = chains(r, names)
                if r.random() < 0.7 and len(ch) < 2:
                    ch = r.sample(names, len(names))
                plain = [n for n in ch if n != 'permessage-deflate' and r.random() < 0.15]
                g = Guest(ctx, s, r, by, ch, tls=r.choice([None, '1.2', '1.3']) if tls else None, size=size, plain=plain)
                for j in range(msgs):
                    k = r.randrange(1, max(2, min(10, (ring - 1) // 2 - 4)))
                    for m in range(k):
                        op = r.choice([TEXT, BIN])
                        n = r.choice([0, 1, 2, 5, 100, 125, 126, 127, 1000, 4096, 33000, r.randrange(limit)])
                        if size < 4000:
                            n = min(n, r.choice([1, 3, 20]) * size + r.choice([-1, 0, 1, 0 - max([0] + [e.p for e in exts])]))
                        data = payload(r, op, max(0, min(n, limit)))
                        g.transmit(op, data, transform=r.random() < 0.9, pings=k < 4)
                        g.wants(op, data)
                    g.settle()
                g.leave()
                done.append(g)
        parallel(ctx, [lambda r=random.Random(rng.random()): one(r) for i in range(clients)])
        finish(ctx, s, exts, done)


def room(ctx, variant, exts, members=6, n=25, deflate=False, tls=False, chaos=None, size=1048576):
    """Broadcast: what one sends reaches every other through the chain of each."""
    rng = ctx.rng
    names = [e.name for e in exts] + (['permessage-deflate'] if deflate else [])
    by = {e.name: e for e in exts}
    with ctx.server(variant, conf(size), tls=tls, chaos=chaos, extensions=setup(exts, deflate)) as s:
        gs = [Guest(ctx, s, random.Random(rng.random()), by, chains(rng, names), tls=rng.choice([None, '1.3']) if tls else None, size=size, proto='broadcast') for i in range(members)]
        # one after the other has sent: all have joined
        for g in gs:
            d = b'hello'
            g.transmit(BIN, d, pings=False)
            for o in gs:
                if o is not g:
                    o.wants(BIN, d)
                    o.settle()
        sent = {}

        def talk(k):
            g = gs[k]
            for i in range(n):
                d = b'%d %d ' % (k, i) + payload(g.rng, TEXT, g.rng.choice([0, 10, 200, 3000]))
                sent[k, i] = d
                g.transmit(BIN, d, pings=False)

        def listen(k):
            g, seen = gs[k], {j: 0 for j in range(members) if j != k}
            for i in range(n * (members - 1)):
                try:
                    op, fs, _, _ = g.receive()
                except Timeout:
                    raise Violation('ext:missing', '%d of %d messages of the room came' % (i, n * (members - 1)), hang=True)
                ctx.check(op == BIN, 'ext:opcode', 'opcode %d in the room' % op)
                got = b''.join(fs)
                for e in reversed(g.out):
                    got = e.undo(got)
                a, b = got.split(b' ')[:2]
                a, b = int(a), int(b)
                ctx.check(seen.get(a) == b, 'ext:order', 'message %d of %d, expected is %s' % (b, a, seen.get(a)))
                seen[a] += 1
                ctx.check(got == sent[a, b], 'ext:content', 'message of the room differs')
                g.frames_out += len(split(got, g.size))
                ctx.case((g.label, 'room', len(got).bit_length()), sample='%d bytes in the room through %s' % (len(got), g.label))
        parallel(ctx, [lambda k=k: listen(k) for k in range(members)] + [lambda k=k: talk(k) for k in range(members)])
        for g in gs:
            g.leave()
        finish(ctx, s, exts, gs)


def negotiation(ctx, variant, n, tls=False, chaos=None):
    """Which offers are accepted, with which parameters, and what is answered."""
    rng = ctx.rng
    exts = [Ext('spy', rsv=2, x=1), Ext('pad', rsv=3, p=2), Ext('x-long.name'.replace('.', '-') * 3, rsv=3)]
    names = [e.name for e in exts]
    stranger = ['nothing', 'sp', 'spyy', 'Spy', 'spy.so', 'pad-', 'permessage-deflate', 'x']
    with ctx.server(variant, conf(), tls=tls, chaos=chaos, extensions=setup(exts)) as s:
        guests = []

        def one(r):
            for i in range(n):
                offers, accepted = [], []
                for k in range(r.choice([0, 1, 2, 3, 5, 12])):
                    name = r.choice(names + stranger) if r.random() < 0.9 else ''
                    ps = []
                    for m in range(r.choice([0, 0, 1, 2, 4])):
                        ps.append(r.choice(['a', 'b=1', 'plain', 'refuse', 'refuse-text', 'ignore', 'silent', 'q="x"', 'long' * 20, 'c = d']))
                    sep = r.choice([';', '; ', ' ;', ' ; '])
                    text = name + ''.join(sep + p for p in ps)
                    if not ps and r.random() < 0.2:
                        text += r.choice([';', ' ', '; '])
                    offers.append(text)
                    if name in names and name not in [a for a, _, _ in accepted] and not any(p.startswith('refuse') or p == 'ignore' for p in ps):
                        accepted.append((name, sep.join(ps).strip(), 'silent' in ps))
                lines = []
                for t in offers:
                    if lines and r.random() < 0.7:
                        lines[-1] += r.choice([',', ', ', ' ,', ' , ']) + t
                    else:
                        lines.append(t)
                c = Client(s.https if tls else s.http, tls=tls, timeout=PATIENCE)
                resp = c.handshake(protocols='echo', extensions=[l for l in lines if l.strip()] or None, timeout=PATIENCE)
                got = answers(resp)
                ctx.check([x for x, _ in got] == [a for a, _, _ in accepted], 'ext:negotiation', 'offered %r, answered %r, expected %r' % (lines, got, accepted))
                for (nm, p), (_, ps, silent) in zip(got, accepted):
                    if silent:
                        ctx.check(p == '', 'ext:accepted', '%s answered with %r, expected nothing' % (nm, p))
                    else:
                        m = re.match(r'id=(\d+); ok$', p)
                        ctx.check(m, 'ext:accepted', '%s answered with %r' % (nm, p))
                        guests.append((nm, int(m.group(1)), ps))
                ctx.case(('negotiation', len(offers), tuple(a for a, _, _ in accepted)), sample='%r -> %r' % (lines, got))
                if r.random() < 0.3:
                    c.goodbye()
                else:
                    c.close(abort=r.random() < 0.5)
        parallel(ctx, [lambda r=random.Random(rng.random()): one(r) for k in range(4)])
        finish(ctx, s, exts)
        for e in exts:
            given = {}
            for x in log(s, e.name):
                m = re.match(r'\d+ open \d+ (\d+) \[(.*)\]$', x)
                if m:
                    given[int(m.group(1))] = m.group(2)
            for nm, i, ps in guests:
                if nm == e.name:
                    got = given.get(i)
                    ctx.check(got is not None and (got == ps or got in NONE and ps == ''), 'ext:param', '%s was opened with %r, the offer was %r' % (nm, got, ps))
                    ctx.count('parameters_compared')


def refused(ctx, variant, n, tls=False, chaos=None, threads=6):
    """Handshakes that fail, are abandoned or repeated after extensions were
    opened: their state is closed at once."""
    rng = ctx.rng
    exts = TWO()
    with ctx.server(variant, conf() | {'origins': ['good.example'], 'hosts': ['127.0.0.1']}, tls=tls, chaos=chaos, extensions=setup(exts, True)) as s:
        def one(r):
            for i in range(n):
                ver = r.choice(['1.2', '1.3']) if tls else None
                try:
                    c = Client(s.https if ver else s.http, tls=ver, timeout=PATIENCE)
                except (Timeout, OSError):
                    continue
                ex = ', '.join(r.sample(['spy', 'pad;a=b', 'permessage-deflate', 'spy;refuse', 'pad'], r.randrange(1, 5)))
                what = r.choice(['origin', 'host', 'version', 'key', 'cut', 'leave', 'none', 'upgrade', 'repeat', 'good', 'talk', 'method', 'garbage', 'body'])
                kw = dict(port=c.port, protocols=r.choice([None, 'echo', 'nothing']), extensions=ex, origin='good.example')
                if what == 'origin':
                    kw['origin'] = 'evil.example'
                elif what == 'host':
                    kw['host'] = 'evil.example'
                elif what == 'version':
                    kw['version'] = r.choice([1, 9, 14, 'x'])
                elif what == 'key':
                    kw['drop'] = ('Sec-WebSocket-Key',)
                elif what == 'upgrade':
                    kw['drop'] = r.choice([('Upgrade',), ('Connection',), ('Upgrade', 'Connection')])
                elif what == 'method':
                    kw['method'] = r.choice(['POST', 'PUT'])
                elif what == 'garbage':
                    kw['extra'] = [('Host', 'twice')]
                elif what == 'body':
                    kw['extra'] = [('Content-Length', '5')]
                req, key = request(**kw)
                try:
                    if what == 'cut':
                        c.send(req[:r.randrange(1, len(req))])
                        time.sleep(r.choice([0, 0.001]))
                    else:
                        c.send(req)
                        if what == 'leave':
                            time.sleep(r.choice([0, 0, 0.001]))
                        else:
                            st = c.read_http(PATIENCE).status
                            if what in ('good', 'talk'):
                                ctx.check(st == 101, 'ext:handshake', 'a good handshake was answered with %d: %r' % (st, req))
                            ctx.case(('refused', what, st), sample='%s: %d with %s' % (what, st, ex))
                            if st == 426 and r.random() < 0.8 or what == 'repeat':
                                c.send(request(port=c.port, extensions=ex, origin='good.example')[0])
                                c.read_http(PATIENCE)
                            if what == 'talk':
                                c.send(b''.join(frame(BIN, r.randbytes(r.randrange(300))) for k in range(r.randrange(20))))
                except Timeout:
                    # what follows a handshake is not a request any more
                    if what != 'repeat':
                        raise Violation('ext:stuck', 'no answer to a handshake (%s)' % what, hang=True)
                except (Closed, OSError, ProtocolError):
                    pass
                c.close(abort=r.random() < 0.5)
        parallel(ctx, [lambda r=random.Random(rng.random()): one(r) for k in range(threads)])
        # once all have left nothing is open
        end = time.monotonic() + PATIENCE
        while True:
            opened = {e.name: sum(1 for x in log(s, e.name) if x.split()[1] == 'open') - sum(1 for x in log(s, e.name) if x.split()[1] == 'close') for e in exts}
            if not any(opened.values()):
                break
            if time.monotonic() > end:
                raise Violation('ext:kept', 'states still open after every client has left: %r' % opened, hang=True)
            time.sleep(0.05)
        finish(ctx, s, exts)


def invalid(ctx, variant, n, deflate=False):
    """Bits nobody made use of end the connection with 1002, and control frames
    never have any."""
    rng = ctx.rng
    exts = TWO()
    by = {e.name: e for e in exts}
    names = list(by) + (['permessage-deflate'] if deflate else [])
    with ctx.server(variant, conf(), rec=True, extensions=setup(exts, deflate)) as s:
        def one(r):
            for i in range(n):
                ch = r.sample(names, r.randrange(1, len(names) + 1))
                g = Guest(ctx, s, r, by, ch, proto='rec')
                d = payload(r, BIN, 40)
                g.transmit(BIN, d)
                g.wants(BIN, d)
                g.settle()
                free = [b for b in (4, 2, 1) if b not in [e.bit for e in g.chain]]
                what = r.choice(['prefix', 'short', 'continuation', 'control'] + ['unknown'] * bool(free))
                if what in ('prefix', 'short') and 'pad' not in ch:
                    what = 'control'
                if what == 'prefix':
                    w = frame(BIN, bytes(100), rsv=1)
                elif what == 'short':
                    w = frame(BIN, by['pad'].do(b'')[:r.randrange(5)], rsv=1)
                elif what == 'unknown':
                    w = frame(BIN, b'xxxxxx', rsv=r.choice(free))
                elif what == 'control':
                    w = frame(r.choice([PING, PONG]), b'x', rsv=r.choice([1, 2, 4, 7]))
                else:
                    e = r.choice([x for x in g.chain])
                    w = frame(BIN, b'zz', fin=False) + frame(CONT, b'yy', rsv=e.bit)
                g.c.send(w + frame(BIN, b'after'))
                try:
                    op, p, _, _ = g.receive()
                    if op != CLOSE:
                        raise Violation('ext:accepted-bits', '%s through %s was answered with opcode %d' % (what, g.label, op))
                    ctx.check(struct.unpack('>H', p[:2])[0] == 1002, 'ext:status', '%s through %s: closed with %s' % (what, g.label, short(p)))
                except Closed as e:
                    # data after it makes the kernel drop the answer
                    ctx.count('lost_in_reset')
                g.c.close()
                ctx.case(('invalid', what, g.label), sample='%s through %s: 1002' % (what, g.label))
        parallel(ctx, [lambda r=random.Random(rng.random()): one(r) for k in range(4)])
        finish(ctx, s, exts)


def churn(ctx, variant, seconds, tls=False, chaos=None, delay=0, deflate=True, interrupt=False, threads=10):
    """Clients come, talk and vanish at any moment while the hooks take their
    time; state never outlives the calls nor the calls the state."""
    rng = ctx.rng
    exts = TWO(delay)
    by = {e.name: e for e in exts}
    names = list(by) + (['permessage-deflate'] if deflate else [])
    with ctx.server(variant, conf(1048576, 64, workers=6, buf=rng.choice([64, 1024, 32768]), timeouts={'client': rng.choice([-1, 200]), 'pings': 1}), tls=tls, chaos=chaos,
                    extensions=setup(exts, deflate)) as s:
        end = time.monotonic() + seconds
        stop = threading.Event()

        def one(r):
            while time.monotonic() < end and not stop.is_set():
                try:
                    g = Guest(ctx, s, r, by, chains(r, names), tls=r.choice(['1.2', '1.3']) if tls else None, proto=r.choice(['echo', 'broadcast', 'broadcast']), rcvbuf=r.choice([None, 4096]))
                    for k in range(r.randrange(1, 12)):
                        d = payload(r, BIN, r.choice([0, 10, 1000, 20000]))
                        g.transmit(BIN, d)
                        if r.random() < 0.5:
                            op, fs, _, _ = g.receive(r.choice([0.01, 0.2]))
                            if op in (TEXT, BIN):
                                got = b''.join(fs)
                                for e in reversed(g.out):
                                    got = e.undo(got)
                                ctx.case((g.label, 'churn', len(got).bit_length()))
                except (Timeout, Closed, OSError):
                    pass
                except (Violation, ProtocolError):
                    if interrupt and time.monotonic() > end:
                        return
                    raise
                finally:
                    try:
                        k = r.random()
                        if k < 0.3:
                            g.c.send(frame(CLOSE, b'\x03\xe8'))
                        g.c.close(abort=k > 0.6)
                    except (OSError, NameError, UnboundLocalError):
                        pass
        if interrupt:
            ts = [threading.Thread(target=quietly, args=(one, random.Random(rng.random())), daemon=True) for k in range(threads)]
            for t in ts:
                t.start()
            time.sleep(seconds * rng.uniform(0.3, 0.9))
            end = 0
            finish(ctx, s, exts)
            for t in ts:
                t.join()
        else:
            parallel(ctx, [lambda r=random.Random(rng.random()): one(r) for k in range(threads)])
            finish(ctx, s, exts)


def quietly(f, *a):
    try:
        f(*a)
    except Exception:
        pass


def growing(ctx, variant, sizes, tls=False):
    """Extensions that make messages larger than a frame may be."""
    rng = ctx.rng
    for size in sizes:
        exts = [Ext('spy', rsv=2, **{rng.choice('fl'): rng.choice([1, 3, 50])}), Ext('pad', rsv=3, p=rng.choice([0, 1, 7, 200]), x=7)]
        by = {e.name: e for e in exts}
        guests = []
        with ctx.server(variant, conf(size), tls=tls, extensions=setup(exts)) as s:
            for ch in (['spy'], ['pad'], ['spy', 'pad'], ['pad', 'spy']):
                g = Guest(ctx, s, rng, by, ch, tls='1.3' if tls else None, size=size)
                g.chain = [e for e in g.chain if not e.f and not e.l]       # what the client applies
                grow = sum(e.f + e.p + e.l for e in g.out)
                ns = {3 * size, 2 * size - grow, 2 * size - grow + 1, 0, 1, size - 1, size, size + 1, 2 * size, 2 * size - 1, 3 * size + 1} | {max(0, size - k) for k in (grow, grow - 1, grow + 1, 1)}
                for n in sorted(x for x in ns if x >= 0):
                    op = rng.choice([TEXT, BIN])
                    d = payload(rng, op, n)
                    g.transmit(op, d, transform=rng.random() < 0.5)
                    g.wants(op, d)
                    g.settle()
                g.leave()
                guests.append(g)
            finish(ctx, s, exts, guests)


def pieces(ctx, variant, rounds, tls=False):
    """Messages of very many frames, in and out."""
    rng = ctx.rng
    for i in range(rounds):
        size = rng.choice([1, 2, 3, 7, 20])
        exts = [Ext('spy', rsv=2, x=3, r=rng.randrange(3)), Ext('pad', rsv=3, p=rng.choice([0, 1, 4]), x=7, r=1)]
        by = {e.name: e for e in exts}
        guests = []
        with ctx.server(variant, conf(size), tls=tls, extensions=setup(exts)) as s:
            for ch in (['spy'], ['spy', 'pad'], ['pad', 'spy']):
                g = Guest(ctx, s, rng, by, ch, tls='1.2' if tls else None, size=size)
                for n in rng.sample([60, 70, 130, 300, 1100, 4200, 9000, 17000], 4):
                    op = rng.choice([TEXT, BIN])
                    d = payload(rng, op, n)
                    g.transmit(op, d, transform=rng.random() < 0.8, pings=False, parts=rng.choice([1, min(n, 200), min(n, 2000)]))
                    g.wants(op, d)
                    g.settle()
                if size > 1:
                    g.leave()
                else:
                    g.c.close()
                guests.append(g)
            finish(ctx, s, exts, guests)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 20 if deep else 4
    out = []

    def three():
        return [Ext('spy', rsv=2, x=rng.randrange(256), r=rng.randrange(4)), Ext('pad', rsv=3, p=rng.choice([1, 5, 30]), r=rng.randrange(4), x=rng.choice([0, 9]))]
    out.append(Scenario('exchange', exchange, variant='rel', exts=three(), rounds=4 * k))
    out.append(Scenario('exchange-deflate', exchange, variant='rel', exts=three(), rounds=4 * k, deflate=True, tls=True))
    out.append(Scenario('exchange-data', exchange, variant='rel', exts=[Ext('spy', rsv=2, p=rng.choice([1, 4, 300]), e=1)], rounds=4 * k))
    out.append(Scenario('exchange-small', exchange, variant='rel', exts=three(), rounds=3 * k, size=rng.choice([125, 200, 1000])))
    out.append(Scenario('exchange-poll', exchange, variant='poll', exts=three(), rounds=3 * k, deflate=True))
    out.append(Scenario('exchange-faults', exchange, variant='relc', exts=three(), rounds=3 * k, deflate=True, chaos=(20, 200, 40)))
    out.append(Scenario('exchange-delays', exchange, variant='relc', exts=three(), rounds=3 * k, tls=True, chaos=(60, 300, 0)))
    # many extensions at once
    out.append(Scenario('exchange-many', exchange, variant='rel', exts=crowd(rng, rng.choice([7, 9, 12, 20])), rounds=k, msgs=6, deflate=True, tls=True, limit=5000))
    out.append(Scenario('exchange-many-asan', exchange, variant='asan', exts=crowd(rng, 40 if deep else 17), rounds=1 + k // 4, msgs=4, clients=3, limit=3000))
    out.append(Scenario('exchange-asan', exchange, variant='asan', exts=three(), rounds=2 * k, deflate=True, tls=True, clients=4))
    out.append(Scenario('exchange-tsan', exchange, variant='tsan', exts=three(), rounds=2 * k, deflate=True, clients=4, limit=20000))
    out.append(Scenario('exchange-tsanrp', exchange, variant='tsanrp', exts=three(), rounds=2 * k, clients=4, limit=20000))
    out.append(Scenario('room', room, variant='rel', exts=three(), n=25 * k, deflate=True))
    out.append(Scenario('room-tls', room, variant='rel', exts=three(), n=20 * k, deflate=True, tls=True))
    out.append(Scenario('room-delays', room, variant='relc', exts=TWO(200), n=10 * k, deflate=True, chaos=(60, 300, 0)))
    out.append(Scenario('room-asan', room, variant='asan', exts=three(), n=10 * k, deflate=True))
    out.append(Scenario('room-tsan', room, variant='tsan', exts=three(), n=8 * k, deflate=True))
    out.append(Scenario('negotiation', negotiation, variant='rel', n=80 * k))
    out.append(Scenario('negotiation-asan', negotiation, variant='asan', n=30 * k))
    out.append(Scenario('negotiation-tls', negotiation, variant='rel', n=30 * k, tls='1.3'))
    out.append(Scenario('refused', refused, variant='rel', n=60 * k))
    out.append(Scenario('refused-tls', refused, variant='rel', n=30 * k, tls=True))
    out.append(Scenario('refused-asan', refused, variant='asan', n=30 * k, tls=True))
    out.append(Scenario('refused-delays', refused, variant='relc', n=30 * k, chaos=(60, 300, 20)))
    out.append(Scenario('refused-tsan', refused, variant='tsan', n=20 * k))
    out.append(Scenario('invalid', invalid, variant='rel', n=15 * k, deflate=True))
    out.append(Scenario('invalid-asan', invalid, variant='asan', n=8 * k))
    out.append(Scenario('growing', growing, variant='rel', sizes=[125, 126, 127, 200, 1000, 65535, 65536][:7 if deep else 4] + [rng.randrange(100, 5000)]))
    out.append(Scenario('growing-asan', growing, variant='asan', sizes=[125, 300], tls=True))
    out.append(Scenario('pieces', pieces, variant='rel', rounds=2 * k))
    out.append(Scenario('pieces-asan', pieces, variant='asan', rounds=1 + k // 8, tls=True))
    for v, d, c in (('rel', 0, None), ('relc', 300, (60, 500, 20)), ('asan', 100, None), ('tsan', 100, None), ('tsanrp', 0, None), ('poll', 200, None)):
        out.append(Scenario('churn-' + v, churn, variant=v, seconds=20 if deep else 3, delay=d, chaos=c, tls=v in ('rel', 'asan', 'poll')))
        out.append(Scenario('interrupt-' + v, churn, variant=v, seconds=4 if deep else 2, delay=d, chaos=c, tls=v in ('relc', 'asan'), interrupt=True))
    return out

"""C25: the subprotocol is the first one offered that is configured, else echo."""
import collections
import random
import threading

from checks.c10 import judge
from vlib.check import Scenario, Violation, short
from vlib.ws import BIN, TEXT, Client, Closed, Timeout, frame, request

PROPERTY = 'C25'
LEVEL = 'exploration'
TECHNIQUE = ('conformance monitoring of the handshake response against a reference reading of the offers, and offline comparison of the callbacks recorded by '
             'several instances of a recording subprotocol with what each connection was told')
NOTE = 'Offers are generated: orders, white space, prefixes, near misses, duplicates, empty elements, several headers, up to hundreds of names.'
VARIANTS = ['rel', 'poll', 'asan', 'tsan']
RULE = ('a case is one connection; distinct by its offers and the configured set. After each server the callbacks of every recording subprotocol must be exactly '
        'those of the connections that were answered with its name.')
ASSUMPTIONS = ['names are compared case sensitively', 'a subprotocol is named after its file up to the first dot']

POOL = ['rec', 'chat', 'cha', 'chatx', 'v1', 'v10', 'a', 'A', 'ab', 'soap', 'x-y', 'chat_2', '0', 'Echo', 'echo2', 'ech', 'rec+json', 'superlongname' * 7, 'w!z', '12345678']
STRANGE = ['"%s"', '%s;', '%s=1', '%sx', 'x%s', '%s %s', '%s/', '.%s', '%s.so', '%s\\', "'%s'", '(%s)']


def offer(rng, names, n=None):
    """One element that may or may not be one of the names."""
    k = rng.random()
    m = rng.choice(names) if names and rng.random() < 0.8 else rng.choice(POOL)
    if k < 0.45:
        return m
    if k < 0.6:
        return rng.choice(POOL)
    if k < 0.68:
        return m[:-1] or 'q'
    if k < 0.74:
        return m.swapcase()
    if k < 0.82:
        p = rng.choice(STRANGE)
        return p % ((m,) * p.count('%s'))
    if k < 0.88:
        return ''
    return rng.choice(['none', 'unknown', 'mqtt', 'graphql-ws', 'x' * rng.randrange(1, 200), m + m])


def offers(rng, names, most=7000):
    """The values of the headers, the order of the elements"""
    k = rng.random()
    if k < 0.12:
        return []
    total = rng.choice([1, 1, 2, 3, 5, 9]) if k < 0.95 else rng.randrange(50, 300 if most < 10000 else 3000)
    hs = []
    for h in range(1 if rng.random() < 0.7 else rng.randrange(1, 5)):
        hs.append([offer(rng, names if rng.random() < 0.7 else []) for _ in range(total)])
    out = []
    size = 0
    for els in hs:
        kept = []
        for e in els:
            size += len(e) + 6
            if size < most * 5 // 7:
                kept.append(e)
        ws = lambda: rng.choice(['', '', ' ', '  ', '\t', ' \t ', ' ' * rng.randrange(0, 12)]) if rng.random() < 0.7 else ''
        style = rng.random()
        if style < 0.4:
            v = ', '.join(kept)
        elif style < 0.6:
            v = ','.join(kept)
        else:
            v = ','.join(ws() + e + ws() for e in kept)
            size += len(v)
        out.append(v)
    return out if sum(map(len, out)) < most else ['none']


def chosen(values, names):
    for v in values:
        for e in v.split(','):
            if e.strip(' \t') in names:
                return e.strip(' \t')
    return None


def sets(ctx, variant, names, n, tls=False, threads=1, deflate=None, most=7000):
    rng = ctx.rng
    recs = [x for x in names if x not in ('echo', 'broadcast')]
    plain = [x for x in names if x in ('echo', 'broadcast')]
    told = collections.defaultdict(dict)        # name -> path -> messages
    lock = threading.Lock()
    ids = [0]
    err = []
    order = recs[:]
    rng.shuffle(order)
    with ctx.server(variant, {'setup': {'subprotocols': plain, 'size': {'header': max(16384, 2 * most)}}}, rec=order or None, no_protos=not names, tls=tls, deflate=deflate) as s:
        room = None
        if 'broadcast' in names:
            room = Client(s.http, timeout=30)
            room.handshake(protocols='broadcast')

        def one(rng):
            values = offers(rng, names, most)
            if most > 10000 and names and values and rng.random() < 0.7:
                # the first that is configured comes late
                values = [', '.join(e for e in v.split(',') if e.strip(' \t') not in names) for v in values]
                values[-1] += ', ' + rng.choice(names)
            want = chosen(values, names)
            with lock:
                ids[0] += 1
                path = '/n%d' % ids[0]
            t = rng.choice([None, '1.2', '1.3']) if tls else None
            c = Client(s.https if t else s.http, tls=t, timeout=20)
            spell = rng.choice(['Sec-WebSocket-Protocol', 'sec-websocket-protocol', 'SEC-WEBSOCKET-PROTOCOL', 'Sec-Websocket-Protocol'])
            extra = []
            for v in values:
                extra.append((spell, v))
                if rng.random() < 0.3:
                    extra.append(rng.choice([('X-Protocol', 'chat'), ('Protocol', 'chat, rec'), ('X-Sec-WebSocket-Protocol', 'chat'), ('Accept', '*/*')]))
            r = c.handshake(path=path, extra=extra, expect=None)
            ctx.log(path, values, want, r.status)
            handler = want or ('echo' if 'echo' in names else None)
            if handler is None:
                if r.status < 400:
                    raise Violation('subprotocol:none', 'status %d although no subprotocol can serve %r' % (r.status, values))
                ctx.case((tuple(names), tuple(values)), nontrivial=False)
                c.close()
                return
            if r.status != 101:
                raise Violation('subprotocol:refused', 'status %d for offers %r with %s configured' % (r.status, values, names))
            if r.all('sec-websocket-protocol') != ([want] if want else []):
                raise Violation('subprotocol:chosen', 'answered %r, offers %r with %s configured' % (r.all('sec-websocket-protocol'), values, names))
            m = rng.choice([0, 1, 3])
            msgs = [b'%s message %d' % (path.encode(), i) for i in range(m)]
            with lock:
                told[handler][path] = m
            for i, d in enumerate(msgs):
                c.send(frame(rng.choice([TEXT, BIN]), d))
                if handler != 'broadcast':
                    got = c.read_message(20)[1]
                    if got != d:
                        raise Violation('subprotocol:handler', '%r came back as %r from %s' % (d, got[:60], handler))
            if handler == 'broadcast' or rng.random() < 0.5:
                c.goodbye()
            c.close()
            ctx.case((tuple(names), tuple(values)), nontrivial=len(values) > 0, sample='%s of %r' % (want, values))

        def run(rng, k):
            try:
                for _ in range(k):
                    if err:
                        return
                    one(rng)
            except BaseException as e:
                err.append(e)
        ts = [threading.Thread(target=run, args=(random.Random(rng.random()), n // threads)) for _ in range(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            raise err[0]
        if room is not None:
            want = collections.Counter(b'%s message %d' % (p.encode(), i) for p, m in told['broadcast'].items() for i in range(m))
            got = collections.Counter()
            for _ in range(sum(want.values())):
                try:
                    got[room.read_message(15)[1]] += 1
                except (Timeout, Closed):
                    break
            ctx.check(got == want and room.quiet(0.1), 'subprotocol:room', 'the room received %s, sent to it %s' % (short(got - want), short(want - got)))
            room.close()
        alive = s.alive()
        judge(ctx, s, alive, s.stop(40))
        s.proc = None
        logs = {x: s.events(None if x == 'rec' else x) for x in recs}
        for x in recs:
            seen = {}
            at = {}
            ended = collections.Counter()
            for e in logs[x]:
                if e[0] == 'CONNECT':
                    at[e[1]] = e[4]
                    if e[4] in seen:
                        raise Violation('subprotocol:twice', '%s was told twice of %s' % (x, e[4]))
                    seen[e[4]] = 0
                elif e[0] == 'MESSAGE':
                    if e[1] not in at:
                        raise Violation('subprotocol:message', '%s got a message of the unknown descriptor %s' % (x, e[1]))
                    seen[at[e[1]]] += 1
                elif e[0] == 'CLOSE':
                    ended[at.pop(e[1], None)] += 1
            if seen != told[x]:
                raise Violation('subprotocol:reach', '%s was reached by %s instead of %s' % (
                    x, short({k: v for k, v in seen.items() if told[x].get(k) != v}), short({k: v for k, v in told[x].items() if seen.get(k) != v})))
            ctx.count('connections_recorded', len(seen))
            ctx.count('messages_recorded', sum(seen.values()))


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 4000 if deep else 600

    def some(k):
        x = rng.sample(POOL, k)
        for p, q in (('echo', 0.75), ('broadcast', 0.4)):
            if rng.random() < q:
                x.insert(rng.randrange(len(x) + 1), p)
        return x
    fixed = [['echo'], ['rec'], ['broadcast'], ['rec', 'chat', 'cha', 'chatx', 'echo'], ['a', 'A', 'ab', 'echo', 'broadcast'], ['ech', 'echo', 'echo2', 'Echo']]
    for i, f in enumerate(fixed):
        out.append(Scenario('set-%d' % i, sets, variant='rel', names=f, n=n, tls=i == 3))
    for i in range(12 if deep else 4):
        out.append(Scenario('random-%d' % i, sets, variant=['rel', 'poll'][i % 2], names=some(rng.choice([1, 3, 8, len(POOL)])), n=n, tls=i % 4 == 1, threads=6,
                            deflate='' if i % 3 == 2 else None))
    for i in range(4 if deep else 2):
        out.append(Scenario('long-%d' % i, sets, variant=['rel', 'poll'][i % 2], names=some(rng.choice([1, 3, 8])), n=n // 3, tls=i % 2 == 1, threads=4, most=60000))
    out.append(Scenario('asan', sets, variant='asan', names=some(8), n=n, threads=4, tls=True, weight=2, timeout=120))
    out.append(Scenario('tsan', sets, variant='tsan', names=['echo'] + [x for x in some(5) if x != 'echo'], n=n // 2, threads=4, weight=2, timeout=120))
    return out

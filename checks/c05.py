"""C05: admission follows the configured origins, hosts, paths and queries."""
import re

from vlib import req as R
from vlib.check import Scenario, Violation, short
from vlib.work import segments
from vlib.ws import TEXT, Client, ProtocolError, frame

PROPERTY = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'differential monitoring: generated requests near the border of random admission policies, status compared with an independent policy model, callbacks recorded by a plugin in the server'
NOTE = ('Policies and requests are sampled; the model decides each component by itself (whole-component matching) and shares nothing with the regular '
        'expression the server composes. Upgrade, Connection, version and key variants are enumerated from a list under each policy.')
VARIANTS = ['rel', 'poll', 'ubsan']
RULE = ('a case is one request under one policy, distinct by policy, target, host, origin, upgrade, connection, version and key; the status must be the '
        "model's, and the number of connections announced to the subprotocol must equal the number of 101 responses.")
ASSUMPTIONS = ['patterns of paths and queries that can match "?" or "&" are not generated, the documentation does not say what they mean',
               'when several things are wrong the status may name any of them']

POLICIES = [
    dict(),
    dict(hosts=['example.com']),
    dict(hosts=['example.com', 'localhost', 'a.b.c', '127.0.0.1']),
    dict(origins=['http://example.com']),
    dict(origins=['http://example.com', 'https://example.com:8443', 'null']),
    dict(paths=['chat']),
    dict(paths=['chat', 'chat/room', 'news']),
    dict(paths=['chat/[a-z]+', 'v[0-9]{1,3}/x', 'a|b']),
    dict(queries=['token=[a-f0-9]{4}']),
    dict(queries=['a=1', 'b=[0-9]*', 'long=x+']),
    dict(paths=['chat', 'x/[^?&]*'], queries=['id=[0-9]+', 'q']),
    dict(hosts=['example.com', 'srv'], origins=['http://o'], paths=['p', 'q/r'], queries=['k=v', 'n=[0-9]{2}']),
    dict(hosts=['h'], paths=['(ab)+', 'c?d', 'x.z', 'dot\\.txt']),
    dict(paths=['abc|def', 'gh'], queries=['m=1|m=2', 'z']),
    dict(paths=['']),
    dict(paths=['chat'], queries=['']),
    dict(queries=['', 'a=1'], paths=['', '', 'v[0-9]+/x'], hosts=['example.com']),
]

PATHS = ['', 'chat', 'chat/', 'chats', 'xchat', 'cha', 'CHAT', 'chat/room', 'chat/room1', 'chat/roo', 'news', '/chat', 'chat//room', 'chat/abc', 'chat/aBc',
         'chat/', 'v1/x', 'v123/x', 'v1234/x', 'v/x', 'a', 'b', 'ab', 'a|b', 'p', 'q/r', 'pq', 'q', 'x/', 'x/anything', 'x/y/z', 'abab', 'aba', 'cd', 'd', 'ccd',
         'xyz', 'xz', 'x.z', 'dot.txt', 'dotatxt', 'abc', 'def', 'abcdef', 'abdef', 'abc|def', 'gh', 'abcgh', 'chat#frag', 'chat%20', '.', '..', '*', 'favicon',
         'favicon.ico/', 'chat;x', '$', '^', '(chat)', 'chat)', 'chat\\']
QUERIES = [None, None, None, '', 'token=12ab', 'token=12abc', 'token=12a', 'token=12AB', 'xtoken=12ab', 'token=12ab&token=ffff', 'token=12ab&', '&token=12ab',
           'token=12ab&x=1', 'a=1', 'a=2', 'a=1&b=', 'a=1&b=77&long=xxx', 'a=1&b=7x', 'a=1&&b=1', 'b=1&a=1&a=1&a=1', 'a=11', 'long=', 'id=1', 'id=', 'id=1&q', 'q',
           'q&q&q', 'qq', 'q?', '?q', 'k=v', 'k=v&n=10', 'n=1', 'n=100', 'k=v&k=v', 'm=1', 'm=2', 'm=3', 'm=1&m=2&z', 'm=1|m=2', 'z', 'zz', 'a=1#x']
HOSTS = ['example.com', 'example.com:%d', 'EXAMPLE.com', 'example.co', 'example.comm', 'xexample.com', 'example.com:1', 'example.com:%d0', 'example.com:',
         'localhost', 'localhost:%d', 'a.b.c', 'a.b', 'a.b.c.d', '127.0.0.1', '127.0.0.1:%d', '127.0.0.2', 'srv', 'srv:%d', 'h', 'h:%d', 'hh', 'exampleXcom', '',
         'example.com,localhost', 'example.com localhost', None]
ORIGINS = ['http://example.com', 'http://example.com:80', 'https://example.com', 'http://example.co', 'http://example.com/', 'http://example.comm',
           'http://EXAMPLE.com', 'https://example.com:8443', 'https://example.com:844', 'null', 'Null', 'nul', 'http://o', 'http://oo', 'o', '', None,
           'http://example.com http://o', 'http://example.com,http://o']
UPGRADES = ['websocket', 'WebSocket', 'WEBSOCKET', 'websockets', 'websocke', 'xwebsocket', 'h2c', '', None, 'web socket']
CONNECTIONS = ['Upgrade', 'upgrade', 'keep-alive, Upgrade', 'Upgrade, keep-alive', 'keep-alive,Upgrade,close', 'keep-alive', 'close', 'Upgrades', 'Upgrad', 'UpgradeX, x',
               'xUpgrade', '', None, 'keep-alive; Upgrade', 'Up grade']
VERSIONS = ['13', '8', '7', '0', '1', '2', '3', '4', '5', '6', '9', '10', '11', '12', '14', '99', '130', '-13', '', None, 'x', '1 3', '13x', '13.0', '13 x', '8;', '7-', '0x0d', '4294967309', '4294967303',
            '18446744073709551629', '-4294967283', '-18446744073709551603', '99999999999999999999', '131', '88', '77', '3', '1e1']
KEYS = [None, '', 'AAAA', 'x3JJHMbDL1EzLkh9GBhXDw', 'x3JJHMbDL1EzLkh9GBhX', 'x3JJHMbDL1EzLkh9GBhXDwAA', 'x3JJHMbDL1EzLkh9GBhXDw==', 'x3JJHMbDL1EzLkh9GBhXDw==x',
        'x3JJHMbDL1EzLkh9GBhXDw==' * 8, '!!JJHMbDL1EzLkh9GBhXDw==', 'x3JJHMbDL1Ez kh9GBhXDw==', 'x3JJHMbDL1EzLkh9GBhXDw==' + 'A' * 3000, 'x' * 24, '=' * 24]


class Lists:
    """The values requests are made of under one policy."""
    def __init__(self, policy=None):
        self.policy = policy or {}
        self.paths, self.queries, self.hosts, self.origins = PATHS, QUERIES, HOSTS, ORIGINS


def word(rng, lo=1, hi=12):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789-') for _ in range(rng.randrange(lo, hi + 1)))


def near(rng, x):
    """Something close to a value."""
    k = rng.randrange(9)
    if k == 0 or not x:
        return x + rng.choice('az09')
    i = rng.randrange(len(x))
    if k == 1:
        return x[:-1]
    if k == 2:
        return x[1:]
    if k == 3:
        return x[:i] + x[i + 1:]
    if k == 4:
        return x[:i] + x[i].swapcase() + x[i + 1:]
    if k == 5:
        return x[:i] + rng.choice('az') + x[i:]
    if k == 6:
        return x + x
    if k == 7:
        return x[:i]
    return x[:i] + rng.choice('bcdy') + x[i + 1:]


class Random(Lists):
    """A policy with lists of any length, and values equal or close to its entries."""
    def __init__(self, rng):
        n = {k: rng.choice([0, 1, 2, 5, 8, 9, 17, 40, 100]) for k in ('hosts', 'origins', 'paths', 'queries')}
        hosts = ['.'.join(word(rng) for _ in range(rng.randrange(1, 4))) for _ in range(n['hosts'])]
        origins = [rng.choice(['http://', 'https://']) + word(rng) + rng.choice(['', '.org', ':%d' % rng.randrange(1, 65536)]) for _ in range(n['origins'])]
        words = [word(rng) for _ in range(6)]
        paths = ['/'.join(rng.choice(words + [word(rng)]) for _ in range(rng.randrange(1, 4))) for _ in range(n['paths'])]
        queries = [rng.choice([word(rng, 1, 4), word(rng, 1, 4) + '=' + word(rng, 0, 8)]) for _ in range(n['queries'])]
        many = rng.random() < 0.5

        def pattern(x):
            k = rng.randrange(8)
            i = rng.randrange(len(x))
            if k == 0:
                return x[:i] + '[a-z0-9-]' + x[i + 1:]
            if k == 1:
                return x + '[0-9]{1,2}'
            if k == 2:
                return x[:i] + '(' + x[i:] + ')?'
            if k == 3:
                return '(' + x + '|' + word(rng) + ')'
            if k == 4:
                return x + '|' + word(rng)
            return x
        self.policy = {k: x for k, x in (('hosts', hosts), ('origins', origins), ('paths', [pattern(x) for x in paths] if many else paths),
                                         ('queries', [pattern(x) for x in queries] if many else queries)) if x}

        def pool(xs, more):
            return list(xs) * 2 + [near(rng, rng.choice(xs)) for _ in range(2 * len(xs))] + more if xs else more
        self.paths = pool(paths, ['', 'x', word(rng)])
        self.paths = [p for p in self.paths if not set(p) & set('?#')]
        self.queries = [None, '', word(rng)] + pool(queries, []) + ['&'.join(rng.choice(pool(queries, ['z'])) for _ in range(rng.randrange(2, 12))) for _ in range(len(queries))]
        self.hosts = pool(hosts, ['', 'localhost', word(rng)])
        self.hosts = [h + rng.choice(['', '', ':%d']) for h in self.hosts]
        self.origins = pool(origins, ['', None, 'null', word(rng)])


def render(target, hs):
    return ('GET %s HTTP/1.1\r\n' % target + ''.join('%s: %s\r\n' % (k, v) for k, v in hs if v is not None) + '\r\n').encode('latin1')


def acceptable(pol, port, target, d):
    """The statuses that are right: what the model says, and what it would say were
    each other fault looked at first."""
    first = pol.decide(port, target, d)
    if first == 101:
        return {101}
    out = {first}
    fixes = {'host': pol.hosts[0] if pol.hosts else 'x', 'upgrade': 'websocket', 'connection': 'Upgrade', 'origin': pol.origins[0] if pol.origins else None,
             'sec-websocket-version': '13', 'sec-websocket-key': 'x3JJHMbDL1EzLkh9GBhXDw=='}
    ok_target = '/'
    for keep in ['target'] + list(fixes):
        t = target if keep == 'target' else ok_target
        h = dict(fixes)
        if keep != 'target':
            h[keep] = d.get(keep)
        r = pol.decide(port, t, h)
        if r != 101:
            out.add(r)
    return out


def pick(rng, xs, good, p):
    return good if rng.random() < p else rng.choice(xs)


def targets(rng, pol, port, ls):
    p = rng.choice(ls.paths)
    if pol.paths and rng.random() < 0.5:     # something that matches
        ok = [x for x in ls.paths if any(re.fullmatch(y, x) for y in pol.paths)]
        if ok:
            p = rng.choice(ok)
    q = rng.choice(ls.queries)
    if pol.queries and rng.random() < 0.5:
        ok = [x for x in ls.queries if x and all(any(re.fullmatch(y, z) for y in pol.queries) for z in x.split('&'))]
        if ok:
            q = rng.choice(ok)
    t = '/' + p + ('' if q is None else '?' + q)
    r = rng.random()
    if r < 0.15:
        h = rng.choice([x for x in ls.hosts if x is not None and ' ' not in x and x != 'exampleXcom' and ',' not in x])
        if '%d' in h:
            h = h % port
        scheme = rng.choice(['ws://', 'ws://', 'ws://', 'wss://', 'wss://', 'http://', 'https://', 'HTTP://'])
        t = scheme + h + t
        if rng.random() < 0.1:
            t = scheme + h
    return t


def admission(ctx, variant, pi, n, tls):
    rng = ctx.rng
    ls = Random(rng) if pi is None else Lists(POLICIES[pi])
    cf = ls.policy
    if pi is None:
        pi = tuple(sorted((k, len(x)) for k, x in cf.items()))
    conf = {k: v for k, v in cf.items()}
    conf['setup'] = {'pool': {'workers': 2}, 'subprotocols': []}
    import os
    with ctx.server(variant, conf, tls=tls, start=False) as s:
        # the default protocol is the recording one, under the name of the echo protocol
        import shutil
        dst = os.path.join(s.dir, 'echo.so')
        shutil.copy(os.path.join(s.bdir, 'rec.so'), dst)
        s.conf['setup']['subprotocols'] = [{'file': dst, 'config': s.rec_log}]
        s.start()
        pol = R.Policy(ports=(s.http, s.https) if tls else (s.http,), tls=False, **cf)
        pols = R.Policy(ports=(s.http, s.https), tls=True, **cf)
        pol.ports = pols.ports = (s.http, s.https)
        accepted = 0
        for i in range(n):
            use_tls = tls and rng.random() < 0.3
            port = s.https if use_tls else s.http
            p = pols if use_tls else pol
            # most requests differ from an admitted one in one respect
            wrong = rng.choice(['target', 'target', 'target', 'host', 'host', 'origin', 'origin', 'upgrade', 'connection', 'version', 'key', 'all', 'none'])

            def v(name, xs, good):
                return rng.choice(xs) if wrong in (name, 'all') else good
            good_host = rng.choice(p.hosts) if p.hosts else 'any.host'
            if rng.random() < 0.4:
                good_host += ':%d' % rng.choice(p.ports)
            host = v('host', ls.hosts, good_host)
            if host and '%d' in host:
                host = host % rng.choice(p.ports + (port,))
            target = targets(rng, p, port, ls) if wrong in ('target', 'all') else '/'
            if target.startswith('/favicon.ico'):
                continue
            hs = [('Host', host), ('Upgrade', v('upgrade', UPGRADES, 'websocket')), ('Connection', v('connection', CONNECTIONS, 'Upgrade')),
                  ('Sec-WebSocket-Key', v('key', KEYS, R.key(rng))), ('Sec-WebSocket-Version', v('version', VERSIONS, rng.choice(['13', '13', '8', '7'])))]
            hs.append((rng.choice(['Origin', 'Sec-WebSocket-Origin']), v('origin', ls.origins, rng.choice(p.origins) if p.origins else rng.choice([None, 'http://x']))))
            d = {k.lower().replace('sec-websocket-origin', 'origin'): x for k, x in hs if x is not None}
            for k in list(d):
                d[k] = d[k].strip()
            rng.shuffle(hs)
            want = acceptable(p, port, target, d)
            c = Client(port, tls=use_tls)
            data = render(target, hs)
            sizes, pause = segments(rng, data, None if rng.random() < 0.2 else 'whole')
            ctx.log(data.decode('latin1'), want)
            c.send_segments(data, sizes, pause)
            r = c.read_http()
            desc = '%s under %s (%s)\n%s' % (r.status, cf, 'tls' if use_tls else 'plain', short(data.decode('latin1'), 600))
            if r.status not in want:
                raise Violation('admission:%s-for-%s' % (r.status, '/'.join(map(str, sorted(want)))), 'status ' + desc)
            if r.status == 101:
                accepted += 1
                if rng.random() < 0.3:
                    c.send(frame(TEXT, b'in'))
                    ctx.check(c.read_message() == (TEXT, b'in'), 'admission:echo', desc)
            elif r.status == 501:
                vs = [x.strip() for x in (r.get('sec-websocket-version') or '').split(',')]
                ctx.check('13' in vs, 'admission:versions', '501 without the supported versions: %r' % r)
            c.close()
            ctx.case((pi, target, host, d.get('origin'), d.get('upgrade'), d.get('connection'), d.get('sec-websocket-version'), d.get('sec-websocket-key') if wrong == 'key' else ''),
                     sample='%s -> %d' % (short(data.decode('latin1'), 200), r.status))
            ctx.count('status_%d' % r.status)
        st = s.stop(40)
        ctx.check(st == 0, 'admission:exit', 'exit status %r %s' % (st, s.reports()))
        got = sum(1 for e in s.events() if e[0] == 'CONNECT')
        ctx.check(got == accepted, 'admission:reached', '%d connections were announced to the subprotocol, %d were accepted' % (got, accepted))
        ctx.check(not s.reports(), 'sanitizer', str(s.reports()))
        ctx.count('clean_shutdowns')
        s.proc = None


def grid(ctx, variant, pi, tls):
    """Every combination of scheme, host, port and path of a request in absolute
    form, and of host and port in the header, with all else as it should be."""
    rng = ctx.rng
    cf = POLICIES[pi]
    conf = {k: v for k, v in cf.items()}
    conf['setup'] = {'pool': {'workers': 2}}
    with ctx.server(variant, conf, tls=tls) as s:
        ports = (s.http, s.https) if tls else (s.http,)
        jobs = []
        for use_tls in (False, True) if tls else (False,):
            port = s.https if use_tls else s.http
            pol = R.Policy(ports=ports, tls=use_tls, **cf)
            variants = ['', ':'] + [':%d' % p for p in ports]
            for p in ports:
                variants += [':%d%d' % (p, d) for d in range(10)] + [':%d00' % p, ':0%d' % p, ':%d' % (p // 10), ':%d' % (p % 10000), ':%d' % (p + 1), ':%d' % (p + 65536),
                                                                    '%d' % p, '::%d' % p, ':%d:' % p, ': %d' % p, ':%dx' % p, ':x%d' % p]
            variants += [':0', ':80', ':443', ':1', ':65535', ':99999', ':x']
            hosts = (list(cf.get('hosts', ())) + ['other.host', 'h', ''])[:4]
            good = (cf['hosts'][0] if cf.get('hosts') else 'any.host')
            hs = [('Upgrade', 'websocket'), ('Connection', 'Upgrade'), ('Sec-WebSocket-Version', '13'), ('Origin', pol.origins[0] if pol.origins else 'http://x')]
            for h in hosts:
                for v in variants:
                    if ' ' not in v:
                        for sc in ('ws://', 'wss://') + (('http://', 'https://', 'WS://') if v in ('', ':%d' % port) else ()):
                            for path in ('/', '') if v in ('', ':%d' % port) else ('/',):
                                jobs.append((port, use_tls, pol, sc + h + v + path, good, hs))
                    jobs.append((port, use_tls, pol, '/', h + v, hs))
        rng.shuffle(jobs)
        for port, use_tls, pol, target, host, hs in jobs:
            if not target:
                continue
            c = Client(port, tls=use_tls)
            all = [('Host', host), ('Sec-WebSocket-Key', R.key(rng))] + hs
            data = render(target, all)
            c.send(data)
            r = c.read_http()
            want = acceptable(pol, port, target, {k.lower(): v.strip() for k, v in all})
            if r.status not in want:
                raise Violation('admission:%s-for-%s' % (r.status, '/'.join(map(str, sorted(want)))), 'status %d under %s (%s)\n%s' % (
                    r.status, cf, 'tls' if use_tls else 'plain', short(data.decode('latin1'), 600)))
            c.close(abort=True)
            ctx.case((pi, 'grid', target.replace(str(port), 'PORT'), host.replace(str(port), 'PORT'), use_tls), sample='%s Host: %s -> %d' % (target, host, r.status))
            ctx.count('status_%d' % r.status)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    for i in range(60 if deep else 10):
        out.append(Scenario('random-%d' % i, admission, variant=['rel', 'poll', 'rel', 'ubsan'][i % 4], pi=None, n=4000 if deep else 700, tls=i % 4 == 0))
    for i in range(len(POLICIES)):
        out.append(Scenario('grid-%d' % i, grid, variant=['rel', 'ubsan', 'poll'][i % 3], pi=i, tls=i % 4 == 0))
        out.append(Scenario('policy-%d' % i, admission, variant=['rel', 'poll', 'ubsan'][i % 3], pi=i, n=12000 if deep else 1200, tls=i in (2, 6, 10, 11)))
        if deep:
            out.append(Scenario('policy-%d-b' % i, admission, variant=['poll', 'ubsan', 'rel'][i % 3], pi=i, n=4000, tls=i % 2 == 0))
    return out

"""Upgrade requests that are valid, written in all the ways HTTP allows, and the
policy that decides on them, as the documentation gives it."""
import base64
import re

TOKEN = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALNUM = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
KNOWN = ['Host', 'Upgrade', 'Connection', 'Origin', 'Cookie', 'Sec-WebSocket-Version', 'Sec-WebSocket-Key', 'Sec-WebSocket-Protocol',
         'Sec-WebSocket-Extensions', 'Sec-WebSocket-Origin']
# names that look like those the server knows
NEAR = ['Hos', 'Hosts', 'X-Host', 'Upgrade-Insecure-Requests', 'Connections', 'Proxy-Connection', 'Origins', 'X-Origin', 'Cookie2', 'Cook',
        'Sec-WebSocket-Versions', 'Sec-WebSocket-Ke', 'Sec-WebSocket', 'Sec-WebSocket-Keys', 'Sec-WebSocket-Protocols', 'Sec-WebSocket-Ext',
        'Sec-WebSocket-Accept', 'Sec', 'U', 'C', 'H', 'WebSocket', 'X-Sec-WebSocket-Key', 'Sec_WebSocket_Key',
        'Sec-WebSocket-Key1', 'Sec-WebSocket-Key2', 'Sec-WebSocket-Key3', 'WebSocket-Protocol']
COMMON = [('User-Agent', 'Mozilla/5.0 (X11; Linux x86_64; rv:1.0) Gecko/20100101'), ('Accept', '*/*'), ('Accept-Language', 'en-US,en;q=0.5'),
          ('Accept-Encoding', 'gzip, deflate, br'), ('Pragma', 'no-cache'), ('Cache-Control', 'no-cache'), ('DNT', '1'),
          ('X-Time', '12:34:56'), ('X-Url', 'http://a:b@c:80/d?e=f#g'), ('X-Empty', ''), ('X-Obs', '"a, b; c=d"'), ('Authorization', 'Basic Zm9vOmJhcg=='),
          ('X-Forwarded-For', '::1, 10.0.0.1'), ('Content-Length', '0'), ('X-Nothing', ' '), ('X-Colons', '::::'), ('Te', 'trailers')]


def key(rng):
    r = rng.random()
    k = rng.randbytes(16) if r < 0.85 else bytes(16) if r < 0.9 else b'\xff' * 16 if r < 0.95 else b'the sample nonce'
    return base64.b64encode(k).decode()


def mixcase(rng, s):
    r = rng.random()
    if r < 0.5:
        return s
    if r < 0.65:
        return s.lower()
    if r < 0.8:
        return s.upper()
    return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def ows(rng, fancy=True):
    if not fancy or rng.random() < 0.55:
        return ' '
    return rng.choice(['', '', '  ', '\t', ' \t ', '      '])


def tail(rng, fancy=True):
    return '' if not fancy or rng.random() < 0.8 else rng.choice([' ', '\t', '   ', ' \t'])


def connection(rng):
    toks = [mixcase(rng, 'Upgrade')]
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        toks.append(rng.choice(['keep-alive', 'Keep-Alive', 'close', 'upgraded', 'Upgrad', 'TE', 'x', 'Upgrade-Insecure-Requests', 'http2-settings']))
    rng.shuffle(toks)
    return rng.choice([', ', ',', ' , ', ',  ', ',\t']).join(toks)


def extras(rng, n=None):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 6, 12]) if n is None else n):
        r = rng.random()
        if r < 0.4:
            out.append(rng.choice(COMMON))
        elif r < 0.6:
            out.append((rng.choice(NEAR), rng.choice(['13', 'websocket', 'Upgrade', 'evil', '', 'x3JJHMbDL1EzLkh9GBhXDw=='])))
        else:
            name = 'X' + ''.join(rng.choice(TOKEN) for _ in range(rng.randrange(0, 20)))
            val = ''.join(chr(rng.randrange(32, 127)) for _ in range(rng.choice([0, 1, 5, 40, 200])))
            out.append((name, val.strip()))
    return out


def path(rng):
    n = rng.choice([0, 0, 1, 3, 10, 60, 300])
    s = '/' + ''.join(rng.choice(ALNUM + "-._~!$&'()*+,;=:@/%") for _ in range(n))
    if rng.random() < 0.3:
        s += '?' + '&'.join(rng.choice(ALNUM) + '=' + ''.join(rng.choice(ALNUM + '-._~%+') for _ in range(rng.randrange(0, 8))) for _ in range(rng.randrange(1, 4)))
    return s if s != '/favicon.ico' else '/'


def render(rng, method, target, version, headers, shuffle=True, fancy=True):
    hs = list(headers)
    if shuffle:
        rng.shuffle(hs)
    out = '%s %s %s\r\n' % (method, target, version)
    for k, v in hs:
        out += (mixcase(rng, k) if fancy else k) + ':' + ows(rng, fancy) + v + tail(rng, fancy) + '\r\n'
    return (out + '\r\n').encode('latin1')


def base(rng, host, k=None, version=13):
    return [('Host', host), ('Upgrade', mixcase(rng, 'websocket')), ('Connection', connection(rng)), ('Sec-WebSocket-Key', k or key(rng)),
            ('Sec-WebSocket-Version', str(version))]


class Policy:
    """What the configuration admits. hosts, origins: exact values; paths, queries:
    regular expressions of the whole component."""
    def __init__(self, hosts=(), origins=(), paths=(), queries=(), ports=(80, 443), tls=False, protocols=('echo',)):
        self.hosts, self.origins, self.paths, self.queries = list(hosts), list(origins), list(paths), list(queries)
        self.ports, self.tls = ports, tls

    def uri(self, target, port):
        """True if the request target is admitted"""
        if not (self.hosts or self.paths or self.queries):
            return True
        t = target
        scheme = 'wss://' if self.tls else 'ws://'
        if not t.startswith('/'):
            if not t.startswith(scheme):
                return False
            t = t[len(scheme):]
            auth, slash, rest = t.partition('/')
            if not slash:
                return False
            allowed = set(self.hosts) | {h + ':%d' % p for h in self.hosts for p in self.ports}
            allowed |= {a + ':%d' % port for a in allowed} | ({'', ':%d' % port} if not self.hosts else set())
            if auth not in allowed:
                return False
            t = '/' + rest
        p, q, query = t[1:].partition('?')
        if p != '' and not any(re.fullmatch(x, p) for x in self.paths):
            return False
        if q:
            for part in query.split('&'):
                if self.queries and not any(re.fullmatch(x, part) for x in self.queries):
                    return False
                if not self.queries and part != '':
                    return False
        return True

    def decide(self, port, target, headers):
        """The status the server must answer with, for a request that is well formed.
        headers: {lower-case name: value}"""
        t = target.lower()
        if t.startswith('http://') or t.startswith('https://'):
            return 426
        if not self.uri(target, port):
            return 404
        if self.hosts:
            allowed = set(self.hosts) | {'%s:%d' % (h, p) for h in self.hosts for p in self.ports}
            if headers.get('host') not in allowed:
                return 400
        if (headers.get('upgrade') or '').lower() != 'websocket':
            return 426
        if 'upgrade' not in [x.strip().lower() for x in (headers.get('connection') or '').split(',')]:
            return 426
        if self.origins and headers.get('origin') not in self.origins:
            return 403
        v = headers.get('sec-websocket-version')
        if v not in ('13', '8', '7'):
            return 501
        k = headers.get('sec-websocket-key')
        try:
            if k is None or len(k) != 24 or len(base64.b64decode(k, validate=True)) != 16:
                return 426
        except ValueError:
            return 426
        return 101

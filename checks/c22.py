"""C22: JSON documents are parsed to the value they denote."""
import re
import struct

from vlib import harness
from vlib.check import Scenario, Violation

PROPERTY = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('differential execution: the parser runs on generated, cut and mutated documents in buffers of exactly their size, under AddressSanitizer, '
             'UndefinedBehaviorSanitizer and MemorySanitizer with allocations counted, and each tree is compared with that of an independent parser')
NOTE = ('Documents are only required to be refused when they are broken by the grammar; tolerated extras of the parser (comma before a closing bracket, unknown '
        'escapes, control characters in strings, comments) and bytes after a NUL are not judged.')
VARIANTS = ['rel', 'asan', 'msan']
HARNESSES = {v: ('json_main',) for v in VARIANTS}
RULE = 'a case is one document parsed by both; distinct are the documents'
ASSUMPTIONS = ['memory is available']

NUMBER = re.compile(rb'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?')
WS = b' \t\r\n'


class Bad(Exception):
    pass


class Unspecified(Exception):
    pass


class Reference:
    """A strict parser. Where this one is more permissive by design, nothing is said."""

    def __init__(self, doc, comments):
        self.d = doc[3:] if doc[:3] == b'\xef\xbb\xbf' else doc
        self.i = 0
        self.comments = comments

    def skip(self):
        d = self.d
        while self.i < len(d):
            c = d[self.i:self.i + 1]
            if c in (b' ', b'\t', b'\r', b'\n'):
                self.i += 1
            elif c == b'/' and self.comments:
                if self.i and 48 <= d[self.i - 1] <= 57:
                    raise Unspecified
                k = d[self.i + 1:self.i + 2]
                if k == b'/':
                    ends = [x for x in (d.find(b'\n', self.i), d.find(b'\r', self.i)) if x >= 0]
                    self.i = min(ends) if ends else len(d)
                elif k == b'*':
                    e = d.find(b'*/', self.i + 2)
                    if e < 0:
                        raise Bad
                    self.i = e + 2
                else:
                    raise Bad
            else:
                return

    def peek(self):
        return self.d[self.i:self.i + 1]

    def string(self):
        d = self.d
        self.i += 1
        out = bytearray()
        while True:
            if self.i >= len(d):
                raise Bad
            c = d[self.i]
            if c == 34:
                self.i += 1
                break
            if c == 92:
                e = d[self.i + 1:self.i + 2]
                self.i += 2
                if e == b'':
                    raise Bad
                if e == b'u':
                    v = self.hex4()
                    if 0xdc00 <= v <= 0xdfff:
                        raise Unspecified
                    if 0xd800 <= v <= 0xdbff:
                        if d[self.i:self.i + 2] != b'\\u':
                            raise Unspecified
                        self.i += 2
                        w = self.hex4()
                        if not 0xdc00 <= w <= 0xdfff:
                            raise Unspecified
                        v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00)
                    out += chr(v).encode('utf-8')
                elif e in b'"\\/bfnrt':
                    out += {b'b': b'\b', b'f': b'\f', b'n': b'\n', b'r': b'\r', b't': b'\t'}.get(e, e)
                else:
                    raise Unspecified
                continue
            if c < 32:
                raise Unspecified
            out.append(c)
            self.i += 1
        try:
            bytes(out).decode('utf-8')
        except UnicodeDecodeError:
            raise Unspecified
        return out.hex()

    def hex4(self):
        h = self.d[self.i:self.i + 4]
        if not re.fullmatch(rb'[0-9a-fA-F]{4}', h):
            raise Bad
        self.i += 4
        return int(h, 16)

    def value(self):
        self.skip()
        c = self.peek()
        d = self.d
        if c == b'"':
            return 's' + self.string()
        for w, r in ((b'null', 'n'), (b'true', 't'), (b'false', 'f')):
            if d.startswith(w, self.i):
                self.i += len(w)
                return r
        if c == b'[':
            self.i += 1
            out = []
            self.skip()
            if self.peek() == b']':
                self.i += 1
                return '[]'
            while True:
                out.append(self.value())
                self.skip()
                c = self.peek()
                self.i += 1
                if c == b']':
                    return '[' + ','.join(out) + ']'
                if c != b',':
                    raise Bad
                self.skip()
                if self.peek() == b']':
                    raise Unspecified
        if c == b'{':
            self.i += 1
            out = []
            self.skip()
            if self.peek() == b'}':
                self.i += 1
                return '{}'
            while True:
                self.skip()
                if self.peek() != b'"':
                    raise Bad
                name = self.string()
                self.skip()
                if self.peek() != b':':
                    raise Bad
                self.i += 1
                out.append(name + ':' + self.value())
                self.skip()
                c = self.peek()
                self.i += 1
                if c == b'}':
                    return '{' + ','.join(out) + '}'
                if c != b',':
                    raise Bad
                self.skip()
                if self.peek() == b'}':
                    raise Unspecified
        m = NUMBER.match(d, self.i)
        if m and m.end() > m.start():
            t = m.group()
            self.i = m.end()
            return number(t)
        raise Bad

    def document(self):
        """The tree, None if the document is to be refused, '?' if nothing is said"""
        if b'\0' in self.d:
            return '?'
        try:
            v = self.value()
            self.skip()
            if self.i != len(self.d):
                raise Bad
            return v
        except Unspecified:
            return '?'
        except Bad:
            return None


def number(t):
    if len(t) < 25 and b'.' not in t and b'e' not in t and b'E' not in t:
        v = int(t)
        if -2**63 <= v < 2**63:
            return 'i%d' % v
    return 'd' + struct.pack('<d', float(t)).hex()


# ------------------------------------------------------------- generation

def gen_number(rng):
    k = rng.randrange(12)
    if k < 3:
        return b'%d' % rng.choice([0, 1, -1, 9, 10, 65535, 2**31 - 1, 2**31, -2**31, 2**32, 10**17, 10**18 - 1, 10**18, 999999999999999999, 9999999999999999999,
                                   2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, -2**64, 10**30])
    if k < 5:
        return b'%d' % rng.randrange(-10**rng.randrange(1, 25), 10**rng.randrange(1, 25))
    if k == 5:
        return rng.choice([b'-0', b'0', b'0.0', b'-0.0', b'0e0', b'0E+5', b'-0e-7', b'1e0', b'0.0000', b'10', b'100e-2'])
    s = b'-' if rng.random() < 0.3 else b''
    s += rng.choice([b'0', b'%d' % rng.randrange(1, 10**rng.randrange(1, 20))])
    if rng.random() < 0.7:
        s += b'.' + bytes(rng.choice(b'0123456789') for _ in range(rng.choice([1, 1, 2, 5, 16, 17, 18, 19, 20, 25, 60])))
    if rng.random() < 0.5:
        s += rng.choice([b'e', b'E']) + rng.choice([b'', b'+', b'-']) + b'%d' % rng.choice([0, 1, 5, 10, 22, 23, 100, 300, 307, 308, 309, 323, 324, 325, 400, 99999, 10**12, 10**25])
    return s


CHARS = [0x20, 0x22, 0x5c, 0x2f, 0x41, 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]


def gen_string(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60])
    out = bytearray(b'"')
    for _ in range(n):
        c = rng.choice(CHARS) if rng.random() < 0.3 else rng.randrange(0x20, 0x7f) if rng.random() < 0.7 else rng.choice([rng.randrange(0x110000), rng.randrange(1, 0x20)])
        if 0xd800 <= c <= 0xdfff:
            c = 0x41
        r = rng.random()
        short = {8: b'b', 12: b'f', 10: b'n', 13: b'r', 9: b't', 34: b'"', 92: b'\\', 47: b'/'}
        if c in short and r < 0.7:
            out += b'\\' + short[c]
        elif c < 32 or c in (34, 92) or r < 0.25:
            f = rng.choice(['%04x', '%04X'])
            if c > 0xffff:
                v = c - 0x10000
                out += ('\\u' + f + '\\u' + f).encode() % (0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff))
            else:
                out += ('\\u' + f).encode() % c
        else:
            out += chr(c).encode()
    if rng.random() < 0.02:
        out += b'\\u0000'
    return bytes(out) + b'"'


def space(rng, style):
    if style == 0:
        return b''
    if style == 1:
        return bytes(rng.choice(WS) for _ in range(rng.choice([0, 0, 1, 2])))
    k = rng.random()
    if k < 0.6:
        return bytes(rng.choice(WS) for _ in range(rng.choice([0, 0, 1, 2])))
    if k < 0.8:
        return b' /*' + rng.choice([b'', b'x', b'*', b'**', b' " ', b'//', b'/*', b'\n', b'/', b'* /']) + b'*/'
    return b' //' + rng.choice([b'', b'y', b'"', b'*/', b'/*', b'{']) + rng.choice([b'\n', b'\r', b'\r\n'])


def gen(rng, depth, style):
    k = rng.random()
    if depth <= 0 or k < 0.5:
        j = rng.random()
        if j < 0.2:
            return rng.choice([b'null', b'true', b'false'])
        return gen_number(rng) if j < 0.6 else gen_string(rng)
    n = rng.choice([0, 1, 2, 3, 6])
    if k < 0.75:
        parts = [space(rng, style) + gen(rng, depth - 1, style) + space(rng, style) for _ in range(n)]
        return b'[' + (b','.join(parts) if parts else space(rng, style)) + b']'
    names = [gen_string(rng) for _ in range(n)]
    if n > 1 and rng.random() < 0.2:
        names[-1] = names[0]
    parts = [space(rng, style) + x + space(rng, style) + b':' + space(rng, style) + gen(rng, depth - 1, style) + space(rng, style) for x in names]
    return b'{' + (b','.join(parts) if parts else space(rng, style)) + b'}'


TOKENS = [b'{', b'}', b'[', b']', b',', b':', b'"', b'null', b'true', b'false', b'0', b'1', b'-', b'.', b'e', b'E', b'+', b'\\', b'/', b'/*', b'*/', b'//', b'\n', b' ', b'\\u', b'""', b'"a"', b'nul', b'tru', b'fals', b'\xef\xbb\xbf', b'\x80', b'\x01', b'N', b'NaN', b'1.', b'.5', b'01', b'1e', b'--1']


def mutate(rng, d):
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randrange(len(d) + 1)
        k = rng.randrange(6)
        if k == 0:
            del d[i:i + rng.choice([1, 1, 2, 5])]
        elif k == 1:
            d[i:i] = rng.choice(TOKENS)
        elif k == 2 and i < len(d):
            d[i] = rng.randrange(256)
        elif k == 3:
            d[i:i + 1] = rng.choice(TOKENS)
        elif k == 4:
            j = rng.randrange(len(d) + 1)
            d[i:i] = d[min(i, j):max(i, j)][:20]
        elif len(d) > 1:
            j = rng.randrange(len(d))
            i = min(i, len(d) - 1)
            d[i], d[j] = d[j], d[i]
    return bytes(d)


def documents(rng, n):
    for x in TOKENS + [b'', b' ', b'nullx', b'null null', b'[null]', b'[-]', b'{"a":-}', b'[tru]', b'-', b'-1', b'[1-]', b'1/**/', b'/**/1', b'/**/', b'//', b'[/', b'[1]/', b'[1]/*', b'"\\', b'"\\u', b'"\\u1', b'"\\u123', b'"\\u1234',
                     b'"\\ud800', b'"\\ud800\\u', b'"\\ud800\\udc0', b'"\\ud83d\\ude00"', b'"\\ud842\\udfb7"', b'"\\udbff\\udfff"', b'[[],{}]', b'{"a":[],"b":{}}', b'{"":0}', b'{"a":1,"a":2}']:
        yield x
    # what has one token to many or one too few
    for a in TOKENS:
        for b in TOKENS:
            yield a + b
            yield b'[' + a + b + b']'
            if rng.random() < 0.3:
                yield b'{"k":' + a + b + b'}'
                yield b'{' + a + b + b'}'
    for i in range(n):
        d = gen(rng, rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 1, 2]))
        if rng.random() < 0.1:
            d = b'\xef\xbb\xbf' + d
        if rng.random() < 0.3:
            d = space(rng, 1) + d + space(rng, 1)
        yield d
        for _ in range(3):
            yield mutate(rng, d)
        if len(d) < 120 and rng.random() < 0.15:
            for k in range(len(d)):
                yield d[:k]
    for _ in range(n // 2):
        yield b''.join(rng.choice(TOKENS) for _ in range(rng.randrange(1, 12)))
        yield gen_number(rng)


def parse(ctx, variant, n):
    rng = ctx.rng
    docs = [(d, rng.choice([0, 1, 2, 3, 3, 7])) for d in documents(rng, n)]
    wants = [Reference(d, m & 1).document() for d, m in docs]
    compare(ctx, variant, docs, wants)


def compare(ctx, variant, docs, wants):
    data = b''.join(struct.pack('<BI', m, len(d)) + d for d, m in docs)
    out = harness.run(ctx, variant, 'json_main', [], data=data, timeout=300, key='json')
    if len(out) != len(docs):
        raise Violation('json:output', '%d results for %d documents' % (len(out), len(docs)))
    for (d, m), want, got in zip(docs, wants, out):
        if want == '?':
            ctx.count('not_judged')
        elif want is None:
            ctx.count('refused')
            ctx.check(got.startswith('E'), 'json:accepted', lambda: 'a broken document was parsed to %s: %r (comments %d)' % (got[:300], d[:500], m & 1))
            ctx.check(got != 'Eno text', 'json:error', lambda: 'no error text for %r' % d[:500])
        else:
            ctx.count('parsed')
            ctx.check(not got.startswith('E'), 'json:refused', lambda: 'a valid document was refused: %s: %r (comments %d)' % (got[:200], d[:500], m & 1))
            ctx.check(got == want, 'json:value', lambda: '%r was parsed to %s instead of %s' % (d[:500], got[:1000], want[:1000]))
        ctx.case(hash((d, m & 1)), nontrivial=want != '?', sample=repr(d[:120]) if ctx.evaluations % 5000 == 0 else None)


def large(ctx, variant, deep):
    """Deep nesting, wide arrays and objects, long strings and numbers"""
    rng = ctx.rng
    docs, wants = [], []

    def add(d, w):
        docs.append((d, 3))
        wants.append(w)
    for n in ([10, 1000, 30000, 300000] if not deep else [10, 1000, 30000, 2000000]):
        add(b'[' * n + b'7' + b']' * n, '[' * n + 'i7' + ']' * n)
        add(b'{"k":' * n + b'[]' + b'}' * n, '{6b:' * n + '[]' + '}' * n)
        add(b'[' * n, None)
        add(b'{"k":' * n, None)
        add(b'[' * n + b']' * (n - 1), None)
        add(b'[' * n + b']' * (n + 1), None)
    n = 200000
    add(b'[' + b','.join(b'%d' % i for i in range(n)) + b']', '[' + ','.join('i%d' % i for i in range(n)) + ']')
    add(b'{' + b','.join(b'"%d":%d' % (i, i) for i in range(n // 2)) + b'}', '{' + ','.join('%s:i%d' % (b'%d'.__mod__(i).hex(), i) for i in range(n // 2)) + '}')
    for k in (255, 256, 65535, 65536, 1000000):
        s = bytes(rng.choice(b'abcdefgh') for _ in range(k))
        add(b'"' + s + b'"', 's' + s.hex())
        add(b'{"' + s + b'":"' + b'\\n' * k + b'"}', '{' + s.hex() + ':s' + '0a' * k + '}')
        add(b'"' + s, None)
    for k in (18, 19, 20, 100, 308, 309, 400, 5000):
        t = b'1' + b'0' * k
        add(t, number(t))
        add(b'-' + t, number(b'-' + t))
        add(b'0.' + b'0' * k + b'7', number(b'0.' + b'0' * k + b'7'))
        add(b'0.' + b'3' * k, number(b'0.' + b'3' * k))
        add(b'0.' + b'0' * k + b'7e%d' % k, number(b'0.' + b'0' * k + b'7e%d' % k))
        add(t + b'e-%d' % k, number(t + b'e-%d' % k))
    compare(ctx, variant, docs, wants)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    n = 9000
    out = []
    for i in range(10 if deep else 1):
        out.append(Scenario('rel-%d' % i, parse, variant='rel', n=n, timeout=400))
        out.append(Scenario('asan-%d' % i, parse, variant='asan', n=n, timeout=400))
        out.append(Scenario('asanb-%d' % i, parse, variant='asan', n=n, timeout=400))
        out.append(Scenario('msan-%d' % i, parse, variant='msan', n=n // 2, timeout=400))
    for v in ('rel', 'asan', 'msan'):
        out.append(Scenario('large-' + v, large, variant=v, deep=deep, timeout=400))
    return out

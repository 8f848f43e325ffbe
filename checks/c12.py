"""C12: extension negotiation."""
import ctypes
import random
import re
import zlib

from vlib.check import Scenario, Violation, short
from vlib.hostile import odd_deflate
from vlib.work import Exchange, Msg, blob, converse, cuts, negotiated, payload, peer, segments, text
from vlib.ws import BIN, CLOSE, CONT, PING, PONG, TEXT, Client, Closed, ProtocolError, Timeout, frame, utf8_valid

PROPERTY = 'C12'
LEVEL = 'exploration'
TECHNIQUE = ('online checking of every negotiation at the sockets of a real server against a model of RFC 7692, followed by traffic that tells which parameters '
             'the server really applies; zlib as the oracle for what decompresses')
NOTE = ('Offers are sampled from a grammar of valid, nearly valid and invalid elements. Declining a valid offer is allowed by RFC 7692 and not reported, but the '
        'check demands that plain valid offers are accepted, so that it cannot pass by seeing no extension at all.')
VARIANTS = ['rel', 'poll', 'asan', 'ubsan']
RULE = ('a case is an offer with its answer, distinct by the text of the offer, or a hostile message after it, distinct by its bytes')
ASSUMPTIONS = ['zlib is the reference for RFC 1951']

PMD = 'permessage-deflate'
TOKEN = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


def parse(values):
    """The offers of the header values as (name, [(param, value or None)]), None for
    what is not an offer."""
    out = []
    for e in ','.join(values).split(','):
        ps = [p.strip(' \t') for p in e.split(';')]
        params = []
        ok = bool(TOKEN.match(ps[0]))
        for p in ps[1:]:
            k, eq, v = p.partition('=')
            k, v = k.strip(' \t'), v.strip(' \t')
            if not eq:
                v = None
            elif len(v) > 1 and v[0] == v[-1] == '"':
                v = v[1:-1]
            ok = ok and bool(TOKEN.match(k)) and (v is None or bool(TOKEN.match(v)))
            params.append((k, v))
        out.append((ps[0], params) if ok else None)
    return out


def loose(values):
    """As parse, but an empty parameter is passed over: a server that is lenient
    with a stray semicolon does no harm."""
    out = []
    for e in ','.join(values).split(','):
        ps = [p.strip(' \t') for p in e.split(';')]
        out += parse([';'.join([ps[0]] + [p for p in ps[1:] if p])])
    return out


def bits(v, low=8):
    return int(v) if v is not None and re.match(r'^([89]|1[0-5])$', v) and int(v) >= low else None


def understood(params):
    """The parameters of a valid permessage-deflate offer, or None."""
    d = {}
    for k, v in params:
        k = k.lower()
        if k in d:
            return None
        if k in ('server_no_context_takeover', 'client_no_context_takeover'):
            if v is not None:
                return None
            d[k] = True
        elif k == 'server_max_window_bits':
            if bits(v) is None:
                return None
            d[k] = bits(v)
        elif k == 'client_max_window_bits':
            if v is not None and bits(v) is None:
                return None
            d[k] = bits(v) if v is not None else 15
        else:
            return None
    return d


def fits(answer, o):
    """Whether an answer is a valid response to an offer (RFC 7692, 7.1)."""
    if o.get('server_no_context_takeover') and not answer.get('server_no_context_takeover'):
        return False
    if 'server_max_window_bits' in o and answer.get('server_max_window_bits', 99) > o['server_max_window_bits']:
        return False
    if 'client_max_window_bits' in answer:
        if 'client_max_window_bits' not in o or answer['client_max_window_bits'] > o['client_max_window_bits']:
            return False
    return True


VALID = ['server_no_context_takeover', 'client_no_context_takeover', 'client_max_window_bits', 'server_max_window_bits']
ODD = ['unknown', 'unknown=1', 'server_no_context_takeover=1', 'server_no_context_takeover=', 'client_no_context_takeover=true', 'client_max_window_bits=7',
       'client_max_window_bits=16', 'client_max_window_bits=0', 'client_max_window_bits=08', 'client_max_window_bits=010', 'client_max_window_bits=+9', 'client_max_window_bits=-9',
       'client_max_window_bits=9x', 'client_max_window_bits=1e1', 'client_max_window_bits=0x9', 'client_max_window_bits=', 'client_max_window_bits=15.0', 'client_max_window_bits=150',
       'client_max_window_bits=4294967305', 'server_max_window_bits', 'server_max_window_bits=', 'server_max_window_bits=8', 'server_max_window_bits=7', 'server_max_window_bits=16',
       'server_max_window_bits=0', 'server_max_window_bits=09', 'server_max_window_bits=9 9', 'server_max_window_bits=99', 'server_max_window_bits=18446744073709551625',
       'server_max_window_bits=15a', 'server_max_window_bits=a15', 'server_max_window_bitsx=10', 'server_max_window_bit=10', 'xserver_max_window_bits=10', 'server_max_window_bits=10=10',
       'client_max_window_bits=10=', 'server_max_window_bits="10"', "client_max_window_bits='10'", 'client_max_window_bits="10"', '', ' ', '=', '=10', 'chunk_size=100', 'memory_level=9', 'client_max_window_bits=\t10',
       'server_max_window_bits:10', 'client-max-window-bits', 'no_context_takeover', 'server_no_context_takeover client_no_context_takeover', 'Server_Max_Window_Bits=10', 'CLIENT_NO_CONTEXT_TAKEOVER',
       'client_max_window_bits=\xb9', 'server_max_window_bits=\xb2']
NAMES = ['permessage-deflat', 'permessage-deflatex', 'xpermessage-deflate', 'x-webkit-deflate-frame', 'permessage-bzip2', 'deflate', '', 'Permessage-Deflate', 'PERMESSAGE-DEFLATE', 'permessage-deflate permessage-deflate',
         'permessage_deflate', 'permessage-deflate=1', '"permessage-deflate"', 'permessage', 'p', 'mux', 'foo', 'permessage-deflate\x01', '-']


def valid_param(rng, k):
    if k == 'client_max_window_bits':
        return k if rng.random() < 0.4 else '%s=%d' % (k, rng.randrange(8, 16))
    if k == 'server_max_window_bits':
        return '%s=%d' % (k, rng.randrange(9, 16))
    return k


def element(rng, odd):
    name = PMD
    ps = [valid_param(rng, k) for k in rng.sample(VALID, rng.randrange(0, 5))]
    if rng.random() < odd:
        k = rng.random()
        if k < 0.6:
            ps.insert(rng.randrange(len(ps) + 1), rng.choice(ODD))
        elif k < 0.75 and ps:
            # repeated
            ps.insert(rng.randrange(len(ps) + 1), valid_param(rng, rng.choice(ps).split('=')[0]))
        elif k < 0.95:
            name = rng.choice(NAMES)
        else:
            ps += [rng.choice(ODD + ['x' * 300, 'unknown=' + '9' * 500]) for _ in range(rng.randrange(1, 30))]
    sep = rng.choice([';', '; ', ' ; ', ' ;', ';\t'])
    out = sep.join([name] + ps)
    if rng.random() < 0.15:
        out = out.replace('=', rng.choice([' = ', '= ', ' =']))
    if rng.random() < odd * 0.1:
        out += rng.choice([';', '; ', ' ', ';;', '\t'])
    return out


def offer(rng, odd):
    """The values of the extension headers of a request."""
    n = rng.choice([1, 1, 1, 2, 2, 3, 5])
    es = [element(rng, odd) for _ in range(n)]
    if rng.random() < 0.1:
        es.insert(rng.randrange(len(es) + 1), rng.choice(['', ' ']))
    out = []
    cur = es[0]
    for e in es[1:]:
        if rng.random() < 0.25:
            out.append(cur)
            cur = e
        else:
            cur += rng.choice([',', ', ', ' , ', ',\t']) + e
    return out + [cur]


def judge(values, answer):
    """answer: what negotiated() returned."""
    if answer is None:
        return
    good = [o for o in (understood(ps) for n, ps in (x for x in loose(values) if x is not None) if n.lower() == PMD) if o is not None]
    if not good:
        raise Violation('negotiation:invalid', 'the offers %r contain no valid one but were answered with %r' % (values, answer))
    if not any(fits(answer, o) for o in good):
        raise Violation('negotiation:unoffered', 'the answer %r fits none of the valid offers %r of %r' % (answer, good, values))


def must(values):
    """A plain offer that any implementation of permessage-deflate accepts."""
    es = parse(values)
    if len(es) != 1 or es[0] is None or es[0][0] != PMD or any(k.lower() != k for k, v in es[0][1]):
        return False
    o = understood(es[0][1])
    return o is not None and o.get('server_max_window_bits', 15) > 8 and '\t' not in values[0] and '"' not in values[0]


def obeyed(config, values, a):
    """The answer stays within what the extension is configured with."""
    for p in config.split(';'):
        k, _, v = (x.strip() for x in p.partition('='))
        if k == 'server_no_context_takeover' and not a.get(k):
            bad = True
        elif k == 'server_max_window_bits':
            # zlib cannot compress with a window of 8 bits
            bad = a.get(k, 15) > max(9, int(v))
        elif k == 'client_max_window_bits':
            bad = a.get(k, 0) > int(v)
        else:
            bad = False
        if bad:
            raise Violation('negotiation:configuration', 'the answer %r to %r does not obey the configuration %r' % (a, values, config))


def offers(ctx, variant, config, n, odd, tls=False):
    """config None: the server knows no extension."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': {'ringbuffer': 256}}}, tls=tls, deflate=config) as s:
        for i in range(n):
            values = offer(rng, odd)
            t = '1.3' if tls and i % 2 else None
            c = Client(s.https if t else s.http, tls=t)
            ctx.log('offer', values)
            r = c.handshake(extensions=values, expect=None)
            if r.status != 101:
                # only a request that is not a valid one may be refused
                if r.status == 400 and any(re.search(r'[^\t\x20-\x7e\x80-\xff]', v) for v in values):
                    c.close()
                    continue
                raise Violation('negotiation:refused', 'the request was answered with %d because of the offer %r' % (r.status, values))
            a = negotiated(r)
            ctx.log('answer', a)
            if config is None and a is not None:
                raise Violation('negotiation:unconfigured', 'an extension that is not configured was answered: %r' % a)
            judge(values, a)
            if a is not None:
                obeyed(config, values, a)
            if config is not None and a is None and must(values):
                raise Violation('negotiation:declined', 'the plain valid offer %r was not accepted' % values)
            ctx.count('accepted' if a is not None else 'declined')
            ctx.case(('offer', tuple(values), config), nontrivial=True, sample='%r -> %r' % (values, a))
            follow(ctx, c, a, rng)
            c.close()


def follow(ctx, c, a, rng):
    """The connection behaves according to the answer."""
    if a is not None:
        d = peer(a)
        c.deflate, c.rsv1_ok = d, True
        ex = Exchange(ctx, c, 1048576, limit=3000, window=8, deflate=d, label='after %s' % sorted(a.items()))
        unit = rng.randbytes(rng.choice([300, 600, 2000]))
        # references at distances beyond small windows, and to earlier messages
        ms = [Msg(rng, BIN, x, 1048576, deflate=d, compressed=rng.random() < 0.7) for x in (unit, unit + unit[:200], unit[100:] + rng.randbytes(200) + unit)]
        ex.batch(ms)
        ex.run(2)
    else:
        k = rng.random()
        if k < 0.5:
            ex = Exchange(ctx, c, 1048576, limit=2000, window=8, label='no extension')
            ex.run(3)
        d = zlib.compressobj(6, zlib.DEFLATED, -15)
        body = d.compress(b'hello') + d.flush(zlib.Z_SYNC_FLUSH)
        wire = frame(TEXT, body[:-4], rsv=4)
        converse(ctx, c, wire, [('close', {1002})], key='negotiation:unnegotiated', desc='compressed message without negotiation')
        ctx.count('unnegotiated_rejected')
    ctx.count('followed')


class Z(ctypes.Structure):
    _fields_ = [('next_in', ctypes.c_void_p), ('avail_in', ctypes.c_uint), ('total_in', ctypes.c_ulong), ('next_out', ctypes.c_void_p), ('avail_out', ctypes.c_uint),
                ('total_out', ctypes.c_ulong), ('msg', ctypes.c_char_p), ('state', ctypes.c_void_p), ('zalloc', ctypes.c_void_p), ('zfree', ctypes.c_void_p),
                ('opaque', ctypes.c_void_p), ('data_type', ctypes.c_int), ('adler', ctypes.c_ulong), ('reserved', ctypes.c_ulong)]


libz = ctypes.CDLL('libz.so.1')


def inflate(z, count=False):
    """What a message decompresses to on a fresh connection, None if it does not:
    all of the input must be valid and must end at the end of a block. All at once,
    block by block with a fresh stream after a final one. count: the amount of bytes that
    come out, before an error as well."""
    data = z + b'\0\0\xff\xff'
    src = ctypes.create_string_buffer(data, len(data))
    size_ = 1 << 25
    dst = ctypes.create_string_buffer(size_)
    st = Z()
    ctypes.memset(ctypes.byref(st), 0, ctypes.sizeof(st))
    libz.inflateInit2_(ctypes.byref(st), -15, b'1.2.11', ctypes.sizeof(st))
    st.next_in, st.avail_in = ctypes.addressof(src), len(data)
    done = False
    total = 0
    try:
        while True:
            st.next_out, st.avail_out = ctypes.addressof(dst) + total, size_ - total
            was = st.avail_in, st.avail_out
            r = libz.inflate(ctypes.byref(st), 5)
            total = size_ - st.avail_out
            if r == 1:
                done = True
                libz.inflateResetKeep(ctypes.byref(st))
            elif r == 0 or r == -5:
                done = bool(st.data_type & 128)
            else:
                return total if count else None
            if st.avail_out == 0:
                raise ValueError('decompresses to more than expected')
            if st.avail_in == 0 and (done or was == (st.avail_in, st.avail_out)):
                return total if count else dst.raw[:total] if done else None
    finally:
        libz.inflateEnd(ctypes.byref(st))


def corrupt(ctx, variant, config, n, tls=False):
    """Messages with the bit set that may or may not decompress."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': {'ringbuffer': 256}}}, tls=tls, deflate=config, rec=True) as s:
        for i in range(n):
            t = '1.3' if tls and i % 2 else None
            c = Client(s.https if t else s.http, tls=t)
            a = negotiated(c.handshake(extensions='permessage-deflate'))
            if a is None:
                raise Violation('negotiation:declined', 'a plain offer was not accepted')
            d = peer(a)
            c.deflate, c.rsv1_ok = d, True
            z = odd_deflate(rng)
            while config.startswith('chunk') and inflate(z, True) > 100000:
                z = odd_deflate(rng)     # a tiny chunk size takes quadratic time with a plain realloc
            if len(z) > 60000:
                z = z[:60000]
            op = rng.choice([TEXT, BIN, BIN])
            data = inflate(z)
            ok = data is not None and (op == BIN or utf8_valid(data))
            before = []
            pre = []
            if rng.random() < 0.5:
                # something served before it
                before = frame(TEXT, b'before')
                pre = [('msg', TEXT, b'before')]
            else:
                before = b''
            parts = cuts(rng, len(z), rng.choice([1, 1, 2, 4]))
            fr = []
            off = 0
            for k, m in enumerate(parts):
                fr.append(frame(op if k == 0 else CONT, z[off:off + m], fin=k == len(parts) - 1, rsv=4 if k == 0 else 0))
                off += m
            wire = before + b''.join(fr)
            sizes, pause = segments(rng, wire)
            if ok:
                expect = pre + [('msg', op, data)]
            elif data is not None:
                expect = pre + [('close', {1007})]
            else:
                expect = pre + [('close', {1002, 1007})]
            desc = 'message of %d bytes %s that %s' % (len(z), short(z), 'decompresses to %d bytes' % len(data) if data is not None else 'does not decompress')
            ctx.log(desc)
            converse(ctx, c, wire, expect, sizes, pause, key='negotiation:corrupt', desc=desc)
            ctx.case(('corrupt', z, op, len(parts)), sample=desc)
            ctx.count('decompressible' if ok else 'not_decompressible')
            c.close()


def bits_(ctx, variant, n, tls=False):
    """Reserved bits where they are not allowed, with compression negotiated."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': {'ringbuffer': 256}}}, tls=tls, deflate='') as s:
        for i in range(n):
            c = Client(s.https if tls else s.http, tls='1.2' if tls else None)
            a = negotiated(c.handshake(extensions='permessage-deflate'))
            d = peer(a)
            c.deflate, c.rsv1_ok = d, True
            body = payload(rng, TEXT, rng.choice([0, 1, 100, 3000]))
            z = d.compress(body)
            k = rng.randrange(6)
            good = frame(TEXT, z, rsv=4)
            h = len(z) // 2
            rsv = rng.choice([1, 2, 3, 5, 6, 7])
            if k == 0:
                what, bad = 'rsv %d on a message' % rsv, [frame(TEXT, z, rsv=rsv)]
            elif k == 1:
                what, bad = 'rsv1 on a continuation of a compressed message', [frame(TEXT, z[:h], fin=False, rsv=4), frame(CONT, z[h:], rsv=4)]
            elif k == 2:
                what, bad = 'rsv1 only on the continuation', [frame(BIN, z[:h], fin=False), frame(CONT, z[h:], rsv=4)]
            elif k == 3:
                what, bad = 'rsv1 on a ping', [frame(PING, b'x', rsv=rng.choice([4, 4, rsv]))]
            elif k == 4:
                what, bad = 'rsv1 on a pong', [frame(PONG, b'x', rsv=rng.choice([4, 4, rsv]))]
            else:
                what, bad = 'rsv1 on a close', [frame(CLOSE, b'\x03\xe8', rsv=rng.choice([4, 4, rsv]))]
            wire = good + b''.join(bad)
            sizes, pause = segments(rng, wire)
            converse(ctx, c, wire, [('msg', TEXT, body), ('close', {1002})], sizes, pause, key='negotiation:bits', desc=what)
            ctx.case(('bits', what, len(z)), sample=what)
            ctx.count('reserved_rejected')
            c.close()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 10 if deep else 1
    out = []
    for i, cfg in enumerate(['', 'server_no_context_takeover', 'client_max_window_bits=9; server_max_window_bits=10', 'server_max_window_bits=8; client_max_window_bits=8; memory_level=1',
                             'client_max_window_bits=12; server_no_context_takeover; chunk_size=100']):
        for odd in (0.1, 0.7):
            out.append(Scenario('offers-%d-%d' % (i, odd * 10), offers, variant='rel', config=cfg, n=200 * k, odd=odd))
    out.append(Scenario('offers-none', offers, variant='rel', config=None, n=100 * k, odd=0.3))
    out.append(Scenario('offers-tls', offers, variant='rel', config='', n=100 * k, odd=0.5, tls=True))
    out.append(Scenario('offers-poll', offers, variant='poll', config='', n=100 * k, odd=0.5))
    out.append(Scenario('offers-asan', offers, variant='asan', config='', n=150 * k, odd=0.7))
    out.append(Scenario('offers-ubsan', offers, variant='ubsan', config='', n=100 * k, odd=0.7))
    for v, cfg in (('rel', ''), ('rel', 'chunk_size=7'), ('rel', 'chunk_size=100'), ('asan', ''), ('asan', 'chunk_size=10'), ('poll', '')):
        out.append(Scenario('corrupt-%s-%s' % (v, cfg), corrupt, variant=v, config=cfg, n=(60 if 'chunk' in cfg else 120) * k))
    out.append(Scenario('corrupt-tls', corrupt, variant='rel', config='', n=60 * k, tls=True))
    out.append(Scenario('bits', bits_, variant='rel', n=150 * k))
    out.append(Scenario('bits-tls', bits_, variant='rel', n=60 * k, tls=True))
    out.append(Scenario('bits-asan', bits_, variant='asan', n=60 * k))
    return out

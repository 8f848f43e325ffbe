"""C21: SHA-1, base64 and hexadecimal helpers agree with their definitions."""
import base64
import hashlib

from vlib import harness
from vlib.check import Scenario, Violation

PROPERTY = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('differential execution: every helper runs on generated inputs in buffers of exactly their size under AddressSanitizer and UndefinedBehaviorSanitizer, '
             'and as shipped, and each result is compared with an independent implementation')
NOTE = 'All lengths up to 300 and the block borders beyond, all single and many double cuts of short messages, and one message of more than 2^32 bits.'
VARIANTS = ['rel', 'asan', 'nossl', 'asan2']
HARNESSES = {v: ('codec_main',) for v in VARIANTS}
RULE = 'a case is one result compared; distinct are pairs of operation and length, with the cuts for SHA-1'
ASSUMPTIONS = ['base64 input that is not an encoding is only required to be handled without errors, except that decoding ends at the first character outside the alphabet']

ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def content(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return bytes([rng.choice([0, 0xff, 0x80, 0x7f, 0x3d])]) * n
    if k == 1:
        return bytes((i * 7 + n) & 255 for i in range(n))
    return rng.randbytes(n)


def expected(op, data, cuts):
    if op == 's':
        d = hashlib.sha1(data).hexdigest()
        return [d, d]
    if op == 'h':
        return [hashlib.sha1(data).hexdigest()]
    if op == 'a':
        return [base64.b64encode(hashlib.sha1(data).digest()).decode()]
    if op == 'e':
        return [base64.b64encode(data).decode()]
    if op == 'x':
        return [data.hex().upper()]
    pre = data
    for i, c in enumerate(data):
        if c not in ALPHABET:
            pre = data[:i]
            break
    if len(pre) % 4 == 1:
        return None
    return [base64.b64decode(pre + b'=' * (-len(pre) % 4)).hex()]


def lengths(rng, deep):
    out = list(range(0, 300)) + [511, 512, 513, 575, 576, 577, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536]
    out += [rng.randrange(300, 3000) for _ in range(100 if not deep else 1000)] + [rng.randrange(3000, 40000) for _ in range(10)]
    return out


def codec(ctx, variant, deep):
    rng = ctx.rng
    jobs = []
    for n in lengths(rng, deep):
        d = content(rng, n)
        for op in 'shaex':
            if op == 's':
                cuts = sorted(rng.randrange(n + 1) for _ in range(rng.choice([0, 1, 2, 5]))) if n else []
                jobs.append((op, d, cuts))
            else:
                jobs.append((op, d, []))
        e = base64.b64encode(d)
        jobs.append(('d', e, []))
        jobs.append(('d', e.rstrip(b'='), []))
        # followed by something else
        jobs.append(('d', e.rstrip(b'=') + bytes([rng.choice([0, 10, 13, 32, 45, 61, 95, 128, 255])]) + rng.randbytes(rng.randrange(6)), []))
        if n:
            m = bytearray(e)
            m[rng.randrange(len(m))] = rng.randrange(256)
            jobs.append(('d', bytes(m), []))
            jobs.append(('d', rng.randbytes(n), []))
    # all values of one, two and (some) three bytes
    for i in range(256):
        jobs += [('e', bytes([i]), []), ('x', bytes([i]), [])]
    for i in range(0, 65536, 1 if deep else 7):
        jobs.append(('e', bytes([i >> 8, i & 255]), []))
    for i in range(4000):
        v = rng.randbytes(3)
        jobs += [('e', v, []), ('d', base64.b64encode(v), [])]
    # every cut of messages around the border of a block
    for n in (55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129):
        d = content(rng, n)
        for i in range(n + 1):
            jobs.append(('s', d, [i]))
            if deep or i % 8 == 0:
                for k in range(i, n + 1, 1 if deep else 5):
                    jobs.append(('s', d, [i, k]))
        jobs.append(('s', d, list(range(n))))
    # keys of handshakes
    for i in range(300):
        jobs.append(('a', base64.b64encode(rng.randbytes(16)) + b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11', []))
    text = b''.join(('%s :%s %s\n' % (op, d.hex(), ','.join(map(str, cuts)))).encode() for op, d, cuts in jobs)
    out = harness.run(ctx, variant, 'codec_main', [], data=text, timeout=300, key='codec')
    at = 0
    for op, d, cuts in jobs:
        want = expected(op, d, cuts)
        if want is None:
            # one line; nothing is required of it
            at += 1
            continue
        got = out[at:at + len(want)]
        at += len(want)
        if got != [w or '-' for w in want]:
            raise Violation('codec:' + {'s': 'sha1', 'h': 'sha1', 'a': 'accept', 'e': 'encode', 'd': 'decode', 'x': 'hex'}[op],
                            '%s of %d bytes %s cut at %s is %s instead of %s' % (op, len(d), d[:80].hex(), cuts, got, want))
        ctx.case((op, len(d), tuple(cuts)), sample='%s of %d bytes' % (op, len(d)) if at % 500 == 0 else None)
    ctx.check(at == len(out), 'codec:output', lambda: 'more output than expected: %s' % out[at:at + 3])


def long(ctx, variant, times):
    piece = ctx.rng.randbytes(1 << 20) + b'odd'
    h = hashlib.sha1()
    for _ in range(times):
        h.update(piece)
    out = harness.run(ctx, variant, 'codec_main', [], data=b'L %s %d\n' % (piece.hex().encode(), times), timeout=300, key='codec')
    ctx.check(out == [h.hexdigest()], 'codec:sha1', lambda: 'digest of %d bytes is %s instead of %s' % (len(piece) * times, out, h.hexdigest()))
    ctx.case(('L', times), sample='%d bytes' % (len(piece) * times))


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    for i in range(4 if deep else 1):
        for v in VARIANTS:
            out.append(Scenario('codec-%s-%d' % (v, i), codec, variant=v, deep=deep, timeout=600))
    out.append(Scenario('long', long, variant='nossl', times=530, timeout=400))
    if deep:
        out.append(Scenario('longer', long, variant='nossl', times=4200, timeout=600))
    return out

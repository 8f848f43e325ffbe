"""C09: no client input makes the server commit a memory error or undefined behaviour."""
import threading
import time

from vlib import fuzz, hostile
from vlib import req as R
from vlib.check import Scenario, Violation
from vlib.ws import BIN, CONT, TEXT, frame, request

PROPERTY = 'C09'
LEVEL = 'exploration'
TECHNIQUE = 'hostile workloads on the real server under AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and memcheck, and coverage-guided fuzzing (libFuzzer) of its parsers under the same sanitizers'
NOTE = 'The sanitizers decide; inputs are mutated requests, frames, compressed data and TLS records, random disconnects, and what libFuzzer finds.'
VARIANTS = ['asan', 'asan2', 'ubsan', 'rel', 'msan', 'plain']
HARNESSES = {'fuzz': ('fuzz_http', 'fuzz_frames')}
RULE = 'a case is one hostile connection (distinct by kind and last bytes sent) or one fuzzing input (distinct inputs are those that reached new coverage)'
ASSUMPTIONS = ['OpenSSL, zlib and the C library are trusted']


def mob(ctx, variant, n, threads, tls=False, deflate=None, size=None, workers=4, wrapper=None, kinds=None, policy=False, patience=0.03, **kw):
    conf = {'setup': {'size': size or {}, 'pool': {'workers': workers}, 'favicon': '/repo/resources/favicon.ico'}}
    if policy:
        conf.update({'hosts': ['h', 'localhost', '127.0.0.1'], 'paths': ['chat/?', 'a.*', '[^b]+'], 'queries': ['a=.*', 'x'], 'origins': ['http://a', 'null']})
    with ctx.server(variant, conf, tls=tls, deflate=deflate, leaks=False, wrapper=wrapper, rec=True, **kw) as s:
        done = 0
        while done < n:
            k = min(n - done, 100)
            hostile.crowd(ctx, s, k, threads, tls=tls, deflate=deflate is not None, protocols=('echo', 'broadcast', 'rec'), kinds=kinds, patience=patience,
                          upgrade=dict(host='h', origin='http://a', path=ctx.rng.choice(['/chat/', '/axx?a=1', '/cc?x'])) if policy else None)
            done += k
            if not s.alive():
                raise Violation('server:exited', s.tail_log())
            if not policy:
                hostile.served(ctx, s, tls)


MEMCHECK = ['valgrind', '--log-file=san.vg.%p', '--leak-check=no', '--num-callers=20', '--fair-sched=yes', '--error-limit=no', '-q']


def fuzz_http(ctx, runs):
    r = ctx.rng
    seeds = []
    for i in range(120):
        d = hostile.odd_request(r, 1) if i % 2 else request(path=R.path(r), port=1, host=r.choice(['h', 'localhost']), origin=r.choice([None, 'http://a']),
                                                           protocols=r.choice([None, 'echo', 'broadcast, echo']), extensions=r.choice([None] + hostile.OFFERS), extra=R.extras(r))[0]
        seeds.append(bytes([i % 3]) + d)
    words = [w.encode('latin1') for w in ['Sec-WebSocket-Key: ', 'Sec-WebSocket-Version: 13', 'Sec-WebSocket-Extensions: permessage-deflate', 'Sec-WebSocket-Protocol: ', 'Upgrade: websocket',
             'Connection: ', 'Host: h', 'Origin: ', 'Cookie: ', 'Sec-WebSocket-Origin', 'Sec-WebSocket-Key1', 'Sec-WebSocket-Key2', 'WebSocket-Protocol', '\r\n', '\r\n\r\n', 'HTTP/1.1', 'GET ', 'ws://h/',
             'client_max_window_bits', 'server_max_window_bits=', '_no_context_takeover', ';', ',']]
    fuzz.run(ctx, 'fuzz_http', seeds, runs, max_len=3000, words=words)


def fuzz_frames(ctx, runs):
    r = ctx.rng
    seeds = []
    for i in range(150):
        out = b''
        for _ in range(r.randrange(1, 5)):
            if i % 2:
                z = hostile.odd_deflate(r)[:600]
                k = r.randrange(len(z) + 1)
                out += frame(TEXT, z[:k], fin=False, rsv=4) + frame(CONT, z[k:]) if r.random() < 0.4 else frame(BIN, z, rsv=4, mask=r.random() < 0.5)
            else:
                out += hostile.odd_frame(r)[:1000]
        seeds.append(bytes([r.randrange(4)]) + out)
    fuzz.run(ctx, 'fuzz_frames', seeds, runs, max_len=2000)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    n = 6000 if deep else 1500
    small = {'payload': 2000, 'header': 400, 'uri': 200, 'buffer': 64, 'ringbuffer': 8, 'frame': 500, 'fragmented': 10}
    for i in range(6 if deep else 1):
        out.append(Scenario('asan-%d' % i, mob, variant='asan', n=n, threads=8, weight=2, timeout=200))
        out.append(Scenario('asan-deflate-%d' % i, mob, variant='asan', n=n, threads=8, deflate=rng.choice(['', 'server_max_window_bits=9', 'client_no_context_takeover']), weight=2, timeout=200))
        out.append(Scenario('asan-small-%d' % i, mob, variant='asan', n=n, threads=4, size=small, deflate='', weight=2, timeout=200))
        out.append(Scenario('asan-policy-%d' % i, mob, variant='asan', n=n, threads=4, policy=True, kinds=['http', 'oddhttp', 'oddhttp', 'stream'], weight=1, timeout=200))
        out.append(Scenario('asan-tls-%d' % i, mob, variant='asan', n=n, threads=6, tls=True, deflate='', weight=2, timeout=200))
        out.append(Scenario('asan-poll-%d' % i, mob, variant='asan2', n=n, threads=6, weight=2, deflate='', timeout=200))
        out.append(Scenario('ubsan-%d' % i, mob, variant='ubsan', n=n, threads=6, deflate='', size=small if i % 2 else None, weight=1, timeout=200))
        out.append(Scenario('rel-%d' % i, mob, variant='rel', n=n, threads=6, deflate='', tls=True, weight=1, timeout=200))
        out.append(Scenario('msan-%d' % i, mob, variant='msan', n=n, threads=6, size=small if i % 2 else None, weight=1, timeout=200))
        out.append(Scenario('msan-policy-%d' % i, mob, variant='msan', n=n // 2, threads=4, policy=True, kinds=['http', 'oddhttp', 'oddhttp', 'stream'], weight=1, timeout=200))
        out.append(Scenario('memcheck-%d' % i, mob, variant='plain', n=n // 5, threads=6, size=small if i % 2 else None, deflate='', wrapper=MEMCHECK, patience=0.3, weight=2, timeout=300))
        out.append(Scenario('fuzz-http-%d' % i, fuzz_http, runs=2000000 if deep else 100000, weight=1, timeout=700))
        out.append(Scenario('fuzz-frames-%d' % i, fuzz_frames, runs=2000000 if deep else 100000, weight=1, timeout=700))
    return out

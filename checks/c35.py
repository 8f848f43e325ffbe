"""C35: signals the server does not end on never disturb its service."""
import ctypes
import os
import random
import signal
import threading
import time

from checks import c01, c04, c07, c10, c13, c14, c23, c24
from checks.c10 import judge
from vlib.check import Scenario, Violation
from vlib.ws import TEXT, Client, Closed, ProtocolError, Timeout, frame

PROPERTY = 'C35'
LEVEL = 'exploration'
TECHNIQUE = ('fault injection of signals (SIGHUP, SIGPIPE, suspensions and signals nobody handles, to the process and to threads picked at random, alone and in bursts) under the workloads and '
             'oracles of the other checks, also with injected delays and under AddressSanitizer; interrupts aimed at single threads, with exit status and time to exit as oracle')
NOTE = 'Sampled moments; a signal aimed at one thread stands for what the kernel may choose for one aimed at the process. ThreadSanitizer is not used: its run time itself crashes now and then when signals reach threads that start or end.'
VARIANTS = ['rel', 'poll', 'relc', 'asan']
RULE = 'a case is what the check of the workload counts as one, under signals; for the interrupts, one run of the server, distinct by configuration, victim and number of signals'
ASSUMPTIONS = ['the signals come after the server has installed its handlers', 'no more than some ten thousand signals a second']
OSE = (OSError, Closed, Timeout, ProtocolError, AssertionError)
BOUND = {'rel': 10, 'poll': 10, 'relc': 60, 'asan': 25}
SYS_tgkill = 234
ANY = 'thread,thread,same,process,stop,other'


def under(ctx, fn, burst, pause, how=ANY, **kw):
    """The workload of another check, while signals arrive."""
    ctx.storm = (burst, pause, how)
    fn(ctx, **kw)
    n = sum(ctx.counters.get('signals_' + h, 0) for h in ('thread', 'same', 'process', 'stop', 'other'))
    ctx.check(n > 0, 'harness:no-signals', 'nothing was sent')


def interrupted(ctx, variant, rounds, tls=True, chaos=None):
    """An interrupt that one thread gets, or several do, in the middle of the traffic and
    of other signals."""
    libc = ctypes.CDLL(None, use_errno=True)
    for r in range(rounds):
        rng = random.Random(ctx.rng.random())
        workers = rng.choice([1, 4, 8])
        wild = rng.random() < 0.7
        ctx.storm = (rng.choice([1, 5, 20]), rng.choice([200, 2000]), ANY) if wild else None
        conf = {'setup': {'pool': {'workers': workers}, 'timeouts': {'client': rng.choice([-1, 600]), 'pings': 3}}}
        w = ctx.server(variant, conf, tls=tls, chaos=chaos, stop=False)
        with w as s:
            over = threading.Event()

            def talk(rng):
                while not over.is_set():
                    try:
                        t = rng.choice([None, '1.3']) if tls else None
                        c = Client(s.https if t else s.http, tls=t, timeout=10)
                        c.handshake(protocols=rng.choice(['echo', 'broadcast']))
                        for i in range(rng.randrange(1, 30)):
                            c.send(frame(TEXT, b'%d' % i))
                            try:
                                c.read_event(0.005)
                            except Timeout:
                                pass
                        c.close()
                    except OSE:
                        if over.wait(0.002):
                            return
            ts = [threading.Thread(target=talk, args=(random.Random(rng.random()),), daemon=True) for _ in range(rng.choice([0, 3, 8]))]
            for t in ts:
                t.start()
            time.sleep(rng.random() * 0.3)
            ctx.check(s.alive(), 'server:exited:early', s.tail_log())
            tids = sorted(int(t) for t in os.listdir('/proc/%d/task' % s.pid))
            k = rng.randrange(len(tids))
            n = rng.choice([1, 1, 2, 10])
            t0 = time.monotonic()
            for i in range(n):
                libc.syscall(SYS_tgkill, s.pid, tids[k if i == 0 or rng.random() < 0.5 else rng.randrange(len(tids))], int(signal.SIGINT))
                if i and rng.random() < 0.3:
                    time.sleep(rng.random() * 0.003)
            try:
                st = s.proc.wait(BOUND[variant])
            except Exception:
                st = None
                s.stuck = s.stacks()
                s.proc.kill()
                s.proc.wait()
            took = time.monotonic() - t0
            over.set()
            for t in ts:
                t.join(12)
            w.calm()
            s.proc = None
            ctx.log('interrupt', k, 'of', len(tids), 'n', n, 'took %.2f' % took)
            if st is None:
                raise Violation('interrupt:stuck', '%d interrupts, the first to thread %d of %d: still running after %d s\n%s' % (n, k, len(tids), BOUND[variant], s.stuck), hang=True)
            judge(ctx, s, True, st)
            ctx.count('interrupts', n)
            ctx.case((variant, workers, wild, k, n, len(ts)), sample='%d interrupts, thread %d of %d, %.2f s' % (n, k, len(tids), took))


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 10 if deep else 1
    out = []

    def add(name, fn, burst, pause, weight=1, timeout=200, how=ANY, **kw):
        out.append(Scenario(name, lambda ctx, **a: under(ctx, fn, burst, pause, how, **a), weight=weight, timeout=timeout, **kw))
    for v, tls in (('rel', False), ('rel', True), ('poll', True), ('relc', True), ('asan', False)):
        add('conversation-%s-%s' % (v, 'tls' if tls else 'plain'), c01.conversation, 5, 600, variant=v, cf=rng.choice(c01.CONFS[:9]), tls=tls, conns=6 * k, threads=3,
            msgs=26, chaos=(30, 300, 60) if v == 'relc' else None)
    add('stream', c01.stream, 10, 100, variant='rel', n=2500 * k, tls='1.3')
    add('stream-poll', c01.stream, 10, 100, variant='poll', n=2500 * k, tls=None)
    for v, tls in (('rel', False), ('poll', True), ('relc', False)):
        add('room-%s' % v, c07.room, 4, 800, variant=v, conf=dict(workers=4), rounds=10 * k, size=4, limit=5000, tls=tls, weight=2,
            chaos=(50, 500, 30) if v == 'relc' else None)
    add('requests', c04.requests, 5, 300, variant='rel', n=120 * k, tls=False, buf=1000)
    add('requests-tls', c04.requests, 5, 300, variant='poll', n=80 * k, tls=True, buf=32768)
    add('parallel', c04.parallel, 10, 300, variant='rel', n=12 * k, threads=12, tls=True, weight=2)
    add('closes', c13.streams, 5, 300, variant='rel', n=100 * k, threads=4, tls=True)
    add('leaving', c13.leaving, 5, 300, variant='poll', n=60 * k)
    add('frames', c23.frames, 5, 500, variant='rel', n=60 * k, size=3000, buf=100)
    add('idle', c14.idle, 3, 3000, variant='rel', T=2000, P=4, each=2, tls=True, confirm=True)
    add('idle-poll', c14.idle, 3, 3000, variant='poll', T=2400, P=0, each=2, tls=True, confirm=True)
    add('never', c14.never, 5, 1000, variant='rel', P=3, seconds=3, tls=True)
    add('siege', c24.siege, 5, 1000, variant='rel', workers=1, each=3, confirm=True)
    for v in ('rel', 'poll', 'relc', 'asan'):
        out.append(Scenario('interrupted-%s' % v, interrupted, variant=v, rounds=(8 if v in ('rel', 'poll') else 4) * k, chaos=(30, 300, 30) if v == 'relc' else None, timeout=250))
    add('wave', c10.wave, 8, 300, variant='rel', clients=60, rounds=40 * k, workers=1)
    add('wave-poll', c10.wave, 8, 300, variant='poll', clients=40, rounds=40 * k, workers=2)
    return out

"""C18: the thread pool runs every accepted task exactly once."""
from vlib import harness
from vlib.check import Scenario
from vlib.ws import BIN, TEXT, Client, Timeout, frame

PROPERTY = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('stress of the real pool with assertions in every task (exactly once, never after the stop, bounded parallelism, order of acceptance, bounds on '
             'refusals), under ThreadSanitizer and AddressSanitizer, and a server whose queue is kept full')
NOTE = 'Schedules are sampled; thread counts, queue sizes and stop modes are drawn at random, including queues of one place.'
VARIANTS = ['rel', 'asan', 'tsan']
HARNESSES = {'rel': ('pool_main',), 'asan': ('pool_main',), 'tsan': ('pool_main',)}
RULE = ('a case is one task accepted by a pool (or one refusal provoked); distinct are windows of 12 producers in the order their tasks began, per number of '
        'threads and queue size')
ASSUMPTIONS = ['the order in which tasks begin can only be observed inside the tasks: with n threads up to n-1 tasks taken earlier may begin later']


def pool(ctx, variant, rounds, tasks):
    harness.run(ctx, variant, 'pool_main', [ctx.seed & 0xffffffff, rounds, tasks], timeout=200 + rounds, leaks=True, key='pool')


def full(ctx, variant, clients, messages):
    """A server whose queue has few places and whose workers are kept busy: every
    message is answered all the same."""
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'size': {'thread': rng.choice([1, 2, 4])}, 'pool': {'workers': 2, 'retries': 200}}}, rec=True) as s:
        cs = []
        for i in range(clients):
            c = Client(s.http, timeout=60)
            c.handshake(protocols='rec', timeout=60)
            cs.append(c)
        for r in range(messages):
            sent = []
            for i, c in enumerate(cs):
                if rng.random() < 0.2:
                    c.send(frame(TEXT, b'!sleep %d' % rng.randrange(1, 30)))
                    sent.append((TEXT, b'slept'))
                else:
                    d = b'%d/%d' % (i, r)
                    c.send(frame(BIN, d))
                    sent.append((BIN, d))
            for c, want in zip(cs, sent):
                got = c.read_event(60)
                ctx.check(got == want, 'pool:server', lambda: 'with a full queue %r came instead of %r' % (got, want))
            ctx.case(('full', clients, r % 4), n=len(cs), sample='%d clients, 2 workers, short queue' % len(cs))
        for c in cs:
            c.goodbye(timeout=60)
            c.close()


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 12 if deep else 1
    out = []
    for i in range(3):
        out.append(Scenario('pool-rel-%d' % i, pool, variant='rel', rounds=60 * k, tasks=300, weight=2, timeout=300))
    out.append(Scenario('pool-asan', pool, variant='asan', rounds=40 * k, tasks=300, weight=2, timeout=300))
    for i in range(2):
        out.append(Scenario('pool-tsan-%d' % i, pool, variant='tsan', rounds=40 * k, tasks=200, weight=2, timeout=300))
    out.append(Scenario('queue-full', full, variant='rel', clients=24, messages=8 * k))
    out.append(Scenario('queue-full-tsan', full, variant='tsan', clients=24, messages=5 * k))
    return out

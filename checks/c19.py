"""C19: the message ring buffer is a lossless multi-producer FIFO."""
from vlib import harness
from vlib.check import Scenario

PROPERTY = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('online checkers on the real ring buffer: random operation sequences compared with a model after every step, and concurrent producers with '
             'numbered items whose consumer checks order, completeness and exactly-once, with AddressSanitizer and UndefinedBehaviorSanitizer')
NOTE = ('ThreadSanitizer is used only for the way the server uses the ring (under a lock): the lock-free use is built on fences and volatile accesses, which '
        'ThreadSanitizer does not model.')
VARIANTS = ['rel', 'asan', 'tsan']
HARNESSES = {'rel': ('ring_main',), 'asan': ('ring_main',), 'tsan': ('ring_main',)}
RULE = ('a case is one operation compared with the model or one item consumed; distinct are operation sequences, and windows of ten producers in the order '
        'their items were consumed, per size of the ring')
ASSUMPTIONS = ['one consumer; no more concurrent producers than records']


def ring(ctx, variant, mode, rounds, n):
    harness.run(ctx, variant, 'ring_main', [mode, ctx.seed & 0xffffffff, rounds, n], timeout=150 + rounds // 10, key='ring')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 15 if deep else 1
    out = []
    for i in range(2):
        out.append(Scenario('model-%d' % i, ring, variant='asan', mode='model', rounds=4000 * k, n=300, timeout=600))
        out.append(Scenario('model-rel-%d' % i, ring, variant='rel', mode='model', rounds=8000 * k, n=300, timeout=600))
    for v in ('rel', 'asan'):
        for m in ('perm', 'temp', 'bytes', 'locked'):
            out.append(Scenario('%s-%s' % (m, v), ring, variant=v, mode=m, rounds=60 * k if v == 'rel' else 30 * k, n=20000 if m != 'locked' else 3000, weight=4, timeout=600))
    out.append(Scenario('locked-tsan', ring, variant='tsan', mode='locked', rounds=30 * k, n=2000, weight=3, timeout=600))
    return out

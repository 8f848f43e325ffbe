"""C20: the allocator returns zeroed, aligned, non-overlapping memory across threads."""
from vlib import harness
from vlib.check import Scenario

PROPERTY = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('every live block carries a pattern of its own that is verified when it is resized, handed over or released, plus explicit tests for zeroes, alignment, '
             'overlap, cleared pointers and reuse of memory, with threads that start, exchange blocks and end; under ThreadSanitizer, AddressSanitizer and '
             'UndefinedBehaviorSanitizer')
NOTE = 'Sizes concentrate on the borders of the size classes of the allocator; ThreadSanitizer runs with the allocator of the server and not its own.'
VARIANTS = ['rel', 'asan', 'ubsan', 'tsanrp']
HARNESSES = {v: ('alloc_main',) for v in VARIANTS}
RULE = ('a case is one block obtained, resized or released; distinct are sequences of four operations with the classes of their sizes, and threads by the '
        'sequence of blocks they took over from others')
ASSUMPTIONS = ['threads announce themselves to the allocator and take their leave, as the threads of the server do']


def alloc(ctx, variant, mode, rounds, n):
    harness.run(ctx, variant, 'alloc_main', [mode, ctx.seed & 0xffffffff, rounds, n], timeout=200 + rounds, key='alloc')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 15 if deep else 1
    out = []
    for v in ('rel', 'asan', 'ubsan'):
        out.append(Scenario('single-' + v, alloc, variant=v, mode='single', rounds=40 * k if v == 'rel' else 25 * k, n=4000, weight=2, timeout=900))
    for i in range(3):
        out.append(Scenario('threads-rel-%d' % i, alloc, variant='rel', mode='threads', rounds=15 * k, n=2000, weight=6, timeout=900))
    out.append(Scenario('threads-ubsan', alloc, variant='ubsan', mode='threads', rounds=8 * k, n=1000, weight=6, timeout=900))
    out.append(Scenario('threads-asan', alloc, variant='asan', mode='threads', rounds=4 * k, n=500, weight=6, timeout=900))
    for i in range(2):
        out.append(Scenario('threads-tsan-%d' % i, alloc, variant='tsanrp', mode='threads', rounds=3 * k, n=800, weight=6, timeout=900))
    out.append(Scenario('reuse', alloc, variant='rel', mode='reuse', rounds=40 * k, n=1, weight=2, timeout=900))
    out.append(Scenario('limits', alloc, variant='rel', mode='limits', rounds=1, n=1))
    out.append(Scenario('limits-ubsan', alloc, variant='ubsan', mode='limits', rounds=1, n=1))
    return out

"""C28: frame encoding and decoding are exact inverses within RFC 6455."""
from vlib import harness
from vlib.check import Scenario

PROPERTY = 'C28'
LEVEL = 'exploration'
TECHNIQUE = ('oracle monitoring: decoding, encoding and splitting run against an encoder written from RFC 6455 in every CPU flavour, with the input ending at an '
             'unreadable page, under AddressSanitizer and UndefinedBehaviorSanitizer')
NOTE = ('The four unmasking loops the source selects by CPU are each built and run. Prefixes are cut at every byte of the head and near the end, and at '
        'sampled points between.')
FLAVOURS = ('frame_v2', 'frame_v3', 'frame_v4', 'frame_plain')
VARIANTS = ['rel', 'asan', 'ubsan']
HARNESSES = {v: FLAVOURS for v in VARIANTS}
RULE = 'a case is one frame, cut frame or split message compared with the reference; distinct are the combinations of flags, opcode, length and limit'
ASSUMPTIONS = ['the CPU this runs on decides which vector flavours can be executed (count unsupported_cpu)', 'memory is available']


def frames(ctx, variant, flavour, rounds):
    harness.run(ctx, variant, flavour, [ctx.seed & 0xffffffff, rounds], timeout=600, key='frame')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    for v in VARIANTS:
        for f in FLAVOURS:
            for i in range(8 if deep else 1):
                out.append(Scenario('%s-%s-%d' % (v, f, i), frames, variant=v, flavour=f, rounds=60000 if deep else 4000, timeout=700))
    return out

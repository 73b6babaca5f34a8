"""C53: Euclidean rhythms."""
from symx.spec import harness, grid

MODULES = ['klang.music.rhythm']
BOUNDS = 'up to 16 slots (thorough 28) and every number of pulses, numbers symbolic'
OUTSIDE = 'longer rhythms'


@harness('C53', quick=grid(part=[(1, 6), (7, 10), (11, 13), (14, 16)]), thorough=grid(part=[(17, 20), (21, 24), (25, 28)]))
def rhythm(ctx, part):
    m = ctx.mod('klang.music.rhythm')
    slots, pulses = ctx.int('slots', *part), ctx.int('pulses', 0, part[1])
    ctx.assume(pulses <= slots)
    ret = list(m.euclidian_rhythm(pulses, slots))
    slots, pulses = int(slots), int(pulses)
    ctx.check(len(ret) == slots, 'one entry per slot')
    ctx.check(all(v in (0, 1) for v in ret), 'pulse or pause')
    at = [i for i, v in enumerate(ret) if v]
    ctx.check(len(at) == pulses, 'number of pulses')
    if at:
        gaps = [b - a for a, b in zip(at, at[1:] + [at[0] + slots])]
        ctx.check(max(gaps) - min(gaps) <= 1, 'pulses are evenly spread')
    ctx.check(list(m.euclidian_rhythm(pulses, slots)) == ret, 'same result every time')


@harness('C53')
def impossible(ctx):
    m = ctx.mod('klang.music.rhythm')
    slots = ctx.int('slots', 0, 12)
    pulses = ctx.int('pulses', -4, 24)
    ctx.assume(ctx.Or(pulses > slots, pulses < 0))
    ctx.raises((ValueError, AssertionError), m.euclidian_rhythm, 'impossible rhythms are refused', pulses, slots)


@harness('C53')
def known(ctx):
    """Well known rhythms up to rotation."""
    m = ctx.mod('klang.music.rhythm')
    for pulses, slots, want in [(3, 8, '10010010'), (2, 5, '10100'), (5, 8, '10110110'), (4, 12, '100100100100'),
                                (1, 4, '1000'), (4, 4, '1111')]:
        got = ''.join(str(v) for v in m.euclidian_rhythm(pulses, slots))
        ctx.check(got in want + want and len(got) == slots, 'well known rhythm')

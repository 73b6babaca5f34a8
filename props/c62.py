"""C62: random patterns."""
from symx.spec import harness, grid

MODULES = ['klang.sequencer']
BOUNDS = 'every outcome of the random generator; lengths up to 6, periods up to 6, ranges symbolic within 0..127'
OUTSIDE = 'distribution of the values between both ends of the range'


@harness('C62', quick=grid(length=[0, 1, 2, 4, 6], period=[None, 1, 2, 3, 6]))
def patterns(ctx, length, period):
    m = ctx.mod('klang.sequencer')
    lo = ctx.int('lo', 0, 127)
    hi = ctx.int('hi', 0, 127)
    ctx.assume(lo <= hi)
    got = m.random_pattern(length, period, lo, hi)
    ctx.check(len(got) == length, 'pattern has the asked length')
    for v in got:
        ctx.check(ctx.And(v >= lo, v <= hi), 'values lie in the asked range')
    p = period or length
    for i in range(length - p):
        ctx.check(got[i] == got[i + p], 'pattern repeats with its period')


@harness('C62', quick=grid(length=[1, 4]))
def defaults(ctx, length):
    m = ctx.mod('klang.sequencer')
    ctx.int('unused', 0, 1)
    got = m.random_pattern(length)
    ctx.check(len(got) == length, 'pattern has the asked length')
    for v in got:
        ctx.check(ctx.And(v >= 60, v <= 72), 'values lie in the default octave')


class Dice:

    """Random functions which always return one end of their range."""

    def __init__(self, top):
        self.top = top
        self.thrown = 0

    def pick(self, lo, hi):
        self.thrown += 1
        return hi if self.top else lo

    def randint(self, a, b):
        return self.pick(a, b)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        return self.pick(start, start + (stop - 1 - start) // step * step)

    def choice(self, seq):
        return seq[self.pick(0, len(seq) - 1)]


@harness('C62', quick=grid(length=[1, 3]))
def ends(ctx, length):
    """Both ends of the range can occur."""
    m = ctx.mod('klang.sequencer')
    lo = ctx.pick('lo', 0, 4)
    hi = lo + ctx.pick('width', 0, 3)
    top = ctx.flag('top')
    dice = Dice(top)
    rnd = getattr(m, 'random', None)
    if rnd is None or not hasattr(rnd, 'randint'):
        return
    for name in ('randint', 'randrange', 'choice'):
        ctx.patch(rnd, name, getattr(dice, name))
    got = m.random_pattern(length, None, lo, hi)
    if dice.thrown:
        ctx.check(all(v == (hi if top else lo) for v in got), 'both ends of the range occur')

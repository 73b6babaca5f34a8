"""C43: metres."""
from fractions import Fraction

from symx.spec import harness, grid

MODULES = ['klang.music.metre', 'klang.math']
BOUNDS = 'numerators and denominators 1..64 (symbolic), every rational beat value'
OUTSIDE = 'metres written with non integer numerators'

NMAX = 64


def metre_of(ctx):
    num, den = ctx.int('num', 1, NMAX), ctx.int('den', 1, NMAX)
    return ctx.mod('klang.music.metre').create_metre(num, den), num, den


@harness('C43')
def construction(ctx):
    metre, num, den = metre_of(ctx)
    ctx.check(metre.numerator == num, 'numerator as written')
    ctx.check(metre.denominator == den, 'denominator as written')
    ctx.check(isinstance(metre, Fraction), 'a fraction')
    ctx.raises(ZeroDivisionError, ctx.mod('klang.music.metre').create_metre, 'denominator zero is refused', num, 0)


@harness('C43')
def classification(ctx):
    m = ctx.mod('klang.music.metre')
    metre, num, den = metre_of(ctx)
    dyadic = ctx.Or(*[den == 2 ** k for k in range(7)])
    ctx.check(m.is_irrational(metre) == ctx.Not(dyadic), 'irrational: denominator is not a power of two')
    ctx.check(not m.is_fractional(metre), 'whole numerators are not fractional')
    two, three = num % 2 == 0, num % 3 == 0
    ctx.check(m.is_complex(metre) == ctx.And(ctx.Not(two), ctx.Not(three)), 'complex: divisible by neither two nor three')
    ctx.check(m.is_compound(metre) == ctx.And(three, num > 3), 'compound: greater multiple of three')
    ctx.check(m.is_simple(metre) == ctx.Or(num == 2, num == 3, num == 4), 'simple: two, three or four')


@harness('C43')
def default_beat(ctx):
    m = ctx.mod('klang.music.metre')
    metre, num, den = metre_of(ctx)
    beat = m.default_beat_value(metre)
    ctx.check(beat.denominator == den, 'beat is counted in the note value of the metre')
    compound = ctx.And(num % 3 == 0, num > 3)
    complex_ = ctx.And(num % 2 != 0, num % 3 != 0)
    want = ctx.ite(compound, 3, ctx.ite(complex_, 2, 1))
    ctx.check(beat.numerator == want, 'three for compound, two for complex, one otherwise')
    ctx.check(m.number_of_beats(metre) * beat == Fraction(1) * metre, 'beats fill the bar')


@harness('C43')
def beats(ctx):
    m = ctx.mod('klang.music.metre')
    metre, num, den = metre_of(ctx)
    beat = ctx.frac('beat', 0, 8)
    ctx.assume(beat > 0)
    n = m.number_of_beats(metre, beat)
    ctx.check(isinstance(n, Fraction), 'exact number of beats')
    ctx.check(n * beat == Fraction(1) * metre, 'beats fill the bar')


@harness('C43')
def dyadic(ctx):
    math = ctx.mod('klang.math')
    n = ctx.int('n', -8, 300)
    ctx.check(math.is_power_of_two(n) == ctx.Or(*[n == 2 ** k for k in range(9)]), 'power of two')
    ctx.check(not math.is_power_of_two(float(ctx.pick('f', -2, 9)) + .5), 'no float is a power of two')


@harness('C43')
def shipped(ctx):
    m = ctx.mod('klang.music.metre')
    for name, num, den in [('FOUR_FOUR_METRE', 4, 4), ('THREE_FOUR_METRE', 3, 4), ('WALTZ_METRE', 3, 4),
                           ('TWO_FOUR_METRE', 2, 4), ('TWO_TWO_METRE', 2, 2), ('SIX_EIGHT_METRE', 6, 8),
                           ('SEVEN_EIGHT_METRE', 7, 8), ('NINE_EIGHT_METRE', 9, 8)]:
        metre = getattr(m, name)
        ctx.check((metre.numerator, metre.denominator) == (num, den), 'named metres keep their notation')

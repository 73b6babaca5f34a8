"""C44: dotted notes and tuplets."""
from fractions import Fraction

from symx.spec import harness, grid

MODULES = ['klang.music.note_values']
BOUNDS = 'note values in (0, 16] (symbolic rationals), dots -8..8, tuplets of 2..9 notes, up to 3 symbolic note values'
OUTSIDE = 'more dots or notes'


def note(ctx, name):
    v = ctx.frac(name, 0, 16)
    ctx.assume(v > 0)
    return v


@harness('C44')
def dots(ctx):
    m = ctx.mod('klang.music.note_values')
    v = note(ctx, 'v')
    n = ctx.pick('n', 0, 8)
    d = m.dot_note(v, n)
    ctx.check(isinstance(d, Fraction), 'exact')
    ctx.check(d == v * (Fraction(2) - Fraction(1, 2 ** n)), 'every dot adds half of the previous addition')
    ctx.check(m.dedot_note(d, n) == v, 'undotting inverts dotting')
    ctx.check(m.dot_note(m.dedot_note(v, n), n) == v, 'dotting inverts undotting')
    ctx.check(m.dot_note(v, -n) == m.dedot_note(v, n), 'negative dots undot')
    ctx.check(m.dedot_note(v, -n) == d, 'negative dots undot')
    ctx.check(m.dot_note(v) == m.dot_note(v, 1), 'one dot by default')
    ctx.check(m.dedot_note(v) == m.dedot_note(v, 1), 'one dot by default')


@harness('C44', quick=grid(n=[1, 2, 3]))
def tuplets(ctx, n):
    """num notes in the time of den."""
    m = ctx.mod('klang.music.note_values')
    num = ctx.pick('num', 2, 9)
    given = ctx.flag('given')
    den = ctx.pick('den', 1, 9) if given else num - 1
    pool = [Fraction(1, 4), Fraction(1, 8), Fraction(3, 8), Fraction(1, 16)]
    notes = [ctx.choice('v%d' % i, pool[:2 if n > 2 else 4]) for i in range(n)]
    t = m.Tuplet(num, notes, den) if given else m.Tuplet(num, notes)
    ctx.check(isinstance(t, Fraction), 'a note value')
    ctx.check(t * num == sum(notes) * den, 'fills the normal duration')
    ctx.check((t.num, t.den) == (num, den), 'ratio')
    ctx.check(list(t.notes) == notes, 'keeps its notes')
    ctx.check(t + t == 2 * sum(notes) * den / num, 'adds up like a note value')


@harness('C44')
def shipped(ctx):
    """Named note values."""
    m = ctx.mod('klang.music.note_values')
    names = ['LARGE', 'LONG', 'DOUBLE_WHOLE', 'WHOLE', 'HALF', 'QUARTER', 'EIGHT', 'SIXTEENTH', 'THIRTY_SECOND',
             'SIXTY_FOURTH', 'HUNDRED_TWENTY', 'TWO_HUNDRED_FIFTY_SIXTH']
    for k, name in enumerate(names):
        for n, prefix in enumerate(['', 'DOTTED_', 'DOUBLE_DOTTED_', 'TRIPLE_DOTTED_']):
            got = getattr(m, prefix + name + '_NOTE')
            ctx.check(got == Fraction(8, 2 ** k) * (2 - Fraction(1, 2 ** n)), 'named note value')

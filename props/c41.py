"""C41: micro rhythms."""
from symx.spec import harness, grid

MODULES = ['klang.music.rhythm']
BOUNDS = 'up to 3 (thorough 4) notes with symbolic lengths, 1..8 repetitions per turn, symbolic phrasing in [0, 1], two symbolic phases in [0, 2*pi)'
OUTSIDE = 'phases outside [0, 2*pi) (phasors stay inside); smooth interpolations (linear only)'


def rhythm(ctx, notes, **kw):
    m = ctx.mod('klang.music.rhythm')
    lengths = [ctx.real('n%d' % i, .05, 4.) for i in range(notes)]
    return lengths, m.MicroRhyhtm(lengths, **kw)


def warp(block, phase):
    block.input.set_value(phase)
    block.update()
    return block.output.value


def groove(ctx, lengths, phase, n, TAU):
    """Note i of k starts at i/k of its repetition."""
    total = sum(lengths)
    turn = phase / TAU * n
    rep = ctx.floor(turn)
    inner = (turn - rep) * total
    k = len(lengths)
    at, start = 0., 0.
    for i, length in enumerate(lengths):
        if inner >= start:
            at = (i + (inner - start) / length) / k
        start = start + length
    return (rep + at) / n * TAU


@harness('C41', quick=grid(notes=[1, 2, 3], beat=[1, 2, 4, 8]), thorough=grid(notes=[4], beat=[1, 4]), timeout=90)
def value(ctx, notes, beat):
    TAU = ctx.mod('klang.constants').TAU
    phrasing = ctx.choice('phrasing', [1., .5, .25])
    lengths, block = rhythm(ctx, notes, phrasing=phrasing, beatValue=ctx.mod('fractions').Fraction(1, beat))
    turn = ctx.real('turn', 0., .9999)
    inner = turn * beat - ctx.floor(turn * beat)
    ctx.assume(ctx.And(inner > 1e-6, inner < 1 - 1e-6))
    phase = turn * TAU
    want = (1 - phrasing) * phase + phrasing * groove(ctx, lengths, phase, beat, TAU)
    ctx.eq(warp(block, phase), want, 'notes are spread evenly over each repetition', tol=1e-6)


@harness('C41', quick=grid(notes=[1, 2, 3], beat=[1, 2, 4, 8]), thorough=grid(notes=[4], beat=[1, 3]), timeout=90)
def monotone(ctx, notes, beat):
    TAU = ctx.mod('klang.constants').TAU
    lengths, block = rhythm(ctx, notes, phrasing=0., beatValue=ctx.mod('fractions').Fraction(1, beat))
    a = ctx.real('a', 0., .999)
    b = ctx.real('b', 0., .999)
    ctx.assume(a + 1e-6 < b)
    for x in (a, b):
        inner = x * beat - ctx.floor(x * beat)
        ctx.assume(ctx.And(inner > 1e-6, inner < 1 - 1e-6))
    ctx.eq(warp(block, a * TAU), a * TAU, 'without phrasing the phase is unchanged', tol=1e-9)
    block.phrasing.set_value(1.)
    wa, wb = warp(block, a * TAU), warp(block, b * TAU)
    ctx.le(wa, wb, 'later phases stay later', tol=1e-6)
    ctx.le(0., wa, 'phases stay phases', tol=1e-6)
    ctx.le(wb, TAU, 'phases stay phases', tol=1e-6)


@harness('C41', quick=grid(notes=[1, 2, 3], beat=[1, 2, 4, 8]), timeout=60)
def grid_points(ctx, notes, beat):
    """Starts of the repetitions stay where they are, for every phrasing."""
    TAU = ctx.mod('klang.constants').TAU
    phrasing = ctx.real('phrasing', 0., 1.)
    lengths, block = rhythm(ctx, notes, phrasing=phrasing, beatValue=ctx.mod('fractions').Fraction(1, beat))
    k = ctx.pick('k', 0, beat - 1)
    ctx.eq(warp(block, k / beat * TAU), k / beat * TAU, 'the grid is kept', tol=1e-6)
    ctx.eq(block.warp(0., n=3), 0., 'the grid is kept', tol=1e-6)


@harness('C41', quick=grid(beat=['3/4', '3/8', '1/2', '2/3']), timeout=60)
def uneven(ctx, beat):
    """As many whole repetitions as fit into a turn for beats which do not divide it."""
    Fraction = ctx.mod('fractions').Fraction
    TAU = ctx.mod('klang.constants').TAU
    num, den = map(int, beat.split('/'))
    lengths, block = rhythm(ctx, 2, beatValue=Fraction(num, den))
    n = den // num
    turn = ctx.real('turn', 0., .9999)
    inner = turn * n - ctx.floor(turn * n)
    ctx.assume(ctx.And(inner > 1e-6, inner < 1 - 1e-6))
    ctx.eq(warp(block, turn * TAU), groove(ctx, lengths, turn * TAU, n, TAU), 'whole repetitions', tol=1e-6)

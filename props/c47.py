"""C47: scales."""
from symx.spec import harness, grid

MODULES = ['klang.music.scales', 'klang.util']
BOUNDS = 'scale codes 0..4095 (symbolic bits), the shipped scales, octave transpositions -2..2 of the pitches'
OUTSIDE = 'scales that do not start on their root have no step notation of their own (only codes with the root are converted back)'


def bits(ctx, part):
    """Members of a pitch class set that contains the root."""
    fixed = [(part >> i) & 1 for i in range(3)]
    return [1] + fixed + [ctx.pick('bit%d' % i, 0, 1) for i in range(8)]


@harness('C47', quick=grid(part=list(range(8))))
def codes(ctx, part):
    m = ctx.mod('klang.music.scales')
    pitches = [p for p, bit in enumerate(bits(ctx, part)) if bit]
    code = sum(2 ** p for p in pitches)
    scale = m.code_2_scale(code)
    ctx.check(m.scale_2_code(scale) == code, 'scale and back')
    ctx.check(sum(int(v) for v in scale) == 12, 'steps sum to an octave')
    ctx.check(len(scale) == len(pitches) and all(int(v) > 0 for v in scale), 'one step per pitch')
    ctx.check(sorted(int(v) for v in m.scale_2_pitches(scale)) == pitches, 'pitches of the code')
    ctx.check([int(v) for v in m.ALL_POSSIBLE_SCALES[code]] == [int(v) for v in scale], 'scale table')


@harness('C47', quick=grid(n=[1, 2, 3, 4]), thorough=grid(n=[5, 6, 7]))
def steps(ctx, n):
    """Steps to pitches and back for all step sequences of an octave."""
    m = ctx.mod('klang.music.scales')
    scale = ctx.ints('step', n, 1, 12)
    ctx.assume(sum(scale) == 12)
    pitches = m.scale_2_pitches(scale)
    ctx.check(ctx.shape(pitches) == (n,), 'one pitch per step')
    ctx.check(pitches[0] == 0, 'starts on the root')
    for i in range(n - 1):
        ctx.check(pitches[i + 1] == pitches[i] + scale[i], 'steps between pitches')
    back = m.pitches_2_scale(pitches)
    for i in range(n):
        ctx.check(back[i] == scale[i], 'pitches and back')


@harness('C47', quick=grid(n=[1, 2, 3]), thorough=grid(n=[4]))
def unordered(ctx, n):
    """Order and octave of the pitches do not matter."""
    m = ctx.mod('klang.music.scales')
    pitches = [ctx.int('p%d' % i, -24, 35) for i in range(n)]
    classes = [p % 12 for p in pitches]
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.Not(classes[i] == classes[j]))
    ctx.assume(ctx.Or(*[c == 0 for c in classes]))
    scale = m.pitches_2_scale(pitches)
    ctx.check(sum(scale[i] for i in range(n)) == 12, 'steps sum to an octave')
    back = m.scale_2_pitches(scale)
    for c in classes:
        ctx.check(ctx.Or(*[back[i] == c for i in range(n)]), 'same pitch classes')


@harness('C47')
def known(ctx):
    m = ctx.mod('klang.music.scales')
    names = sorted(m.KNOWN_SCALES)
    i = ctx.pick('i', 0, len(names) - 1)
    scale = [int(v) for v in m.find_scale(names[i])]
    ctx.check(sum(scale) == 12, 'steps sum to an octave')
    ctx.check(m.scale_2_code(scale) == m.KNOWN_SCALES[names[i]], 'code of the scale')
    for name, want in [('major', [2, 2, 1, 2, 2, 2, 1]), ('chromatic', [1] * 12), ('ionian mode', [2, 2, 1, 2, 2, 2, 1]),
                       ('dorian mode', [2, 1, 2, 2, 2, 1, 2])]:
        if name in m.KNOWN_SCALES:
            ctx.check([int(v) for v in m.find_scale(name)] == want, 'well known scale')


@harness('C47')
def refused(ctx):
    m = ctx.mod('klang.music.scales')
    code = ctx.pick('code', 1, 8)
    ctx.raises((AssertionError, ValueError), m.code_2_scale, 'codes outside of the octave are refused',
               -code if ctx.flag('negative') else 4096 + code)

"""C48: chord inversion."""
from symx.spec import harness, grid

MODULES = ['klang.music.chords', 'klang.util']
BOUNDS = 'ascending chords of 1..5 notes (symbolic pitches), inversions -8..8; the shipped chords'
OUTSIDE = 'larger chords'


def chord_of(ctx, n, octave=True):
    chord = ctx.ints('p', n, -40, 90)
    for a, b in zip(chord, chord[1:]):
        ctx.assume(a < b)
    if octave:
        ctx.assume(chord[-1] < chord[0] + 12)
    return chord


@harness('C48', quick=grid(n=[1, 2, 3, 4, 5]))
def inversion(ctx, n):
    m = ctx.mod('klang.music.chords')
    chord = chord_of(ctx, n, ctx.flag('within an octave'))
    k = ctx.pick('k', -8, 8)
    before = list(chord)
    seq = {0: list, 1: tuple, 2: ctx.np.array}[ctx.pick('type', 0, 2)](chord)
    got = m.invert_chord(seq, k)
    ctx.check(ctx.shape(got) == (n,), 'same number of notes')
    for i in range(n):
        # note i of the result is note (i + k) of the chord, a whole number of octaves away
        want = before[(i + k) % n] + 12 * ((i + k) // n)
        ctx.check(got[i] == want, 'notes move by whole octaves')
    for i in range(n):
        ctx.check(seq[i] == before[i], 'argument is not modified')
    back = m.invert_chord(got, -k)
    for i in range(n):
        ctx.check(back[i] == before[i], 'inverting back')


@harness('C48', quick=grid(n=[2, 3, 4, 5]))
def ascending(ctx, n):
    m = ctx.mod('klang.music.chords')
    chord = chord_of(ctx, n)
    k = ctx.pick('k', -8, 8)
    got = m.invert_chord(chord, k)
    for i in range(n - 1):
        ctx.check(got[i] < got[i + 1], 'stays ascending')
    ctx.check(got[n - 1] < got[0] + 12, 'stays within an octave')


@harness('C48', quick=grid(n=[1, 3, 4]))
def steps(ctx, n):
    """Several inversions add up."""
    m = ctx.mod('klang.music.chords')
    chord = chord_of(ctx, n, False)
    a, b = ctx.pick('a', -4, 4), ctx.pick('b', -4, 4)
    one, two = m.invert_chord(m.invert_chord(chord, a), b), m.invert_chord(chord, a + b)
    up = m.invert_chord(chord, n)
    for i in range(n):
        ctx.check(one[i] == two[i], 'inversions add up')
        ctx.check(up[i] == chord[i] + 12, 'as many inversions as notes: an octave up')


@harness('C48')
def shipped(ctx):
    m = ctx.mod('klang.music.chords')
    names = sorted(m.CHORDS)
    name = names[ctx.pick('i', 0, len(names) - 1)]
    chord = [int(v) for v in m.find_chord(name)]
    got = [int(v) for v in m.invert_chord(m.find_chord(name), ctx.pick('k', -3, 3))]
    ctx.check(sorted(v % 12 for v in got) == sorted(v % 12 for v in chord), 'pitch classes are kept')
    ctx.check([int(v) for v in m.find_chord(name)] == chord, 'the database is not modified')

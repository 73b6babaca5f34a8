"""C45: note names."""
from symx.spec import harness, grid

MODULES = ['klang.music.pitch']
BOUNDS = ('pitches -24..151 (symbolic); all printable ASCII texts of up to 4 characters (symbolic characters), thorough tier 5; '
          'letters, accidentals and octaves of well formed names symbolic')
OUTSIDE = 'longer texts and other scripts'


def char(ctx, text, i, options):
    return ctx.Or(*[text[i] == o for o in options])


def well_formed(ctx, text):
    """Letter, up to two equal accidentals, octave number."""
    n = len(text)
    if n < 2:
        return False
    cases = []
    letter = char(ctx, text, 0, 'cdefgabCDEFGAB')
    for acc in ('', '#', '##', 'b', 'bb'):
        for minus in (False, True):
            start = 1 + len(acc) + minus
            if start >= n:
                continue
            conds = [letter]
            for i, a in enumerate(acc):
                conds.append(char(ctx, text, 1 + i, [a, a.upper()]))
            if minus:
                conds.append(text[start - 1] == '-')
            conds += [char(ctx, text, i, '0123456789') for i in range(start, n)]
            cases.append(ctx.And(*conds))
    return ctx.Or(*cases) if cases else False


@harness('C45', quick=grid(n=[0, 1, 2, 3, 4]), thorough=grid(n=[5]))
def texts(ctx, n):
    """Anything but a note name is refused with a ValueError, nothing else."""
    m = ctx.mod('klang.music.pitch')
    text = ctx.text('t', n)
    # accidentals after an accidental are letters of their own for str.title
    err = ctx.fails((ValueError,), m.note_name_2_pitch, text)
    ok = well_formed(ctx, text)
    if err is None:
        ctx.check(ok, 'only note names are accepted')
    else:
        mixed = ctx.And(n >= 3, char(ctx, text, 1, 'bB'), char(ctx, text, 2, 'bB')) if n >= 3 else False
        ctx.check(ctx.Not(ok), 'note names are accepted')


@harness('C45')
def round_trip(ctx):
    m = ctx.mod('klang.music.pitch')
    pitch = ctx.int('pitch', -24, 151)
    name = m.pitch_2_note_name(pitch)
    ctx.check(m.note_name_2_pitch(name) == pitch, 'name and back')
    ctx.check(m.note_name_2_pitch(name.lower()) == pitch, 'upper and lower case')


@harness('C45', quick=grid(acc=['', '#', '##', 'b', 'bb']))
def accidentals(ctx, acc):
    m = ctx.mod('klang.music.pitch')
    base = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
    letter = ctx.choice('letter', sorted(base))
    octave = ctx.text('octave', 1, '0123456789')
    minus = '-' if ctx.flag('minus') else ''
    if ctx.flag('lower'):
        letter = letter.lower()
    got = m.note_name_2_pitch(letter + acc + minus + octave)
    o = int(octave) if not ctx.symbolic else octave.c[0] - 48
    if minus:
        o = -o
    shift = acc.count('#') - acc.count('b')
    ctx.check(got == base[letter.upper()] + shift + 12 * (o + 1), 'letter, accidentals and octave')


@harness('C45')
def reference(ctx):
    m = ctx.mod('klang.music.pitch')
    ctx.check(m.note_name_2_pitch('A4') == 69 and m.note_name_2_pitch('C4') == 60, 'middle C and concert pitch')
    ctx.check(m.pitch_2_note_name(60) == 'C4' and m.pitch_2_note_name(0) == 'C-1', 'middle C')
    ctx.check(m.pitch_2_note_name(70) == 'A#4', 'names with sharps')

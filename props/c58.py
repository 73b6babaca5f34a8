"""C58: note rows as text."""
from symx.spec import harness, grid

MODULES = ['klang.music.note_formatting', 'klang.music.note_values']
BOUNDS = ('rows of 3 (quick) / 4 (thorough) notes out of seven values from whole to sixteenth notes (dotted ones '
          'included), metres 4/4, 3/4, 2/4, 6/8, 9/8 and groupings 5/8, 7/8; beam breaks for every position up to 3 bars '
          'and every note value (symbolic rationals); tuplets of 2..4 notes, 2..9 in the time of others')
OUTSIDE = 'longer rows; nested tuplets; look of beams between notes of different length'

VALUES = [(1, 1), (1, 2), (3, 8), (1, 4), (3, 16), (1, 8), (1, 16)]
METRES = [(4, 4), (3, 4), (2, 4), (6, 8), (9, 8)]
GROUPINGS = [((3, 8), (2, 8)), ((3, 8), (2, 8), (2, 8)), ((2, 8), (3, 8)), ((1, 4), (1, 4))]
BEAMS = '─═┌┬┐╒╤╕'


def width_check(ctx, text):
    rows = text.split('\n')
    ctx.check(len(set(map(len, rows))) == 1, 'rows have the same width')
    return rows


@harness('C58', quick=grid(n=[3], metre=METRES, signature=[False]) + grid(n=[2], metre=METRES, signature=[True]) +
         grid(n=[3], grouping=GROUPINGS, signature=[False]) + grid(n=[1], grouping=GROUPINGS, signature=[True]),
         thorough=grid(n=[4], metre=METRES[:4], signature=[False]) + grid(n=[4], grouping=GROUPINGS, signature=[False]))
def layout(ctx, n, signature, metre=None, grouping=None):
    """Heads, stems, dots, bar lines and beams of a row."""
    from fractions import Fraction
    m = ctx.mod('klang.music.note_formatting')
    notes = [Fraction(*VALUES[ctx.pick('note%d' % i, 0, len(VALUES) - 1)]) for i in range(n)]
    stretch = ctx.flag('stretch')
    kwargs = dict(timeSignature=signature, strech=stretch)
    if grouping is None:
        length, other = Fraction(*metre), Fraction(*metre, _normalize=False)
        borders = [Fraction(k, 4) for k in range(9)] if metre[1] == 4 else [Fraction(3 * k, 8) for k in range(9)]
        text = m.format_notes(notes, metre=other, **kwargs)
    else:
        groups = [Fraction(*g) for g in grouping]
        length = sum(groups)
        borders = [sum(groups[:k], Fraction(0)) for k in range(len(groups) + 1)]
        text = m.format_notes(notes, grouping=groups, **kwargs)
    rows = width_check(ctx, text)
    ctx.check(len(rows) == 3, 'three rows')
    top, middle, bottom = rows
    heads = [i for i, c in enumerate(bottom) if c in '●○']
    ctx.check(len(heads) == n, 'one head per note')
    bars = [i for i, c in enumerate(bottom) if c == '│']
    for i in bars:
        ctx.check(top[i] == middle[i] == '│', 'bar lines cross all rows')
    pos, joined = Fraction(0), False
    for k, (note, x) in enumerate(zip(notes, heads)):
        ctx.check(bottom[x] == ('○' if note > Fraction(1, 4) else '●'), 'heads of short notes are filled')
        ctx.check(bottom[x + 1] == ('.' if note.numerator == 3 else ' '), 'dotted notes have a dot')
        ctx.check(middle[x + 1] == ('│' if note <= Fraction(1, 2) else ' '), 'all but whole notes have a stem')
        ctx.check(len([b for b in bars if b < x]) == pos // length, 'one bar line per full bar')
        right = heads[k + 1] if k + 1 < n else len(top)
        nBeams = {8: 1, 16: 2}[note.denominator] if note.numerator == 1 and note < Fraction(1, 4) else \
            1 if note == Fraction(3, 16) else 0
        start, end = pos % length, pos % length + note
        broken = any(start < b <= end for b in borders if b <= length) or end >= length
        gap = top[x + 2:right]
        beams = [c for c in gap.split('│')[0] if c in BEAMS]
        if nBeams == 0 or broken:
            ctx.check(not [c for c in top[x + 2:x + 3] if c in BEAMS], 'beams break at group and bar borders')
        else:
            ctx.check(beams[:1] == [['─', '═'][nBeams - 1]], 'beam of a note shows its value')
        if nBeams:
            part = 2 if broken or note >= Fraction(1, 4) else 1 if joined else 0
            ctx.check(top[x + 1] == ('┌┬┐', '╒╤╕')[nBeams - 1][part], 'beams start, go on and end with their group')
        else:
            ctx.check(top[x + 1] not in BEAMS, 'long notes carry no beam')
        joined = not broken and note < Fraction(1, 4)
        pos += note
    if stretch and n > 1:
        raster = min(notes)
        distances = [b - a - 3 * len([c for c in bars if a < c < b]) for a, b in zip(heads, heads[1:])]
        for d, note in zip(distances, notes):
            ctx.check(d == 2 + note // raster, 'distance shows the duration')


@harness('C58', quick=grid(metre=METRES) + grid(grouping=GROUPINGS))
def beam_breaks(ctx, metre=None, grouping=None):
    """A beam ends exactly where the note reaches a group or bar border."""
    from fractions import Fraction
    m = ctx.mod('klang.music.note_formatting')
    if grouping is None:
        metre = Fraction(*metre, _normalize=False)
        groups = m.DEFAULT_GROUPINGS[metre]
        metre = Fraction(metre)
    else:
        groups = [Fraction(*g) for g in grouping]
        metre = sum(groups)
    crossings = m.cumsum(groups)
    pos = ctx.frac('pos', 0, 3 * metre)
    note = ctx.frac('note', Fraction(1, 64), Fraction(1, 1))
    ctx.assume(note < metre)
    got = m._beam_needs_to_end(pos, note, metre, crossings)
    start = pos - metre * ctx.floor(pos / metre)
    end = start + note
    want = ctx.Or(note >= Fraction(1, 4), end >= metre,
                  *[ctx.And(start < c, end >= c) for c in crossings])
    ctx.check(got == want if isinstance(want, bool) else bool(got) == bool(want), 'beam ends at borders only')


@harness('C58', quick=grid(n=[1, 2, 3, 4]))
def running_positions(ctx, n):
    """Note positions are exact sums of the notes before."""
    m = ctx.mod('klang.music.note_formatting')
    notes = [ctx.frac('note%d' % i, 0, 8) for i in range(n)]
    got = m.cumsum(notes)
    ctx.check(len(got) == n, 'one position per note')
    total = 0
    for a, note in zip(got, notes):
        ctx.check(a == total, 'position is the sum of the notes before')
        total = total + note


@harness('C58', quick=[{}])
def too_short(ctx):
    """Notes shorter than a sixteenth are refused."""
    from fractions import Fraction
    m = ctx.mod('klang.music.note_formatting')
    note = [Fraction(1, 17), Fraction(1, 32), Fraction(3, 64), Fraction(1, 64)][ctx.pick('i', 0, 3)]
    ctx.raises(ValueError, lambda: m.format_notes([Fraction(1, 4), note, Fraction(1, 8)]), 'too short notes are refused')


@harness('C58', quick=grid(den=[2, 4, 8, 16]))
def time_signatures(ctx, den):
    """The time signature shows numerator over denominator; groups of odd metres stay visible."""
    from fractions import Fraction
    m = ctx.mod('klang.music.note_formatting')
    a, b = [ctx.pick(n, 1, 12) for n in 'ab']
    text = m.format_time_signature([Fraction(a, den, _normalize=False), Fraction(b, den, _normalize=False)])
    rows = [r.strip() for r in width_check(ctx, text)]
    ctx.check(len(rows) == 3 and set(rows[1]) == {'-'}, 'numerator over denominator')
    total = sum(int(v) for v in rows[0].split('+'))
    ctx.check(total == a + b and int(rows[2]) == den, 'signature shows the metre')


@harness('C58', quick=[{}])
def stacking(ctx):
    """Text blocks stand side by side on a common ground line."""
    m = ctx.mod('klang.music.note_formatting')
    blocks = []
    for i in range(3):
        w, h = ctx.pick('w%d' % i, 1, 3), ctx.pick('h%d' % i, 1, 3)
        blocks.append((w, h, '\n'.join(['abc'[i] * w] * h)))
    text = m.hstack(*[t for w, h, t in blocks])
    rows = width_check(ctx, text)
    height = max(h for w, h, t in blocks)
    ctx.check(m.text_size(text) == (sum(w for w, h, t in blocks), height), 'sizes add up')
    for y, row in enumerate(rows):
        want = ''.join(('abc'[i] if y >= height - h else ' ') * w for i, (w, h, t) in enumerate(blocks))
        ctx.check(row == want, 'blocks stand on the ground line')


@harness('C58', quick=grid(size=[2, 3, 4], explicit=[False, True]))
def tuplet_rows(ctx, size, explicit):
    """A bracket with the ratio above the notes of a tuplet."""
    from fractions import Fraction
    m = ctx.mod('klang.music.note_formatting')
    Tuplet = ctx.mod('klang.music.note_values').Tuplet
    num = ctx.pick('num', 2, 9)
    note = [Fraction(1, 4), Fraction(1, 8), Fraction(1, 16)][ctx.pick('note', 0, 2)]
    tuplet = Tuplet(num, size * [note])
    text = m.format_tuplet(tuplet, explicit)
    rows = width_check(ctx, text)
    ctx.check(len(rows) == 4, 'a bracket above three rows')
    bracket = rows[0]
    ctx.check(bracket[0] == '┌' and bracket[-1] == '┐' and set(bracket[1:-1]) <= set('─ :0123456789'), 'bracket over the notes')
    label = bracket.strip('┌┐─ ')
    short = not explicit and tuplet.num == tuplet.den + 1
    ctx.check(label == ('%d' % tuplet.num if short else '%d:%d' % (tuplet.num, tuplet.den)), 'ratio of the tuplet')
    ctx.check(len([c for c in rows[3] if c in '●○']) == size, 'one head per note')

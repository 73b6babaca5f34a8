"""C63: chord and scale notations."""
from symx.spec import harness, grid

MODULES = ['klang.scraping', 'klang.music.chords', 'klang.music.scales']
BOUNDS = ('pitch class lists of up to 4 (thorough 5) entries out of all twelve in any order and notation (plus lists of '
          '7 entries from a fourth each), degrees of up to 3 (thorough 4) entries with every accidental, tables of up to 3 rows with '
          'alternatives; every entry of the chord table')
OUTSIDE = 'downloading and parsing of the web page itself (requests, bs4: stand-ins for the table elements); entries glued without separator'


def write(ctx, k, pc):
    """Notation of a pitch class."""
    if pc < 10:
        return str(pc)
    return ['t', 'A', '10', 'e', 'B', '11'][3 * (pc - 10) + ctx.pick('notation%d' % k, 0, 2)]


def stacked(pcs):
    """Each note is the next one of its class above its predecessor."""
    out = pcs[:1]
    for pc in pcs[1:]:
        p = out[-1] + 1
        while (p - pc) % 12:
            p += 1
        out.append(p)
    return out


@harness('C63', quick=grid(n=[1, 2, 3], start=[0, 5]) + grid(n=[4], start=[0]), thorough=grid(n=[4], start=[1, 7]), timeout=90)
def chords(ctx, n, start):
    m = ctx.mod('klang.scraping')
    pcs = [start]
    for k in range(1, n):
        pc = ctx.pick('pc%d' % k, 0, 11)
        ctx.assume(pc != pcs[-1])
        pcs.append(pc)
    ctx.int('unused', 0, 1)
    text = ' '.join(write(ctx, k, pc) if n < 4 else '0123456789te'[pc] for k, pc in enumerate(pcs))
    got = list(m.pitch_classes_2_chord(text))
    ctx.check(got == stacked(pcs), 'each note is the next one above its predecessor', {'text': text})


@harness('C63', quick=[{}])
def tall_chords(ctx):
    """Chords over several octaves."""
    m = ctx.mod('klang.scraping')
    pcs = [[0, 1], [4, 3], [7, 8], [10, 11], [2, 1], [6, 9], [0, 5]]
    pcs = [p[ctx.pick('pc%d' % k, 0, 1)] for k, p in enumerate(pcs)]
    n = ctx.pick('n', 4, 7)
    text = ' '.join('0123456789te'[pc] for pc in pcs[:n])
    got = list(m.pitch_classes_2_chord(text))
    ctx.check(got == stacked(pcs[:n]), 'each note is the next one above its predecessor', {'text': text})


@harness('C63', quick=[{}])
def database(ctx):
    """Listed chords ascend and leave out no octave."""
    table = ctx.mod('klang.music.chords').CHORDS
    names = sorted(table)
    name = names[ctx.pick('k', 0, len(names) - 1)]
    chord = [int(p) for p in table[name]]
    ctx.check(len(chord) > 0 and 0 <= chord[0] < 12, 'chords start in the first octave', {'name': name})
    for a, b in zip(chord, chord[1:]):
        ctx.check(a < b <= a + 12, 'each note is the next one above its predecessor', {'name': name})


MAJOR = [0, 2, 4, 5, 7, 9, 11]
SIGNS = ['', '\u266f', '\u266d', '\u266e']


@harness('C63', quick=grid(n=[1, 2]), thorough=grid(n=[3]), timeout=120)
def degrees(ctx, n):
    m = ctx.mod('klang.scraping')
    parts, pitches = ['1'], [0]
    for k in range(1, n + 1):
        d = ctx.pick('d%d' % k, 2, 7)
        sign = ctx.pick('sign%d' % k, 0, 3)
        p = MAJOR[d - 1] + [0, 1, -1, 0][sign]
        ctx.assume(p > pitches[-1])
        ctx.assume(p < 12)
        parts.append(SIGNS[sign] + str(d))
        pitches.append(p)
    got = [int(x) for x in m.parse_degrees(' '.join(parts))]
    ctx.check(got == [b - a for a, b in zip(pitches, pitches[1:] + [12])], 'steps between the degrees', {'text': ' '.join(parts)})


class Cell:

    def __init__(self, text):
        self.text = self.string = text

    def get_text(self, strip=False):
        return self.text.strip() if strip else self.text


class Element:

    """Table, body or row."""

    def __init__(self, children, caption=None):
        self.children = children
        self.caption = Cell(caption) if caption is not None else None

    def find(self, tag):
        return self.children[0] if self.children else None

    def find_all(self, tag):
        return list(self.children)

    findAll = find_all

    @property
    def tbody(self):
        return self.find('tbody')

    def __call__(self, tag):
        return self.find_all(tag)


def page(rows, caption=None):
    return Element([Element([Element([Cell(' %s\n' % c) for c in row]) for row in rows])], caption)


CHORD_ROWS = [
    ('Major chord', '0 4 7', {'major chord': [0, 4, 7]}),
    ('Dominant ninth[2]', '0 4 7 t 2', {'dominant ninth': [0, 4, 7, 10, 14]}),
    ('Minor "quoted" (comment)', '0 3 7', {'minor quoted': [0, 3, 7]}),
    ('Left / Right', '0 5', {'left': [0, 5], 'right': [0, 5]}),
    ('This or that', '0 e', {'this': [0, 11], 'that': [0, 11]}),
    ('Two ways', '0 1 / 0 2', {'two ways': [0, 1], 'two ways 1': [0, 2]}),
    ('Two more', '0 1or0 2', {'two more': [0, 1], 'two more 1': [0, 2]}),
    ('Unknown', '0 4 x', {}),
    (None, None, {}),
]


@harness('C63', quick=grid(n=[1, 2, 3]), timeout=60)
def chord_table(ctx, n):
    m = ctx.mod('klang.scraping')
    rows, want = [], {}
    for k in range(n):
        name, data, entries = CHORD_ROWS[ctx.pick('row%d' % k, 0, len(CHORD_ROWS) - 1)]
        rows.append([] if name is None else [name, '', '', '', data, ''])
        want.update(entries)
    got = m.extract_chords(page(rows))
    ctx.check({k: [int(p) for p in v] for k, v in got.items()} == want, 'one entry per name and alternative')


SCALE_ROWS = [
    ('Ionian mode', '1 2 3 4 5 6 7', {'ionian mode': [2, 2, 1, 2, 2, 2, 1]}),
    ('Aeolian[3]', '1 2 \u266d3 4 5 \u266d6 \u266d7', {'aeolian': [2, 1, 2, 2, 1, 2, 2]}),
    ('Chromatic scale', 'whatever', {'chromatic scale': [1] * 12}),
    ('One or two', '1 5', {'one': [7, 5], 'two': [7, 5]}),
    ('Both', '1 4\n1 3', {'both': [5, 7], 'both 1': [4, 8]}),
    ('Quarter tone scale', '1 2', {}),
    ('Unknown', '\u2014', {}),
    ('More', '1 2 etc.', {}),
    (None, None, {}),
]


@harness('C63', quick=grid(n=[1, 2, 3]), timeout=60)
def scale_table(ctx, n):
    m = ctx.mod('klang.scraping')
    table = [r for r in SCALE_ROWS if r[2] is not None]
    rows, want = [], {}
    for k in range(n):
        name, data, entries = table[ctx.pick('row%d' % k, 0, len(table) - 1)]
        rows.append([] if name is None else [name, '', '', data, '', '', '', '', ''])
        want.update(entries)
    got = m.extract_scales(page(rows))
    ctx.check({k: [int(p) for p in v] for k, v in got.items()} == want, 'one entry per name and alternative')


@harness('C63', quick=[{}])
def captions(ctx):
    m = ctx.mod('klang.scraping')
    k = ctx.pick('k', 0, 3)
    names = [None, 'a', ' b ', 'a b']
    tables = [page([], c) for c in names]
    if k == 0:
        ctx.check(ctx.fails((ValueError,), lambda: m.find_table(tables, 'c')) is not None, 'an unknown caption raises')
    else:
        ctx.check(m.find_table(tables, names[k].strip()) is tables[k], 'the table of the caption')

"""C50: name lookup."""
from symx.spec import harness, grid

MODULES = ['klang.util', 'klang.music.intervals', 'klang.music.chords', 'klang.music.scales', 'klang.music.tunings']
BOUNDS = ('edit distance: all texts of 1..3 characters (thorough 4) with symbolic characters; lookup: names of 1..4 symbolic '
          'characters over a small alphabet in dictionaries of up to 4 keys; CSV texts with symbolic digits')
OUTSIDE = 'empty names; longer names'


def reference(ctx, a, b):
    """Edit distance by its definition."""
    if not len(a):
        return len(b)
    if not len(b):
        return len(a)
    sub = reference(ctx, a[1:], b[1:])
    return ctx.ite(a[0] == b[0], sub, 1 + ctx.min(sub, reference(ctx, a[1:], b), reference(ctx, a, b[1:])))


SIZES = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]


@harness('C50', quick=grid(size=SIZES), thorough=grid(size=[(4, 3), (3, 4), (4, 4)]), timeout=60)
def distance(ctx, size):
    m = ctx.mod('klang.util')
    a, b = ctx.text('a', size[0]), ctx.text('b', size[1])
    ctx.check(m.levenshtein(a, b) == reference(ctx, a, b), 'number of edits')


@harness('C50', quick=grid(size=[(1, 1), (2, 2), (3, 3), (2, 3)]))
def metric(ctx, size):
    m = ctx.mod('klang.util')
    a, b = ctx.text('a', size[0]), ctx.text('b', size[1])
    d = m.levenshtein(a, b)
    ctx.check((d == 0) == (a == b), 'zero exactly for equal texts')
    ctx.check(d == m.levenshtein(b, a), 'symmetric')
    ctx.check(m.levenshtein(a, a) == 0, 'zero for equal texts')


@harness('C50', quick=grid(size=[(1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 2)]), thorough=grid(size=[(3, 2, 3), (3, 3, 3)]), timeout=60)
def triangle(ctx, size):
    m = ctx.mod('klang.util')
    a, b, c = (ctx.text(n, k) for n, k in zip('abc', size))
    ctx.check(m.levenshtein(a, c) <= m.levenshtein(a, b) + m.levenshtein(b, c), 'triangle inequality')


KEYS = [('major', 'minor'), ('ab', 'abc', 'b'), ('aab', 'aba', 'bb', 'c'), ('a',)]


@harness('C50', quick=grid(keys=list(range(len(KEYS))), n=[1, 2, 3]), thorough=grid(keys=[1, 2], n=[4]))
def lookup(ctx, keys, n):
    m = ctx.mod('klang.util')
    keys = KEYS[keys]
    alphabet = 'majorn'[:4] if 'major' in keys else 'abc'
    dct = {k: object() for k in keys}
    name = ctx.text('name', n, alphabet)
    got = []
    err = ctx.fails((ValueError,), lambda: got.append(m.find_item(dct, name)))
    exact = [k for k in keys if len(k) == n and name == k]
    if exact:
        ctx.check(got and got[0] is dct[exact[0]], 'exact name gives its entry')
        return
    dist = {k: m.levenshtein(name, k, insertionCost=0) for k in keys}
    zero = [k for k in keys if dist[k] == 0]
    if len(zero) == 1:
        ctx.check(got and got[0] is dct[zero[0]], 'unique abbreviation gives its entry')
    else:
        ctx.check(err is not None, 'unknown or ambiguous names are refused')
        best = zero or [k for k in keys if all(dist[k] <= dist[o] for o in keys)]
        text = str(err)
        for k in keys:
            ctx.check((repr(k) in text) == (k in best), 'suggests exactly the closest names')


@harness('C50', quick=grid(key=['minor', 'abcd']))
def prefix(ctx, key):
    """Abbreviations are beginnings of names (letters may be left out later on)."""
    m = ctx.mod('klang.util')
    other = 'zzz'
    dct = {key: 1, other: 2}
    keep = [i for i in range(1, len(key)) if ctx.flag('keep%d' % i)]
    name = key[0] + ''.join(key[i] for i in keep)
    ctx.check(m.find_item(dct, name) == 1, 'abbreviation gives its entry')
    ctx.check(m.find_item(dct, 'z') == 2, 'abbreviation gives its entry')
    ctx.check(dct == {key: 1, other: 2}, 'lookup does not modify the data')


@harness('C50')
def csv(ctx):
    m = ctx.mod('klang.util')
    a, b = ctx.pick('a', -20, 20), ctx.pick('b', 0, 3)
    text = 'first,%d,%s\nsecond one,2.5,x\nlast,1/2' % (a, ['0', '7', '"y"', 'zz'][b])
    data = m.parse_music_data_from_csv(text if ctx.flag('text') else text.encode())
    ctx.check(data == {'first': [a, [0, 7, 'y', 'zz'][b]], 'second one': [2.5, 'x'], 'last': ['1/2']}, 'one entry per line')


@harness('C50')
def databases(ctx):
    """Names of the shipped intervals, chords and scales give their entries."""
    kind = ctx.choice('kind', ['interval', 'chord', 'scale', 'temperament'])
    if kind == 'interval':
        m = ctx.mod('klang.music.intervals')
        dct, find = m.INTERVALS, m.find_interval
    elif kind == 'chord':
        m = ctx.mod('klang.music.chords')
        dct, find = m.CHORDS, m.find_chord
    elif kind == 'scale':
        m = ctx.mod('klang.music.scales')
        dct, find = m.KNOWN_SCALES, lambda name: name and m.find_scale(name)
        dct = {k: m.ALL_POSSIBLE_SCALES[v] for k, v in dct.items()}
    else:
        m = ctx.mod('klang.music.tunings')
        dct, find = m.TEMPERAMENTS, m.find_temperament
    names = sorted(dct)
    name = names[ctx.pick('k', 0, len(names) - 1)]
    ctx.check(len(names) > 3, 'there are entries')
    got, want = find(name), dct[name]
    if kind == 'scale':
        ctx.check(list(got) == list(want), 'entry of that name')
    else:
        ctx.check(got is want, 'entry of that name')
    if name == names[0]:
        ctx.check(ctx.fails(ValueError, lambda: find('0#?')) is not None, 'unknown names are refused')


@harness('C50', quick=grid(n=[1, 2, 3]))
def suggestion(ctx, n):
    """Alternatives are listed in full, in their order."""
    m = ctx.mod('klang.util')
    name = ctx.choice('name', ['x', 'zq'])
    keys = ['aa', 'bb', 'cc'][:n]
    err = ctx.fails(ValueError, lambda: m.find_item(dict.fromkeys(keys), name))
    text = str(err)
    ctx.check(repr(name) in text, 'tells the name')
    at = [text.find(repr(k)) for k in keys]
    ctx.check(all(a >= 0 for a in at) and at == sorted(at), 'tells the alternatives')

"""C12: C comb / echo filters (LLVM IR of klang/audio/_filters.c)."""
from symx.spec import harness, grid

BOUNDS = ('delays 1..4, streams of up to 7 (quick) / 10 (thorough) samples in every split into chunks of any length '
          '(longer than the delay included); contiguous, strided, reversed, integer, list and tuple input; all samples '
          'and coefficients symbolic')
OUTSIDE = 'failing allocations; longer streams; concurrent use from several threads'
ASSUMPTIONS = ['the Python and numpy C API follow their documented contract (symx/llvm.py); the compiler is trusted']
NAMES = ['ForwardCombFilter', 'BackwardCombFilter', 'EchoFilter']
KINDS = ['list', 'tuple', 'ints', 'strided', 'reversed', 'offset', 'empty']
BAD = ['text', 'scalar', 'none', 'matrix', 'ragged', 'texts', 'object']


def recurrence(name, x, k, alpha):
    y = []
    for n, v in enumerate(x):
        xk = x[n - k] if n >= k else 0.
        yk = y[n - k] if n >= k else 0.
        y.append(v + alpha * xk if 'Forward' in name else v + alpha * yk if 'Backward' in name else xk + alpha * yk)
    return y


def create(ctx, name, *args, **kwargs):
    return getattr(ctx.mod('klang.audio._filters'), name)(*args, **kwargs)


@harness('C12', ext=True, quick=grid(name=NAMES, k=[1, 2, 3, 4], n=[6]) + grid(name=NAMES, k=[2], n=[7]),
         thorough=grid(name=NAMES, k=[1, 2, 3, 5, 8], n=[9]) + grid(name=NAMES, k=[4], n=[10]))
def stream(ctx, name, k, n):
    alpha = ctx.real('alpha')
    fil = create(ctx, name, k, alpha)
    xs = ctx.reals('x', n)
    want = recurrence(name, xs, k, alpha)
    pos, got, i = 0, [], 0
    while pos < n:
        size = ctx.pick('c%d' % i, 1, n - pos)
        chunk = ctx.np.array(xs[pos:pos + size])
        out = fil.filter(chunk)
        ctx.check(ctx.shape(out) == (size, ), 'one output sample per input sample')
        ctx.eq(chunk, ctx.np.array(xs[pos:pos + size]), 'the input chunk is not modified')
        got.append((pos, size, out))
        pos += size
        i += 1
    for pos, size, out in got:
        ctx.eq(out, ctx.np.array(want[pos:pos + size]), 'output follows the recurrence')
    ctx.observe('last', got[-1][2])


def samples(ctx, kind, xs):
    """Input of the given kind which holds xs."""
    np = ctx.np
    if kind == 'list':
        return list(xs)
    if kind == 'tuple':
        return tuple(xs)
    if kind == 'strided':
        other = ctx.reals('gap', len(xs) * 2)
        for i, v in enumerate(xs):
            other[2 * i] = v
        return np.array(other)[::2]
    if kind == 'reversed':
        return np.array(list(reversed(xs)))[::-1]
    if kind == 'offset':
        return np.array(ctx.reals('head', 2) + list(xs))[2:]
    if kind == 'column':
        rows = [[v, ctx.real('o%d' % i)] for i, v in enumerate(xs)]
        return np.array(rows)[:, 0]
    if kind == 'empty':
        return np.array([])
    raise KeyError(kind)


@harness('C12', ext=True, quick=grid(name=NAMES, kind=KINDS, k=[3]), thorough=grid(name=NAMES, kind=KINDS, k=[1, 2, 5]))
def layouts(ctx, name, kind, k):
    """Every way to pass the same samples gives the same output."""
    alpha = ctx.real('alpha')
    fil = create(ctx, name, k, alpha=alpha)
    pre = ctx.reals('p', 2)
    if kind == 'ints':
        xs = [ctx.pick('x%d' % i, -1, 1) for i in range(4)]
        data = ctx.np.array(xs)
        xs = [float(v) for v in xs]
    else:
        xs = [] if kind == 'empty' else ctx.reals('x', 4)
        data = samples(ctx, kind, xs)
    post = ctx.reals('q', 3)
    want = recurrence(name, pre + xs + post, k, alpha)
    fil.filter(ctx.np.array(pre))
    out = fil.filter(data)
    ctx.eq(out, ctx.np.array(want[2:2 + len(xs)]) if xs else ctx.np.array([]), 'output follows the recurrence')
    ctx.eq(fil.filter(ctx.np.array(post)), ctx.np.array(want[2 + len(xs):]), 'later output follows the recurrence')


def bad_input(ctx, kind):
    x = ctx.real('bad')
    return {'text': 'abc', 'scalar': x, 'none': None, 'matrix': ctx.np.array([[x, x], [x, x]]),
            'ragged': [[x, x], [x]], 'texts': ['a', 'b'], 'object': object()}[kind]


@harness('C12', ext=True, quick=grid(name=NAMES, kind=BAD))
def refused_input(ctx, name, kind):
    """What is not a one dimensional signal is refused and leaves the filter as it was."""
    alpha = ctx.real('alpha')
    fil = create(ctx, name, 2, alpha)
    xs = ctx.reals('x', 5)
    want = recurrence(name, xs, 2, alpha)
    fil.filter(ctx.np.array(xs[:3]))
    ctx.raises((ValueError, TypeError, RuntimeError), lambda: fil.filter(bad_input(ctx, kind)),
               'input which is no one dimensional signal raises')
    ctx.eq(fil.filter(ctx.np.array(xs[3:])), ctx.np.array(want[3:]), 'the filter goes on as before')


@harness('C12', ext=True, quick=grid(name=NAMES, length=[0, -1, -2**31, 60 * 44100 + 1, 2**31, 2**40, 2.5, 'a', None]))
def refused_length(ctx, name, length):
    """Delays which cannot be honoured are refused."""
    ctx.raises((ValueError, TypeError, RuntimeError, OverflowError), lambda: create(ctx, name, length, ctx.real('alpha')),
               'impossible delay raises')


@harness('C12', ext=True, quick=grid(name=NAMES))
def refused_alpha(ctx, name):
    for bad in ('x', [1.], None):
        ctx.raises((ValueError, TypeError, RuntimeError), lambda: create(ctx, name, 3, bad), 'bad coefficient raises')
    ctx.raises((ValueError, TypeError, RuntimeError), lambda: create(ctx, name), 'missing delay raises')
    fil = create(ctx, name, 3, ctx.real('alpha'))

    def assign():
        fil.alpha = 'x'
    ctx.raises((ValueError, TypeError), assign, 'bad coefficient raises')
    ctx.eq(fil.alpha, ctx.real('alpha2') * 0. + fil.alpha, 'coefficient is kept')


@harness('C12', ext=True, quick=grid(name=NAMES, k=[1, 3]))
def attributes(ctx, name, k):
    """Length and coefficient are read back; changes of the coefficient apply from the next sample."""
    a, b = ctx.real('a'), ctx.real('b')
    fil = create(ctx, name, k, a)
    ctx.check(fil.length == k, 'length is read back')
    ctx.eq(fil.alpha, a, 'coefficient is read back')
    ctx.eq(create(ctx, name, k).alpha, .9, 'default coefficient')
    other = create(ctx, name, k, ctx.real('other'))
    xs = ctx.reals('x', 6)
    y1 = fil.filter(ctx.np.array(xs[:3]))
    other.filter(ctx.np.array(ctx.reals('o', 4)))
    fil.alpha = b
    ctx.eq(fil.alpha, b, 'coefficient is read back')
    y2 = fil.filter(ctx.np.array(xs[3:]))
    y = []
    for n, v in enumerate(xs):
        g = a if n < 3 else b
        xk, yk = (xs[n - k], y[n - k]) if n >= k else (0., 0.)
        y.append(v + g * xk if 'Forward' in name else v + g * yk if 'Backward' in name else xk + None)\
            if 'Echo' not in name else y.append(None)
    if 'Echo' in name:
        line = [0.] * k
        for n, v in enumerate(xs):
            old = line[n % k]
            y[n] = old
            line[n % k] = v + (a if n < 3 else b) * old
    ctx.eq(y1, ctx.np.array(y[:3]), 'output with the first coefficient')
    ctx.eq(y2, ctx.np.array(y[3:]), 'output with the second coefficient')


@harness('C12', ext=True, quick=grid(name=NAMES, kind=['array', 'list', 'strided', 'ints', 'text', 'matrix', 'scalar']),
         timeout=60)
def references(ctx, name, kind):
    """A call leaves neither memory nor references behind."""
    fil = create(ctx, name, 3, ctx.real('alpha'))
    xs = ctx.reals('x', 4)
    if kind == 'array':
        make = lambda: ctx.np.array(xs)
    elif kind in ('list', 'strided'):
        data = samples(ctx, kind, xs)
        make = lambda: data
    elif kind == 'ints':
        make = lambda: ctx.np.array([1, 2, 3])
    else:
        ctx.real('bad')
        make = lambda: {'text': 'abc', 'scalar': 1.5, 'matrix': ctx.np.array([[1., 2.], [3., 4.]])}[kind]
    ctx.check(not ctx.leaks(lambda: fil.filter(make())), 'a filter call leaves nothing behind')


@harness('C12', ext=True, quick=grid(name=NAMES, length=[-1, 'a', 3]), timeout=60)
def construction(ctx, name, length):
    """Neither a refused nor a dropped filter leaves memory behind."""
    alpha = ctx.real('alpha')

    def make():
        ctx.drop(create(ctx, name, length, alpha))
    ctx.check(not ctx.leaks(make), 'construction leaves nothing behind')

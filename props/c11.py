"""C11: Python comb / echo filters."""
from symx.spec import harness, grid

MODULES = ['klang.audio.filters', 'klang.ring_buffer']
BOUNDS = ('delays k = 1..6, buffer size 4, streams of up to 8 (quick) / 10 (thorough) samples in every split into '
          'chunks no longer than min(k, buffer size); all coefficients and samples symbolic')
OUTSIDE = 'chunks longer than the delay or the buffer (documented as unsupported by the Python fallback)'
NAMES = ['PyForwardCombFilter', 'PyBackwardCombFilter', 'PyEchoFilter']


def recurrence(name, x, k, alpha):
    """Whole-stream reference."""
    y = []
    for n, v in enumerate(x):
        xk = x[n - k] if n >= k else 0.
        yk = y[n - k] if n >= k else 0.
        if 'Forward' in name:
            y.append(v + alpha * xk)
        elif 'Backward' in name:
            y.append(v + alpha * yk)
        else:
            y.append(xk + alpha * yk)
    return y


def run(ctx, fil, xs, k, label, want, size=4):
    """Feed the stream in arbitrary consecutive chunks."""
    pos, got, i = 0, [], 0
    while pos < len(xs):
        n = ctx.pick('%s%d' % (label, i), 1, min(k, size, len(xs) - pos))
        chunk = ctx.np.array(xs[pos:pos + n])
        out = fil.filter(chunk)
        ctx.check(len(out) == n, 'one output sample per input sample')
        ctx.eq(chunk, ctx.np.array(xs[pos:pos + n]), 'the input chunk is not modified')
        got.append((pos, n, out))
        pos += n
        i += 1
    # compare after the run: earlier outputs must not change under later calls
    for pos, n, out in got:
        ctx.eq(out, ctx.np.array(want[pos:pos + n]), 'output follows the recurrence')
    return got


@harness('C11', quick=grid(name=NAMES, k=[1, 2, 3], n=[6]) + grid(name=NAMES, k=[4], n=[8]) +
         grid(name=NAMES, k=[5], n=[7]),
         thorough=grid(name=NAMES, k=[1, 2, 3, 5, 6], n=[8]) + grid(name=NAMES, k=[4, 7], n=[10]))
def stream(ctx, name, k, n):
    cls = getattr(ctx.mod('klang.audio.filters'), name)
    alpha = ctx.real('alpha')
    fil = cls(k, alpha)
    xs = ctx.reals('x', n)
    got = run(ctx, fil, xs, k, 'c', recurrence(name, xs, k, alpha))
    ctx.observe('last', got[-1][2])


@harness('C11', quick=grid(name=NAMES, k=[3]), thorough=grid(name=NAMES, k=[2, 4]))
def independent_instances(ctx, name, k):
    """Two filters do not share their delay line; alpha can be changed while running."""
    cls = getattr(ctx.mod('klang.audio.filters'), name)
    a, b = cls(k, ctx.real('a1')), cls(k, ctx.real('a2'))
    xa, xb = ctx.reals('x', 2 * k), ctx.reals('y', 2 * k)
    wa, wb = recurrence(name, xa, k, a.alpha), recurrence(name, xb, k, b.alpha)
    for i in range(2):
        sl = slice(i * k, (i + 1) * k)
        ctx.eq(a.filter(ctx.np.array(xa[sl])), ctx.np.array(wa[sl]), 'first filter')
        ctx.eq(b.filter(ctx.np.array(xb[sl])), ctx.np.array(wb[sl]), 'second filter')


@harness('C11', quick=[{}])
def fallback(ctx):
    """Without the extension the public names are the Python filters."""
    m = ctx.mod('klang.audio.filters')
    for name in ('ForwardCombFilter', 'BackwardCombFilter', 'EchoFilter'):
        fil = getattr(m, name)(2, .5)
        x = ctx.reals('%s' % name[0], 2)
        fil.filter(ctx.np.array(x))
        y = ctx.reals('%s_' % name[0], 2)
        ctx.eq(fil.filter(ctx.np.array(y)), ctx.np.array(recurrence(name, x + y, 2, .5)[2:]),
               'default filter follows its recurrence')

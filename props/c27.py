"""C27: digital filters."""
from symx.spec import harness, grid

MODULES = ['klang.audio.effects']
BOUNDS = ('filters of order 1 and 2 with designs that depend on the frequency, buffer sizes 1..4, 3 buffers, mono, '
          'stereo and input that changes between both, all samples symbolic in [-4, 4]; cutoff symbolic inside windows at both ends, inside and beyond the table '
          '(20 Hz..20 kHz, 1000 entries); one pole design for every positive frequency')
OUTSIDE = 'the design functions of scipy themselves; filters of order above 2'


def design(N, btype, Wn):
    """Stands for a scipy design function (any stable looking one will do)."""
    Wn = round(Wn, 3)
    if N == 1:
        return [Wn, .5], [1., -.5 * Wn]
    return [Wn, .25, .125], [1., -.5 * Wn, .25]


def table(ctx):
    import math
    return [2. ** (math.log2(20.) + i * (math.log2(20000.) - math.log2(20.)) / 999) for i in range(1000)]


def nyquist(ctx):
    return ctx.mod('klang.config').SAMPLING_RATE / 2.


def designed(ctx, freq, N):
    """Smallest table frequency not below the wanted one, clamped to the table."""
    t = table(ctx)
    for f in t:
        if f >= freq * (1. - 1e-12):
            return design(N, 'lowpass', f / nyquist(ctx))
    return design(N, 'lowpass', t[-1] / nyquist(ctx))


class Line:

    """Reference filter, one sample at a time (transposed direct form)."""

    def __init__(self, n):
        self.z = [0.] * n

    def step(self, coeffs, x):
        b, a = coeffs
        y = b[0] * x + self.z[0]
        for i in range(len(self.z)):
            nxt = self.z[i + 1] if i + 1 < len(self.z) else 0.
            self.z[i] = nxt + b[i + 1] * x - a[i + 1] * y
        return y


@harness('C27', quick=grid(buffer_=[1, 2, 4], N=[1, 2], stereo=[False, True]) +
         grid(buffer_=[2], N=[1, 2], stereo=['switched']), timeout=60)
def streams(ctx, N, stereo):
    m = ctx.mod('klang.audio.effects')
    size = ctx.mod('klang.config').BUFFER_SIZE
    freqs = [ctx.choice('f%d' % b, [440., 1000.]) for b in range(3)]
    fil = m.Filter(frequency=freqs[0], design_func=design, N=N)
    other = m.Filter(frequency=300., design_func=design, N=N)
    src = ctx.mod('klang.block').Block(0, 1)
    src.output.connect(fil.input)
    src.output.connect(other.input)
    modulated = ctx.flag('modulated')
    if modulated:
        knob = ctx.mod('klang.block').Block(0, 1)
        knob.output.connect(fil.frequency)
    lines = [Line(N), Line(N)]
    switched = stereo == 'switched'
    for b in range(3):
        if switched:
            stereo = ctx.flag('stereo%d' % b)
        x = ctx.array('x%d_' % b, (2, size) if stereo else size, -4., 4.)
        src.output.set_value(x)
        keep = x.copy()
        (knob.output if modulated else fil.frequency).set_value(freqs[b])
        if ctx.symbolic or b != 1:
            other.update()
        fil.update()
        out = fil.output.value
        ctx.check(ctx.shape(out) == ctx.shape(keep), 'same shape')
        co = designed(ctx, freqs[b], N)
        for c in range(2 if stereo else 1):
            for i in range(size):
                o, s = (out[c][i], keep[c][i]) if stereo else (out[i], keep[i])
                ctx.eq(o, lines[c].step(co, s), 'stream is filtered as a whole', tol=1e-7)
        ctx.eq(src.output.value, keep, 'input buffer is untouched')


@harness('C27', buffer=4, quick=grid(window=['low', 'first', 'inside', 'last', 'high']), timeout=60)
def lookup(ctx, window):
    """Coefficients belong to the smallest table frequency not below the cutoff."""
    m = ctx.mod('klang.audio.effects')
    t = table(ctx)
    lo, hi = {'low': (-5., 19.), 'first': (19.9, 20.5), 'inside': (440., 460.), 'last': (19700., 19999.),
              'high': (20001., 30000.)}[window]
    f = ctx.real('f', lo, hi)
    for x in t:
        if lo <= x <= hi:       # rounding of the table
            ctx.assume(ctx.Or(f < x * (1. - 1e-9), f > x * (1. + 1e-9)))
    fil = m.Filter(frequency=f, design_func=lambda N, btype, Wn: ([Wn], [1.]), N=1)
    src = ctx.mod('klang.block').Block(0, 1)
    src.output.set_value(ctx.np.array([1., 0., 0., 0.]))
    src.output.connect(fil.input)
    fil.update()
    got = fil.output.value[0] * nyquist(ctx)
    if window == 'low':
        ctx.eq(got, t[0], 'clamped to the lowest entry', tol=1e-6)
    elif window == 'high':
        ctx.eq(got, t[-1], 'clamped to the highest entry', tol=1e-6)
    else:
        ctx.check(got >= f - 1e-6 * 20000., 'table frequency is not below the cutoff')
        ctx.check(ctx.Or(got / f <= (t[1] / t[0]) * (1. + 1e-6), abs(got - t[0]) < 1e-6), 'next table entry')


@harness('C27', quick=[{}], timeout=60)
def table_entry(ctx):
    """A frequency of the table has its own design."""
    m = ctx.mod('klang.audio.effects')
    c = m.FilterCoefficients(lambda Wn: ([Wn], [1.]))
    freqs = getattr(c, 'frequencies', [])
    k = ctx.pick('k', 0, 9)
    if len(freqs) > 1:
        i = k * (len(freqs) - 1) // 9
        (got,), _ = c.get_coefficients(freqs[i])
        ctx.eq(got * nyquist(ctx), freqs[i], 'a table frequency is not below itself', tol=1e-6)


@harness('C27', quick=[{}])
def one_pole(ctx):
    m = ctx.mod('klang.audio.effects')
    f = ctx.real('f', 0., 100000., lo_open=True)
    b, a = m.low_pass_coefficients(f)
    ctx.check(len(b) == 1 and len(a) == 2, 'one pole')
    ctx.eq(a[0], 1., 'normalised')
    ctx.eq(b[0] / (1. + a[1]), 1., 'unity gain for constant signals', tol=1e-6)
    ctx.check(ctx.And(a[1] < 0., a[1] > -1.), 'stable, no overshoot')
    g = ctx.real('g', 0., 100000., lo_open=True)
    ctx.assume(g < f)
    ctx.check(m.low_pass_coefficients(g)[1][1] < a[1], 'a lower cutoff is smoother')


@harness('C27', quick=[{}])
def one_pole_limits(ctx):
    m = ctx.mod('klang.audio.effects')
    b, a = m.low_pass_coefficients(0.)
    ctx.eq([list(b), list(a)], [[0.], [1., -1.]], 'zero cutoff holds its state')
    b, a = m.low_pass_coefficients(float('inf'))
    ctx.eq([b[0], a[0], a[1]], [1., 1., 0.], 'infinite cutoff passes everything')

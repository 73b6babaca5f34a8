"""C24: memoryless effects."""
from symx.spec import harness, grid

MODULES = ['klang.audio.effects', 'klang.math']
BOUNDS = ('buffer size 4 (sub sampling: 4, 8, 16), all samples, gains, scales, offsets and limits symbolic, mono and stereo input, one and two '
          'updates; all valid sub sampling factors of the buffer size')
OUTSIDE = 'the resampling inside of the pitch shifter (samplerate: a stand-in); exact values of tanh (its sign, symmetry, bound and monotony are covered)'


def source(ctx, block, name, stereo=False):
    size = ctx.mod('klang.config').BUFFER_SIZE
    x = ctx.array(name, (2, size) if stereo else size)
    src = ctx.mod('klang.block').Block(0, 1)
    src.output.set_value(x)
    src.output.connect(block.input)
    return src, x, x.copy()


@harness('C24', quick=grid(kind=['gain', 'transformer', 'octave'], stereo=[False, True]))
def formulas(ctx, kind, stereo):
    m = ctx.mod('klang.audio.effects')
    a, b = ctx.real('a'), ctx.real('b')
    if kind == 'gain':
        fx = m.Gain(a)
        if ctx.flag('modulated'):
            g = ctx.mod('klang.block').Block(0, 1)
            g.output.set_value(b)
            g.output.connect(fx.gain)
            a = b
        fn = lambda x: a * x
    elif kind == 'transformer':
        fx, fn = m.Transformer(a, b), lambda x: a * x + b
    else:
        fx, fn = m.OctaveDistortion(), lambda x: 2. * (x * x) - 1.
    src, x, x0 = source(ctx, fx, 'x', stereo)
    fx.update()
    out = fx.output.value
    ctx.eq(out, fn(x0), 'documented function of the input')
    ctx.eq(src.output.value, x0, 'input buffer is untouched')
    ctx.observe('out', out)
    y = ctx.array('y', len(x[0]) if stereo else len(x))
    src.output.set_value(y)
    fx.update()
    ctx.eq(fx.output.value, fn(y), 'no memory of earlier buffers')
    ctx.eq(out, fn(x0), 'earlier output is not overwritten')


@harness('C24', quick=grid(kind=['limits', 'limits2', 'ranges']))
def transformer_ranges(ctx, kind):
    m = ctx.mod('klang.audio.effects')
    lo, hi = ctx.real('lo'), ctx.real('hi')
    a, b = {'limits': (0., 1.), 'limits2': (-1., 1.), 'ranges': (None, None)}[kind]
    if kind == 'ranges':
        a, b = ctx.choice('x', [(0., 1.), (-1., 1.), (2., 10.), (5., -3.), (0., 127.)])
        fx = m.Transformer.from_ranges((a, b), (lo, hi))
    else:
        ctx.assume(lo < hi)
        fx = (m.Transformer.from_limits if kind == 'limits' else m.Transformer.from_limits_2)(lo, hi)
    w = ctx.real('w', 0., 1.)
    vals = [a, b, (1. - w) * a + w * b, a]
    src, x, x0 = source(ctx, fx, 'unused')
    src.output.set_value(ctx.np.array(vals))
    fx.update()
    out = fx.output.value
    ctx.eq(out[0], lo, 'start of the range', tol=1e-6)
    ctx.eq(out[1], hi, 'end of the range', tol=1e-6)
    ctx.eq(out[2], (1. - w) * lo + w * hi, 'linear in between', tol=1e-6)


@harness('C24', quick=grid(kind=['limits', 'limits2']))
def wrong_limits(ctx, kind):
    """A lower limit which is not below the upper one is refused; ranges start from 0..1."""
    m = ctx.mod('klang.audio.effects')
    lo, hi = ctx.real('lo', -10., 10.), ctx.real('hi', -10., 10.)
    make = m.Transformer.from_limits if kind == 'limits' else m.Transformer.from_limits_2
    err = ctx.fails((AssertionError, ValueError), lambda: make(lo, hi))
    ctx.check((err is not None) == (lo >= hi), 'limits in their order')
    fx = m.Transformer.from_ranges(yRange=(lo, hi))
    src, x, x0 = source(ctx, fx, 'unused')
    src.output.set_value(ctx.np.array([0., 1., .5, 0.]))
    fx.update()
    for got, want in zip(fx.output.value, [lo, hi, .5 * (lo + hi), lo]):
        ctx.eq(got, want, 'from 0..1 by default', tol=1e-6)
    fx = m.Transformer.from_ranges((2., 4.))
    src, x, x0 = source(ctx, fx, 'other')
    fx.update()
    for got, v in zip(fx.output.value, x0):
        ctx.eq(got, .5 * (v - 2.), 'to 0..1 by default', tol=1e-6)


class Recorded:

    """Stand-in for the sample rate converter: remembers its settings, asks its callback as often as it has to and
    repeats or skips frames according to its ratio."""

    made = []

    def __init__(self, callback, ratio, converter_type='sinc_best', channels=1):
        self.callback, self.ratio, self.channels, self.converter = callback, ratio, channels, converter_type
        self.frames = []
        self.pos = 0
        type(self).made.append(self)

    def set_starting_ratio(self, ratio):
        self.ratio = ratio

    def reset(self):
        del self.frames[:]
        self.pos = 0

    def read(self, n):
        while (self.pos + n - 1) / self.ratio >= len(self.frames):
            block = self.callback()
            if not len(block):
                break
            self.frames.extend(block)
        out = []
        for _ in range(n):
            k = int(self.pos / self.ratio)
            if k >= len(self.frames):
                break
            out.append(self.frames[k])
            self.pos += 1
        return self.ctx_array(out)


@harness('C24', quick=grid(shift=[.5, 1., 2.]))
def pitch_shifter(ctx, shift):
    """The windowed signal is resampled by 1 / shift and mixed with the dry one."""
    m = ctx.mod('klang.audio.effects')

    class Resampler(Recorded):
        made = []
        ctx_array = staticmethod(ctx.np.array)

    ctx.patch(m.samplerate, 'CallbackResampler', Resampler)
    mix = ctx.real('mix', 0., 1.)
    fx = m.PitchShifter(shift, mix)
    if len(Resampler.made) != 1:
        return          # another converter
    ctx.eq(Resampler.made[0].ratio, 1. / shift, 'faster playback for higher pitch')
    ctx.check(Resampler.made[0].channels == 1, 'mono')
    N = 4
    fed, read = [], 0
    src = None
    for b in range(3):
        x = ctx.array('x%d_' % b, N)
        if src is None:
            src = source(ctx, fx, 'unused')[0]
        src.output.set_value(x)
        keep = x.copy()
        fx.update()
        while (read + N - 1) * shift >= len(fed):
            fed.extend(keep * fx.WINDOW)
        y = fx.output.value
        ctx.check(ctx.shape(y) == (N,), 'one buffer')
        for i in range(N):
            ctx.eq(y[i], (1. - mix) * keep[i] + mix * fed[int((read + i) * shift)], 'mix of dry and shifted signal', tol=1e-9)
        read += N
        ctx.eq(src.output.value, keep, 'input buffer is untouched')
    for i in range(1, N - 1):
        ctx.check(0. < float(fx.WINDOW[i]) <= 1., 'window')


@harness('C24', buffer=4, quick=grid(buffer_=[4, 8, 16], stereo=[False, True]))
def subsampler(ctx, stereo):
    buffer_ = ctx.mod('klang.config').BUFFER_SIZE
    m = ctx.mod('klang.audio.effects')
    factors = [2 ** k for k in range(1, 4) if 2 ** k < buffer_]
    ctx.check(set(m.Subsampler.VALID_FACTORS) == set(factors), 'powers of two below the buffer size')
    n = ctx.choice('factor', factors)
    fx = m.Subsampler(n)
    src, x, x0 = source(ctx, fx, 'x', stereo)
    fx.update()
    out = fx.output.value
    ctx.check(ctx.shape(out) == ctx.shape(x0), 'same shape')
    for c in range(2 if stereo else 1):
        for i in range(buffer_):
            o, s = (out[c], x0[c]) if stereo else (out, x0)
            ctx.eq(o[i], s[i - i % n], 'every sample repeats the first one of its group')
    ctx.eq(src.output.value, x0, 'input buffer is untouched')
    bad = ctx.choice('bad', [0, 1, 3, 6, -2, 32])
    ctx.raises((AssertionError, ValueError), m.Subsampler, 'other factors are refused', bad)


@harness('C24', quick=[{}])
def tanh(ctx):
    m = ctx.mod('klang.audio.effects')
    drive = ctx.choice('drive', [0., .5, 1., 10.])
    fx = m.TanhDistortion(drive)
    src, x, x0 = source(ctx, fx, 'x')
    fx.update()
    y = fx.output.value
    for i in range(4):
        ctx.check(ctx.And(y[i] <= 1., y[i] >= -1.), 'bounded')
        ctx.check(ctx.implies(x0[i] >= 0., ctx.And(y[i] >= 0., y[i] <= drive * x0[i] + 1e-9)), 'keeps the sign, compresses')
        ctx.check(ctx.implies(x0[i] <= 0., ctx.And(y[i] <= 0., y[i] >= drive * x0[i] - 1e-9)), 'keeps the sign, compresses')
    ctx.check(ctx.implies(x0[0] <= x0[1], y[0] <= y[1]), 'monotone')
    ctx.check(ctx.implies(x0[2] + x0[3] == 0., abs(y[2] + y[3]) < 1e-9), 'odd')
    ctx.eq(src.output.value, x0, 'input buffer is untouched')


@harness('C24', quick=[{}])
def tanh_drive(ctx):
    """The drive scales the input before the curve."""
    m = ctx.mod('klang.audio.effects')
    a = ctx.choice('a', [.5, 2., 4.])
    one, two = m.TanhDistortion(1.), m.TanhDistortion(a)
    src, x, x0 = source(ctx, one, 'x')
    src2 = ctx.mod('klang.block').Block(0, 1)
    src2.output.set_value(x0 / a)
    src2.output.connect(two.input)
    one.update()
    two.update()
    ctx.eq(one.output.value, two.output.value, 'drive is a gain before the curve')


@harness('C24', quick=grid(n=[1, 2, 3], stereo=[False, True]))
def splitter(ctx, n, stereo):
    m = ctx.mod('klang.audio.effects')
    fx = m.AudioSplitter(n)
    src, x, x0 = source(ctx, fx, 'x', stereo)
    fx.update()
    for c in range(n):
        if not stereo:
            ctx.eq(fx.outputs[c].value, x0, 'mono goes to every output')
        elif c < 2:
            ctx.eq(fx.outputs[c].value, x0[c], 'channel goes to its own output')
        else:
            ctx.eq(fx.outputs[c].value, 0., 'surplus outputs stay silent')
    ctx.eq(src.output.value, x0, 'input buffer is untouched')


@harness('C24', quick=grid(n=[1, 2, 3]))
def combiner(ctx, n):
    m = ctx.mod('klang.audio.effects')
    Block = ctx.mod('klang.block').Block
    fx = m.AudioCombiner(n)
    other = m.AudioCombiner(n)
    srcs = []
    for c in range(n):
        src = Block(0, 1)
        src.output.connect(fx.inputs[c])
        srcs.append(src)
    for turn in range(2):
        want = []
        for c, src in enumerate(srcs):
            kind = ctx.choice('kind%d_%d' % (turn, c), ['mono', 'scalar'])
            x = ctx.array('x%d_%d_' % (turn, c), 4) if kind == 'mono' else ctx.real('s%d_%d' % (turn, c))
            src.output.set_value(x)
            want.append((x, x.copy() if kind == 'mono' else x))
        fx.update()
        out = fx.output.value
        ctx.check(ctx.shape(out) == (n, 4), 'one row per input')
        for c in range(n):
            for i in range(4):
                w = want[c][1]
                ctx.eq(out[c][i], w[i] if hasattr(w, 'shape') and ctx.shape(w) == (4,) else w, 'row carries its input')
            ctx.eq(srcs[c].output.value, want[c][1], 'input buffer is untouched')
    ctx.eq(other.output.value, ctx.np.zeros((n, 4)), 'other combiners are not affected')
    ctx.eq(ctx.mod('klang.audio.helpers').get_silence((n, 4)), ctx.np.zeros((n, 4)), 'silence stays silent')

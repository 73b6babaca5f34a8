"""C23: sample formats."""
from symx.spec import harness, grid

MODULES = ['klang.audio.wavfile', 'klang.audio.effects']
BOUNDS = 'all 8, 16 and 32 bit integers, all floats in [-1, 1] (symbolic), all bit depths 0..15, files of up to 3 frames and 2 channels'
OUTSIDE = 'floats outside [-1, 1]; the RIFF container (a recording stand-in in the symbolic run, real files in the replays)'
ASSUMPTIONS = ['the wave and scipy.io.wavfile modules store and return 16 bit frames as they are']


@harness('C23', quick=grid(bits=[8, 16, 32]))
def to_float(ctx, bits):
    m = ctx.mod('klang.audio.wavfile')
    full = 2 ** (bits - 1)
    xs = ctx.ints('x', 3, -full, full - 1)
    a = ctx.np.array(xs).astype('int%d' % bits)
    out = m.convert_samples_to_float(a)
    for x, y in zip(xs, ctx.flat(out)):
        ctx.eq(y, x / full, 'full scale is one')
        ctx.check(ctx.And(y >= -1, y < 1), 'within [-1, 1)')
    for x, y in zip(xs, ctx.flat(a)):
        ctx.check(x == y, 'input unchanged')
    ctx.check(ctx.fails((ValueError,), lambda: m.convert_samples_to_float(out)) is not None, 'floats are refused')


@harness('C23', quick=grid(bits=[8, 16, 32]))
def to_int(ctx, bits):
    m = ctx.mod('klang.audio.wavfile')
    top = 2 ** (bits - 1) - 1
    xs = ctx.reals('x', 2, -1., 1.)
    a = ctx.np.array(xs)
    out = m.convert_samples_to_int(a, 'int%d' % bits) if bits != 16 else m.convert_samples_to_int(a)
    ctx.check(str(out.dtype) == 'int%d' % bits, 'integer samples')
    for x, y in zip(xs, ctx.flat(out)):
        ctx.check(ctx.And(y - top * x < 1 + 1e-6, top * x - y < 1 + 1e-6), 'nearest steps')
        ctx.check(ctx.And(y <= top, -top <= y), 'within range')
    y0, y1 = ctx.flat(out)
    ctx.check(ctx.implies(xs[0] <= xs[1], y0 <= y1), 'order is kept')
    ends = m.convert_samples_to_int(ctx.np.array([-1., 0., 1.]), 'int%d' % bits)
    ctx.check([int(v) for v in ctx.flat(ends)] == [-top, 0, top], 'full scale')
    ctx.check(ctx.fails((ValueError,), lambda: m.convert_samples_to_int(out)) is not None, 'integers are refused')


@harness('C23', quick=[{}])
def there_and_back(ctx):
    m = ctx.mod('klang.audio.wavfile')
    x = ctx.int('x', -2 ** 15, 2 ** 15 - 1)
    y = ctx.flat(m.convert_samples_to_int(m.convert_samples_to_float(ctx.np.array([x]).astype('int16'))))[0]
    ctx.check(ctx.And(y - x <= 1, x - y <= 1), 'no sample moves by more than one step')


@harness('C23', quick=grid(channels=[1, 2]), timeout=60)
def write_file(ctx, channels):
    """Files hold the normalised signal."""
    m = ctx.mod('klang.audio.wavfile')
    n = channels + 1
    rows = [[ctx.real('x%d_%d' % (t, c), -1., 1.) for c in range(channels)] for t in range(n)]
    scale = ctx.choice('peak', [1., .5, 4.])
    at = ctx.pick('at', 0, n - 1)
    rows[at][0] = ctx.choice('sign', [1., -1.])
    path = ctx.wav_path()
    m.write_wave(ctx.np.array(rows) * scale, path, *ctx.choice('rate', [(), (8000,)]))
    rate, got = ctx.wav_read(path)
    ctx.check(rate in (8000, ctx.mod('klang.config').SAMPLING_RATE), 'sampling rate')
    ctx.check(len(got) == n and all(len(r) == channels for r in got), 'all frames and channels')
    for t in range(n):
        for c in range(channels):
            d = got[t][c] - 32767 * rows[t][c]
            ctx.check(ctx.And(d < 1 + 1e-6, -d < 1 + 1e-6), 'signal scaled to full scale')
    rate2, data = m.load_wave(path)
    ctx.check(rate2 == rate, 'rate is read back')
    ctx.check(ctx.shape(data) == (n, channels), 'shape is read back')
    for t in range(n):
        for c in range(channels):
            ctx.eq(data[t, c], got[t][c] / 32768, 'samples are read back')


@harness('C23', quick=grid(channels=[1, 2]))
def read_file(ctx, channels):
    m = ctx.mod('klang.audio.wavfile')
    frames = [[ctx.int('x%d_%d' % (t, c), -2 ** 15, 2 ** 15 - 1) for c in range(channels)] for t in range(3)]
    rate, data = m.load_wave(ctx.wav_make('in.wav', 22050, frames))
    ctx.check(rate == 22050, 'rate')
    ctx.check(ctx.shape(data) == (3, channels), 'one row per frame')
    for t in range(3):
        for c in range(channels):
            ctx.eq(data[t, c], frames[t][c] / 32768, 'samples in order')


@harness('C23', quick=grid(bits=list(range(0, 16, 3)) + [1, 8, 15]), thorough=grid(bits=range(16)))
def crush(ctx, bits):
    m = ctx.mod('klang.audio.effects')
    N = ctx.mod('klang.config').BUFFER_SIZE
    b = m.Bitcrusher(bits)
    x = ctx.array('x', N, -1., 1.)
    b.input.set_value(x)
    b.update()
    out = b.output.value
    step = 2 ** bits
    for i in range(N):
        k = out[i] * 32768
        d = 32767 * x[i] - k
        ctx.check(ctx.And(d < step + 1 + 1e-6, -d < 1 + 1e-6), 'no sample moves further than a quantisation step')
        v = 32767 * x[i]
        s = ctx.ite(v >= 0, ctx.floor(v), -ctx.floor(-v))
        ctx.eq(k, step * ctx.floor(s / step), 'samples lie on the coarse grid below')
        ctx.check(ctx.And(out[i] >= -1, out[i] <= 1), 'within range')
    ctx.eq(ctx.flat(b.input.value), ctx.flat(x), 'input untouched')


@harness('C23', quick=[{}])
def depth(ctx):
    m = ctx.mod('klang.audio.effects')
    n = ctx.int('n', -5, 20)
    ok = ctx.fails((AssertionError, ValueError), lambda: m.Bitcrusher(n)) is None
    ctx.check(ok == ctx.And(n >= 0, n < 16), 'bit depths 0..15')

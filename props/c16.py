"""C16: delay effect."""
from symx.spec import harness, grid

MODULES = ['klang.audio.effects']
BOUNDS = ('buffer size 2..4, delays of 1, 1 1/2, 2 and 2 1/2 buffers, 4 buffers of symbolic samples, all feedback '
          'and mix values, mono and stereo input; delay time validation for all real times up to 10 s and all '
          'note values')
OUTSIDE = 'delay times shorter than one audio buffer'


def echo(xs, length, feedback):
    """What comes out of a feedback delay line of this length."""
    line = [0.] * length
    ret = []
    for x in xs:
        old = line.pop(0)
        ret.append(old)
        line.append(x + feedback * old)
    return ret


def seconds(ctx, length):
    """A delay time of that many samples."""
    return (length + .25) / ctx.mod('klang.config').SAMPLING_RATE


@harness('C16', buffer=4, quick=grid(length=[4, 5, 6, 8, 10], nBuffers=[4]) +
         grid(length=[2, 3, 5], nBuffers=[4], buffer_=[2]),
         thorough=grid(length=[4, 7, 9, 12], nBuffers=[5]))
def mono(ctx, length, nBuffers):
    effects = ctx.mod('klang.audio.effects')
    size = ctx.mod('klang.config').BUFFER_SIZE
    fb, mix = ctx.real('feedback'), ctx.real('mix')
    delay = effects.Delay(seconds(ctx, length), feedback=fb, drywet=mix)
    xs = ctx.reals('x', nBuffers * size)
    wet = echo(xs, length, fb)
    outs = []
    for b in range(nBuffers):
        sl = slice(b * size, (b + 1) * size)
        buf = ctx.np.array(xs[sl])
        delay.input.set_value(buf)
        delay.update()
        ctx.eq(buf, ctx.np.array(xs[sl]), 'input buffer is untouched')
        outs.append((sl, delay.output.value))
    for sl, out in outs:
        want = [(1 - mix) * x + mix * w for x, w in zip(xs[sl], wet[sl])]
        ctx.eq(out, ctx.np.array(want), 'output blends input and delayed signal')
    ctx.observe('last', outs[-1][1])


@harness('C16', buffer=2, quick=grid(length=[2, 3], n=[1, 2, 3]), thorough=grid(length=[2, 5], n=[4, 6]))
def multi_channel(ctx, length, n):
    """Multi channel input is mixed down (mean)."""
    effects = ctx.mod('klang.audio.effects')
    fb, mix = ctx.real('feedback'), ctx.real('mix')
    delay = effects.Delay(seconds(ctx, length), feedback=fb, drywet=mix)
    chs = [ctx.reals('c%d_' % i, 6) for i in range(n)]
    xs = [sum(col) / n for col in zip(*chs)]
    wet = echo(xs, length, fb)
    for b in range(3):
        sl = slice(2 * b, 2 * b + 2)
        delay.input.set_value(ctx.np.array([c[sl] for c in chs]))
        delay.update()
        ctx.eq(delay.output.value, ctx.np.array([(1 - mix) * x + mix * w for x, w in zip(xs[sl], wet[sl])]),
               'mean of the channels gets delayed')


@harness('C16', buffer=2, quick=[{}])
def stereo_delay(ctx):
    """StereoDelay delays each channel on its own."""
    effects = ctx.mod('klang.audio.effects')
    fl, fr, mix = ctx.real('fl'), ctx.real('fr'), ctx.real('mix')
    delay = effects.StereoDelay(seconds(ctx, 2), seconds(ctx, 3), fl, fr, mix)
    Block = ctx.mod('klang.block').Block
    src, dst = Block(0, 1), Block(1, 0)
    src | delay | dst
    l, r = ctx.reals('l', 6), ctx.reals('r', 6)
    wl, wr = echo(l, 2, fl), echo(r, 3, fr)
    for b in range(3):
        sl = slice(2 * b, 2 * b + 2)
        src.output.set_value(ctx.np.array([l[sl], r[sl]]))
        delay.update()
        want = [[(1 - mix) * x + mix * w for x, w in zip(l[sl], wl[sl])],
                [(1 - mix) * x + mix * w for x, w in zip(r[sl], wr[sl])]]
        ctx.eq(dst.input.value, ctx.np.array(want), 'each channel has its own delay')


@harness('C16', buffer=4, quick=grid(kind=['seconds', 'note', 'named']))
def refused(ctx, kind):
    """Delay times above the maximum raise, all others build a working delay."""
    effects = ctx.mod('klang.audio.effects')
    Delay = effects.Delay
    if kind == 'seconds':
        t = ctx.pick('t', 1, 40) * .125
        period = t
    elif kind == 'note':
        t = ctx.mod('klang.music.tempo').compute_duration
        num, den = ctx.pick('num', 1, 9), ctx.choice('den', [1, 2, 4, 16])
        from fractions import Fraction
        note = Fraction(num, den)
        period = t(note)
        t = note
    else:
        nv = ctx.mod('klang.music.note_values')
        t = ctx.choice('name', [nv.WHOLE_NOTE, nv.QUARTER_NOTE, nv.SIXTEENTH_NOTE])
        period = ctx.mod('klang.music.tempo').compute_duration(t)
    err = ctx.fails(ValueError, Delay, t)
    ctx.check((err is not None) == (period > Delay.MAX_TIME), 'refused exactly above the maximum',
              {'time': str(t), 'seconds': str(period)})

"""C28: modulated effects."""
import math

from symx.spec import harness, grid

MODULES = ['klang.audio.effects']
BOUNDS = ('buffer size 4, 2 buffers, signal / depth / mix / amount symbolic, rates, duty cycles and smoothness from '
          'small sets; ring modulator with an arbitrary wave (all lfo samples within [-1, 1])')
OUTSIDE = 'continuous smoothness values (the low pass coefficient is transcendental in them)'


def feed(ctx, block, x):
    src = ctx.mod('klang.block').Block(0, 1)
    src.output.set_value(x)
    src.output.connect(block.input)
    return src


@harness('C28', quick=grid(smooth=[0., .3, 1.], duty=[.25, .5, 1.]), timeout=30)
def tremolo(ctx, smooth, duty):
    m = ctx.mod('klang.audio.effects')
    depth = ctx.real('depth', 0., 1.)
    fx = m.Tremolo(rate=4000., depth=depth, smoothness=smooth, dutyCycle=duty)
    start = ctx.pick('start', 0, 2)
    for b in range(start + 2):
        x = ctx.array('x%d_' % b, 4, -2., 2.) if b >= start else ctx.np.zeros(4)
        if b == 0:
            src = feed(ctx, fx, x)
        src.output.set_value(x)
        keep = x.copy()
        fx.update()
        if b < start:
            continue
        y = fx.output.value
        ctx.check(ctx.shape(y) == (4,), 'one sample per slot')
        for i in range(4):
            ctx.check(ctx.Or(ctx.And(keep[i] >= 0., y[i] <= keep[i] + 1e-6, y[i] >= (1. - depth) * keep[i] - 1e-6),
                             ctx.And(keep[i] <= 0., y[i] >= keep[i] - 1e-6, y[i] <= (1. - depth) * keep[i] + 1e-6)),
                      'gain lies within [1 - depth, 1]')
        ctx.eq(src.output.value, keep, 'input buffer is untouched')


@harness('C28', quick=grid(duty=[.25, .5]))
def tremolo_square(ctx, duty):
    """Without smoothing the gain switches between 1 and 1 - depth with the lfo."""
    m = ctx.mod('klang.audio.effects')
    sr = ctx.mod('klang.config').SAMPLING_RATE
    depth = ctx.real('depth', 0., 1.)
    fx = m.Tremolo(rate=sr / 8., depth=0., smoothness=0., dutyCycle=0.)
    # parameters are read at every update
    fx.depth.set_value(depth)
    fx.dutyCycle.set_value(duty)
    src = feed(ctx, fx, ctx.np.zeros(4))
    for b in range(4):
        x = ctx.array('x%d_' % b, 4, -4., 4.)
        src.output.set_value(x)
        fx.update()
        y = fx.output.value
        for i in range(4):
            on = ((4 * b + i) % 8) < 8 * duty
            ctx.eq(y[i], x[i] if on else (1. - depth) * x[i], 'gain follows the pulse', tol=1e-6)


@harness('C28', quick=grid(smooth=[.3, 1.], duty=[.25, .5]), thorough=grid(smooth=[.1, .7], duty=[.125, .75]))
def tremolo_curve(ctx, smooth, duty):
    """The gain is the pulse train behind one single pole low pass: it keeps gliding from where the previous buffer
    ended, at the pace set by smoothness and the shorter phase of the pulse."""
    m = ctx.mod('klang.audio.effects')
    sr = ctx.mod('klang.config').SAMPLING_RATE
    depth = ctx.real('depth', 0., 1.)
    fx = m.Tremolo(rate=sr / 8., depth=depth, smoothness=smooth, dutyCycle=duty)
    src = feed(ctx, fx, ctx.np.zeros(4))
    decay = smooth * min(duty, 1. - duty)
    c = 1. - math.exp(-2. * math.pi / decay / sr)
    f = 0.
    for b in range(4):
        x = ctx.array('x%d_' % b, 4, -4., 4.)
        src.output.set_value(x)
        fx.update()
        y = fx.output.value
        for i in range(4):
            f += c * ((1. if ((4 * b + i) % 8) < 8 * duty else -1.) - f)
            ctx.eq(y[i], (1. - depth + depth * (.5 + .5 * f)) * x[i], 'gain glides with the pulse', tol=1e-7)


@harness('C28', quick=grid(channels=['array', 'scalar']))
def ring_modulator(ctx, channels):
    m = ctx.mod('klang.audio.effects')
    osc = ctx.mod('klang.audio.oscillators')
    sr = ctx.mod('klang.config').SAMPLING_RATE
    f, amount = ctx.real('f', 0., 20000.), ctx.real('amount', 0., 1000.)
    mix = ctx.real('mix', 0., 1.)
    rate = ctx.choice('rate', [0., sr / 8.])
    square = ctx.mod('klang.audio.waves').square
    if ctx.flag('quiet'):
        wave = ctx.mod('klang.audio.waves').square
        square = lambda phase: .25 * wave(phase) + .5       # not only +-1
    fx = m.RingModulator(frequency=f, rate=rate, amount=amount, dryWet=mix, wave_func=square)
    ident = lambda phase: phase
    fx.modulator.wave_func = ident
    src = feed(ctx, fx, ctx.np.zeros(4))
    lfo = osc.Oscillator(rate, wave_func=square)
    mod = osc.Oscillator(wave_func=ident)
    for b in range(2):
        lfo.update()
        mod.frequency.set_value(f + amount * lfo.output.value)
        mod.update()
        x = ctx.array('x%d_' % b, 4, -2., 2.)
        src.output.set_value(x)
        fx.update()
        want = (1. - mix) * x + mix * (mod.output.value * x)
        ctx.eq(fx.output.value, want, 'modulated by the lfo of the same buffer', tol=1e-6)


@harness('C28', quick=[{}])
def neutral(ctx):
    """Zero depth, zero mix: the input passes through."""
    m = ctx.mod('klang.audio.effects')
    x = ctx.array('x', 4)
    fx = ctx.choice('fx', [m.Tremolo(depth=0.), m.RingModulator(dryWet=0.), m.Gain(1.), m.Delay(.5, .5, 0.),
                           m.Transformer(1., 0.), m.Tremolo(depth=0., dutyCycle=1., smoothness=0.)])
    feed(ctx, fx, x)
    for _ in range(2):
        fx.update()
        ctx.eq(fx.output.value, x, 'neutral setting passes the input')


@harness('C28', quick=grid(stereo=[False, True]))
def stereo_delay(ctx, stereo):
    m = ctx.mod('klang.audio.effects')
    sr = ctx.mod('klang.config').SAMPLING_RATE
    k1, k2 = ctx.pick('k1', 4, 6), ctx.pick('k2', 4, 6)
    fb1, fb2, mix = ctx.real('fb1', -1., 1.), ctx.real('fb2', -1., 1.), ctx.real('mix', 0., 1.)
    fx = m.StereoDelay((k1 + .5) / sr, (k2 + .5) / sr, fb1, fb2, mix)
    left, right = [0.] * k1, [0.] * k2
    src = None
    for b in range(3):
        x = ctx.array('x%d_' % b, (2, 4) if stereo else 4)
        if src is None:
            src = feed(ctx, fx, x)
        src.output.set_value(x)
        fx.update()
        y = fx.outputs[0].value
        ctx.check(ctx.shape(y) == (2, 4), 'stereo output')
        for c, (line, k, fb) in enumerate(((left, k1, fb1), (right, k2, fb2))):
            old = line[:4]
            for i in range(4):
                s = x[c][i] if stereo else x[i]
                ctx.eq(y[c][i], (1. - mix) * s + mix * old[i], 'each side has its own delay')
                line.append(s + fb * old[i])
            del line[:4]

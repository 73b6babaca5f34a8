"""C20: mixers."""
from symx.spec import harness, grid

MODULES = ['klang.audio.mixer', 'klang.audio.panning']
BOUNDS = ('up to 4 channels, buffer size 3, every panning mode and several pan laws, mono / stereo / unconnected (scalar) channel inputs, all gains, pannings '
          'and samples symbolic, channels added before and between updates')
OUTSIDE = 'more than 4 channels'


def feed(ctx, name, kind, size):
    if kind == 's':
        return ctx.real(name)
    if kind == 'm':
        return ctx.array(name, size)
    return ctx.array(name, (2, size))


@harness('C20', buffer=3, quick=grid(n=[0, 1, 2, 3, 4]))
def mono(ctx, n):
    Mixer = ctx.mod('klang.audio.mixer').Mixer
    Block = ctx.mod('klang.block').Block
    gains = ctx.reals('g', n)
    given = ctx.flag('given')
    k = ctx.pick('later', 0, n)              # channels added after construction
    mixer = Mixer(n - k, gains=list(gains[:n - k]) if given else None)
    if not given:
        gains = [1.] * (n - k) + gains[n - k:]
    for i in range(n - k, n):
        mixer.add_new_channel(gains[i])
    ctx.check(mixer.nInputs == n, 'one input per channel')
    xs, kinds, srcs = [], [], []
    for i in range(n):
        kind = ctx.choice('kind%d' % i, ['m', 's']) if n < 4 else 'm'
        x = feed(ctx, 'x%d_' % i, kind, 3)
        if kind == 's':
            mixer.inputs[i].set_value(x)
        else:
            src = Block(0, 1)
            src.output.set_value(x)
            src.output.connect(mixer.inputs[i])
        xs.append(x)
    mixer.update()
    out = mixer.output.value
    total = ctx.np.zeros(3)
    for g, x in zip(gains, xs):
        total = total + g * x
    if n > 1:
        total = total / n
    ctx.eq(out, total, 'gain weighted mean of the channels')
    ctx.observe('out', out)
    # a further update gives the same and leaves the first result alone
    mixer.update()
    ctx.eq(mixer.output.value, total, 'mixing does not accumulate')
    ctx.eq(out, total, 'earlier output is not overwritten')


@harness('C20', buffer=2, quick=grid(n=[1, 2, 3], mode=['linear', 'constant_power']) + grid(
    n=[2], mode=['mixture']), timeout=30)
def stereo(ctx, n, mode):
    m = ctx.mod('klang.audio.mixer')
    Block = ctx.mod('klang.block').Block
    pan = ctx.mod('klang.audio.panning').panning_amplitudes
    later = ctx.pick('later', 0, n)
    gains = ctx.reals('g', n)
    pans = [ctx.choice('p%d' % i, [-1., -.25, 0., 1.]) if n < 3 else (-.5, 0., 1.)[i] for i in range(n)]
    mixer = m.StereoMixer(n - later, gains=list(gains[:n - later]), pannings=list(pans[:n - later]), mode=mode)
    for i in range(n - later, n):
        mixer.add_new_channel(gain=gains[i], panning=pans[i])
    total = ctx.np.zeros((2, 2))
    for i in range(n):
        kind = ctx.choice('kind%d' % i, ['m', 'st'])
        x = feed(ctx, 'x%d_' % i, kind, 2)
        src = Block(0, 1)
        src.output.set_value(x)
        src.output.connect(mixer.inputs[i])
        total = total + gains[i] * pan(pans[i], mode, None) * x
    if n > 1:
        total = total / n
    mixer.update()
    out = mixer.output.value
    ctx.check(ctx.shape(out) == (2, 2), 'stereo output')
    ctx.eq(out, total, 'gain weighted mean of the panned channels')
    mixer.update()
    ctx.eq(mixer.output.value, total, 'mixing does not accumulate')


@harness('C20', buffer=2, quick=grid(mode=['linear', 'constant_power', 'mixture'], law=[None, 0., -3., -6.]))
def pan_law(ctx, mode, law):
    """The mode and pan law of the mixer shape the panning of each channel."""
    m = ctx.mod('klang.audio.mixer')
    pan = ctx.mod('klang.audio.panning').panning_amplitudes
    pans = [ctx.choice('p%d' % i, [-1., -.5, 0., .75]) for i in range(2)]
    xs = [ctx.array('x%d_' % i, 2) for i in range(2)]
    mixer = m.StereoMixer(2, pannings=list(pans), mode=mode, panLaw=law)
    for i in range(2):
        mixer.inputs[i].set_value(xs[i])
    mixer.update()
    ctx.eq(mixer.output.value, (pan(pans[0], mode, law) * xs[0] + pan(pans[1], mode, law) * xs[1]) / 2.,
           'channels are panned with the mode and pan law of the mixer', tol=1e-9)


@harness('C20', buffer=2, quick=[{}])
def panning_symbolic(ctx):
    """Linear panning with symbolic pan positions."""
    m = ctx.mod('klang.audio.mixer')
    p = ctx.reals('p', 2, -1., 1.)
    mixer = m.StereoMixer(2, gains=[1., 2.], pannings=list(p), mode='linear')
    x, y = ctx.array('x', 2), ctx.array('y', 2)
    mixer.inputs[0].set_value(x)
    mixer.inputs[1].set_value(y)
    mixer.update()
    out = mixer.output.value
    ctx.eq(out[0], ((1. - p[0]) / 2. * x + (1. - p[1]) * y) / 2., 'left side')
    ctx.eq(out[1], ((1. + p[0]) / 2. * x + (1. + p[1]) * y) / 2., 'right side')


@harness('C20', buffer=2, quick=[{}])
def growing(ctx):
    """Channels added between updates; gains changed while running."""
    m = ctx.mod('klang.audio.mixer')
    mixer = m.StereoMixer(0, mode='linear') if ctx.flag('stereo') else m.Mixer()
    stereo = isinstance(mixer, m.StereoMixer)
    xs, gs = [], []
    for i in range(3):
        g = ctx.real('g%d' % i)
        if ctx.flag('default%d' % i):
            mixer.add_new_channel()
            g = 1.
        else:
            mixer.add_new_channel(g)
        x = ctx.array('x%d_' % i, 2)
        mixer.inputs[-1].set_value(x)
        xs.append(x)
        gs.append(g)
        if i == 2:
            gs[0] = ctx.real('h')
            mixer.gains[0] = gs[0]
        mixer.update()
        total = ctx.np.zeros(2)
        for g, x in zip(gs, xs):
            total = total + g * x
        total = total / len(xs)
        out = mixer.output.value
        if stereo:
            ctx.eq(out[0], .5 * total, 'every channel keeps contributing (left)')
            ctx.eq(out[1], .5 * total, 'every channel keeps contributing (right)')
        else:
            ctx.eq(out, total, 'every channel keeps contributing')
        for j, x in enumerate(xs):
            ctx.eq(mixer.inputs[j].value, x, 'inputs are untouched')


@harness('C20', buffer=2, quick=[{}])
def silence(ctx):
    """Mixing does not write into the shared silence buffers."""
    m = ctx.mod('klang.audio.mixer')
    h = ctx.mod('klang.audio.helpers')
    for mixer, want in ((m.Mixer(1), ctx.np.zeros(2)), (m.StereoMixer(1), ctx.np.zeros((2, 2)))):
        mixer.inputs[0].set_value(ctx.array('x%d_' % mixer.nOutputs if want.ndim == 1 else 'y', 2))
        mixer.update()
        empty = type(mixer)()
        empty.update()
        ctx.eq(empty.output.value, want, 'a mixer without channels is silent')

"""C17: phase integration of the oscillators."""
import copy

from symx.spec import harness, grid

MODULES = ['klang.audio.oscillators', 'klang.audio.waves']
BOUNDS = ('buffer sizes 2..4, 2-3 buffers, frequency symbolic per buffer or per sample (any sign, up to 48 kHz), start phase '
          'symbolic in [0, 2 pi), duty cycle / intensity / output range symbolic; chirps over 2-3 buffers')
OUTSIDE = 'rounding of the phase after very long runs; non linear chirps'


FMAX = 48000.


def tau(ctx):
    return ctx.mod('klang.constants').TAU


def dt(ctx):
    return 1. / ctx.mod('klang.config').SAMPLING_RATE


def congruent(ctx, a, b, label):
    """Same phase modulo 2 pi."""
    d = (a - b) / tau(ctx)
    ctx.eq(d, ctx.floor(d + .5), label, tol=1e-7)


def in_range(ctx, p, label):
    ctx.le(0., p, label)
    ctx.le(p, tau(ctx), label)


class Recorder:

    """Wave function which shows the phase it is called with."""

    def __init__(self):
        self.calls = []

    def __call__(self, phase):
        self.calls.append(phase)
        return phase


def frequencies(ctx, kind, b, size):
    if kind == 'array':
        fs = ctx.reals('f%d_' % b, size, -FMAX, FMAX)
        return ctx.np.array(fs), fs
    f = ctx.real('f%d' % b, -FMAX, FMAX)
    return f, [f] * size


@harness('C17', buffer=4, quick=grid(kind=['scalar', 'array', 'mixed'], nBuffers=[2]),
         thorough=grid(kind=['scalar', 'array', 'mixed'], nBuffers=[3]), timeout=30)
def oscillator(ctx, kind, nBuffers):
    osc = ctx.mod('klang.audio.oscillators')
    size = ctx.mod('klang.config').BUFFER_SIZE
    start = ctx.real('start', 0., tau(ctx), hi_open=True)
    rec = Recorder()
    o = osc.Oscillator(frequency=0., wave_func=rec, startPhase=start)
    want = start
    for b in range(nBuffers):
        k = kind if kind != 'mixed' else ('array' if b % 2 else 'scalar')
        f, fs = frequencies(ctx, k, b, size)
        o.frequency.set_value(f)
        o.update()
        out = o.output.value
        ctx.check(ctx.shape(out) == (size,), 'one sample per buffer slot')
        for i in range(size):
            congruent(ctx, out[i], want, 'phase continues sample by sample')
            in_range(ctx, out[i], 'phase stays within one turn')
            want = want + tau(ctx) * dt(ctx) * fs[i]
    ctx.eq(len(rec.calls), nBuffers, 'wave function is used once per buffer')


@harness('C17', buffer=4, quick=grid(nBuffers=[3]))
def phasor(ctx, nBuffers):
    osc = ctx.mod('klang.audio.oscillators')
    size = ctx.mod('klang.config').BUFFER_SIZE
    start = ctx.real('start', 0., tau(ctx), hi_open=True)
    o = osc.Phasor(frequency=0., startPhase=start)
    want = start
    for b in range(nBuffers):
        f = ctx.real('f%d' % b, -FMAX, FMAX)
        o.frequency.set_value(f)
        o.update()
        congruent(ctx, o.output.value, want, 'phase advances once per buffer')
        in_range(ctx, o.output.value, 'phase stays within one turn')
        want = want + tau(ctx) * f * size * dt(ctx)


@harness('C17', buffer=4, quick=grid(shape=['scalar', 'buffer']))
def lfo(ctx, shape):
    osc = ctx.mod('klang.audio.oscillators')
    size = ctx.mod('klang.config').BUFFER_SIZE
    lo, hi = ctx.choice('range', [(0, 1), (-1, 1), (2, 5), (3, -1)])
    start = ctx.real('start', 0., tau(ctx), hi_open=True)
    n = 1 if shape == 'scalar' else size
    o = osc.Lfo(frequency=1., wave_func=lambda p: p, shape=n, outputRange=(lo, hi), startPhase=start)
    want = start
    for b in range(2):
        f = ctx.real('f%d' % b, -FMAX, FMAX)
        o.frequency.set_value(f)
        o.update()
        out = o.output.value
        vals = [out] if shape == 'scalar' else [out[i] for i in range(size)]
        for i, v in enumerate(vals):
            # invert the mapping -1 -> lo, 1 -> hi
            p = (v - lo) * 2. / (hi - lo) - 1.
            congruent(ctx, p, want + tau(ctx) * f * i * dt(ctx), 'mapped wave of the running phase')
            in_range(ctx, p, 'phase stays within one turn')
        want = want + tau(ctx) * f * size * dt(ctx)


@harness('C17', buffer=3, quick=grid(fkind=['scalar', 'array'], dkind=['scalar', 'array']))
def pwm(ctx, fkind, dkind):
    osc = ctx.mod('klang.audio.oscillators')
    size = ctx.mod('klang.config').BUFFER_SIZE
    start = ctx.real('start', 0., tau(ctx), hi_open=True)
    o = osc.PwmOscillator(frequency=1., dutyCycle=.5, startPhase=start)
    want = start
    for b in range(2):
        f, fs = frequencies(ctx, fkind, b, size)
        if dkind == 'array':
            ds = ctx.reals('d%d_' % b, size, 0., 1.)
            d = ctx.np.array(ds)
        else:
            d = ctx.real('d%d' % b, 0., 1.)
            ds = [d] * size
        o.frequency.set_value(f)
        o.dutyCycle.set_value(d)
        o.update()
        out = o.output.value
        for i in range(size):
            turn = want / tau(ctx)
            frac = turn - ctx.floor(turn)
            eps = 1e-6
            ctx.check(ctx.Or(out[i] == 1., out[i] == -1.), 'output is +1 or -1')
            ctx.check(ctx.implies(ctx.And(frac > eps, frac < ds[i] - eps), out[i] == 1.),
                      'high during the duty cycle')
            ctx.check(ctx.implies(ctx.And(frac > ds[i] + eps, frac < 1. - eps), out[i] == -1.),
                      'low after the duty cycle')
            want = want + tau(ctx) * dt(ctx) * fs[i]


@harness('C17', buffer=3, quick=[{}])
def pwm_limits(ctx):
    """A duty cycle of zero is never high and one of a full turn never low, also right at the start of a turn."""
    osc = ctx.mod('klang.audio.oscillators')
    duty = ctx.choice('duty', [0., 1.])
    start = ctx.choice('start', [0., 1.])
    o = osc.PwmOscillator(frequency=1., dutyCycle=duty, startPhase=start)
    for b in range(2):
        o.frequency.set_value(ctx.real('f%d' % b, 0., 10000.))
        o.update()
        ctx.eq(o.output.value, ctx.np.array(3 * [2. * duty - 1.]), 'duty cycle 0 is off, 1 is on')


@harness('C17', buffer=3, quick=grid(kind=['scalar', 'array']))
def fm(ctx, kind):
    """Carrier phase plus intensity times modulator output."""
    osc = ctx.mod('klang.audio.oscillators')
    size = ctx.mod('klang.config').BUFFER_SIZE
    rec = Recorder()
    o = osc.FmOscillator(frequency=0., intensity=ctx.choice('int', [0., 1., -.5, 3.]), modFrequency=ctx.real('m', -FMAX, FMAX),
                         wave_func=rec, startPhase=ctx.real('start', 0., tau(ctx), hi_open=True))
    want = o.currentPhase
    mod = 0.
    for b in range(2):
        f, fs = frequencies(ctx, kind, b, size)
        o.frequency.set_value(f)
        o.update()
        out = o.output.value
        for i in range(size):
            m = o.modulator.output.value[i]
            congruent(ctx, m, mod, 'modulator runs at its own frequency')
            congruent(ctx, out[i], want + o.intensity * m, 'modulated phase continues')
            want = want + tau(ctx) * dt(ctx) * fs[i]
            mod = mod + tau(ctx) * dt(ctx) * o.modulator.frequency.value


def inputs(ctx):
    return dict(f=ctx.real('f', -FMAX, FMAX), start=ctx.real('start', 0., tau(ctx), hi_open=True),
                duty=ctx.real('duty', 0., 1.), mf=ctx.real('mf', -FMAX, FMAX),
                intensity=ctx.choice('intensity', [0., 2.]))


def make(ctx, osc, kind, vals):
    wave = lambda p: p
    f, start = vals['f'], vals['start']
    if kind == 'Phasor':
        return osc.Phasor(f, start)
    if kind == 'Oscillator':
        return osc.Oscillator(f, wave, start)
    if kind == 'Lfo':
        return osc.Lfo(f, wave, shape=ctx.mod('klang.config').BUFFER_SIZE, outputRange=(2, 4), startPhase=start)
    if kind == 'LfoScalar':
        return osc.Lfo(f, wave, outputRange=(2, 4), startPhase=start)
    if kind == 'FmOscillator':
        return osc.FmOscillator(f, vals['intensity'], vals['mf'], wave, start)
    return osc.PwmOscillator(f, vals['duty'], start)


@harness('C17', buffer=3, quick=grid(kind=['Phasor', 'Oscillator', 'Lfo', 'LfoScalar', 'FmOscillator',
                                          'PwmOscillator']))
def copies(ctx, kind):
    """A copy has the same settings and phase, and runs on its own."""
    osc = ctx.mod('klang.audio.oscillators')
    vals = inputs(ctx)
    a, ref = make(ctx, osc, kind, vals), make(ctx, osc, kind, vals)
    running = kind != 'FmOscillator' and ctx.flag('running')
    if running:
        a.update()
        ref.update()
    b = copy.deepcopy(a)
    ctx.check(type(b) is type(a), 'copy is of the same type')
    ctx.check(b.frequency is not a.frequency and b.output is not a.output, 'copy has its own connections')
    ctx.check(b.frequency.owner is b and b.output.owner is b, 'connections of the copy belong to the copy')
    ref.update()
    first = ref.output.value
    b.update()
    ctx.eq(b.output.value, first, 'copy continues like the original')
    b.update()                              # ahead of a
    b.frequency.set_value(ctx.real('g', -FMAX, FMAX))
    b.update()
    a.update()
    ctx.eq(a.output.value, first, 'the original is not affected by its copy')
    ref.update()
    a.update()
    ctx.eq(a.output.value, ref.output.value, 'the original keeps running as before')


@harness('C17', buffer=4, quick=grid(kind=['Phasor', 'Oscillator', 'LfoScalar', 'PwmOscillator']))
def note_rates(ctx, kind):
    """Note values as frequency: one turn per note duration."""
    from fractions import Fraction
    osc = ctx.mod('klang.audio.oscillators')
    note = ctx.choice('note', [Fraction(1, 4), Fraction(1, 1), Fraction(3, 8)])
    dur = ctx.mod('klang.music.tempo').compute_duration(note)
    start = ctx.real('start', 0., tau(ctx), hi_open=True)
    outs = []
    for f in (note, 1. / dur):
        if kind == 'PwmOscillator':
            o = osc.PwmOscillator(f, .5, start)
        elif kind == 'LfoScalar':
            o = osc.Lfo(f, lambda p: p, startPhase=start)
        elif kind == 'Phasor':
            o = osc.Phasor(f, start)
        else:
            o = osc.Oscillator(f, lambda p: p, start)
        o.update()
        o.update()
        outs.append(o.output.value)
    ctx.eq(outs[0], outs[1], 'note value is converted to its rate')


@harness('C17', buffer=4, quick=grid(samples=[3, 4, 6, 9]))
def chirp(ctx, samples):
    """Linear chirp: instantaneous frequency runs from start to end, then stays."""
    osc = ctx.mod('klang.audio.oscillators')
    f0, f1 = ctx.real('f0', -FMAX, FMAX), ctx.real('f1', -FMAX, FMAX)
    step = dt(ctx)
    c = osc.Chirper(f0, samples * step, f1, wave_func=lambda p: p)
    got = []
    for b in range(3):
        c.update()
        v = c.output.value
        got += [v[i] for i in range(len(v))]

    def phase(n):
        if n <= samples:
            return tau(ctx) * step * (f0 * n + (f1 - f0) * n * n / (2. * samples))
        return phase(samples) + tau(ctx) * step * f1 * (n - samples)

    for n, v in enumerate(got):
        d = (v - got[0]) - phase(n)
        ctx.eq(d, 0., 'chirp phase is continuous and follows its frequency', tol=1e-7)
    c.reset()
    c.update()
    ctx.eq(c.output.value[0], got[0], 'reset starts again')

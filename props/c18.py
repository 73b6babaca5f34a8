"""C18: wave shapes and LFO range."""
from symx.spec import harness, grid

MODULES = ['klang.audio.waves', 'klang.audio.oscillators']
BOUNDS = 'all phases within +-8 turns (symbolic), scalars and arrays; LFO ranges from a list and symbolic'
OUTSIDE = 'the values of the sine between its special points (sine is an uninterpreted function with axioms)'
NAMES = ['sine', 'square', 'sawtooth', 'triangle']


def tau(ctx):
    return ctx.mod('klang.constants').TAU


def shape(name, frac):
    """Reference over the fraction of the period (None: undefined close to a jump)."""
    if name == 'square':
        return lambda ite: ite(frac < .5, 1., -1.)
    if name == 'sawtooth':
        return lambda ite: 2. * frac - 1.
    return lambda ite: ite(frac <= .5, 4. * frac - 1., 3. - 4. * frac)


EPS = 1e-9


@harness('C18', quick=grid(name=['square', 'sawtooth', 'triangle'], kind=['scalar', 'array']))
def wave(ctx, name, kind):
    fn = getattr(ctx.mod('klang.audio.waves'), name)
    ps = ctx.reals('p', 2 if kind == 'array' else 1, -50., 50.)
    out = fn(ctx.np.array(ps)) if kind == 'array' else fn(ps[0])
    vals = [out[i] for i in range(2)] if kind == 'array' else [out]
    for p, v in zip(ps, vals):
        ctx.le(v, 1., 'within [-1, 1]')
        ctx.le(-1., v, 'within [-1, 1]')
        turn = p / tau(ctx)
        frac = turn - ctx.floor(turn)
        want = shape(name, frac)(ctx.ite)
        calm = ctx.And(frac > EPS, frac < 1. - EPS, ctx.Or(frac < .5 - EPS, frac > .5 + EPS))
        ctx.check(ctx.implies(calm, ctx.And(v - want < 1e-6, want - v < 1e-6)), 'shape of the wave')


@harness('C18', quick=grid(name=['square', 'sawtooth', 'triangle']))
def period(ctx, name):
    fn = getattr(ctx.mod('klang.audio.waves'), name)
    p = ctx.real('p', -20., 20.)
    k = ctx.int('k', -3, 3)
    turn = p / tau(ctx)
    frac = turn - ctx.floor(turn)
    ctx.assume(ctx.And(frac > EPS, frac < 1. - EPS, ctx.Or(frac < .5 - EPS, frac > .5 + EPS)))
    ctx.eq(fn(p + k * tau(ctx)), fn(p), 'period of one turn', tol=1e-6)


@harness('C18', quick=[{}])
def special_points(ctx):
    """Values at the quarter turns."""
    w = ctx.mod('klang.audio.waves')
    t = tau(ctx)
    q = ctx.pick('q', 0, 7)
    p = q * t / 8
    want = {'square': [1, 1, 1, 1, -1, -1, -1, -1], 'sawtooth': [-1 + .25 * i for i in range(8)],
            'triangle': [-1, -.5, 0, .5, 1, .5, 0, -.5],
            'sine': [0, .5 ** .5, 1, .5 ** .5, 0, -.5 ** .5, -1, -.5 ** .5]}
    for name in NAMES:
        ctx.eq(getattr(w, name)(p), want[name][q] * 1., '%s at the eighths of its period' % name)


@harness('C18', quick=[{}])
def sine(ctx):
    w = ctx.mod('klang.audio.waves')
    p, q = ctx.real('p', -50., 50.), ctx.real('q', 0., tau(ctx) / 4)
    a = w.sine(p)
    ctx.le(a, 1., 'sine within [-1, 1]')
    ctx.le(-1., a, 'sine within [-1, 1]')
    ctx.eq(w.sine(-p), -a, 'sine is odd')
    r = ctx.real('r', 0., tau(ctx) / 4)
    ctx.assume(q <= r)
    ctx.le(w.sine(q), w.sine(r), 'sine rises in the first quarter')
    ctx.le(0., w.sine(q), 'sine is positive in the first quarter')


@harness('C18', buffer=3, quick=[{}])
def noise(ctx):
    """Random wave: one value in [-1, 1] per phase."""
    w = ctx.mod('klang.audio.waves')
    ph = ctx.array('p', 3)
    out = w.random(ph)
    ctx.check(ctx.shape(out) == (3,), 'one value per phase')
    for i in range(3):
        ctx.le(out[i], 1., 'noise within [-1, 1]')
        ctx.le(-1., out[i], 'noise within [-1, 1]')


@harness('C18', buffer=3, quick=grid(name=NAMES, n=[1, 3], lo=[-2., 0.], hi=[1., 5.]))
def lfo_range(ctx, name, n, lo, hi):
    """LFO output stays in its range and maps its wave linearly onto it."""
    osc = ctx.mod('klang.audio.oscillators')
    waves = ctx.mod('klang.audio.waves')
    fn = getattr(waves, name)
    seen = []

    def rec(phase):
        seen.append(fn(phase))
        return seen[-1]

    o = osc.Lfo(ctx.real('f', 0., 50.), rec, shape=n, outputRange=(lo, hi),
                startPhase=ctx.real('start', 0., tau(ctx), hi_open=True))
    for b in range(2):
        o.update()
        out = o.output.value
        got = [out] if n == 1 else [out[i] for i in range(n)]
        wave = [seen[-1]] if n == 1 else [seen[-1][i] for i in range(n)]
        for v, x in zip(got, wave):
            ctx.le(v, hi, 'LFO within its range')
            ctx.le(lo, v, 'LFO within its range')
            ctx.eq(v, lo + (x + 1.) / 2. * (hi - lo), 'LFO maps its wave linearly onto the range', tol=1e-7)


@harness('C18', buffer=3, quick=[{}])
def registry(ctx):
    """The table of wave functions holds the functions of that name."""
    w = ctx.mod('klang.audio.waves')
    name = ctx.choice('name', NAMES)
    p = ctx.real('p', .1, 3.)
    ctx.eq(w.WAVE_FUNCTIONS[name](p), getattr(w, name)(p), 'registered wave functions')
    ctx.check('random' in w.WAVE_FUNCTIONS, 'noise is registered')


@harness('C18', buffer=3, quick=grid(name=NAMES))
def sampled(ctx, name):
    """A block of a wave, and the phase at which the next one continues."""
    import warnings
    w = ctx.mod('klang.audio.waves')
    fn = getattr(w, name)
    sr = ctx.mod('klang.config').SAMPLING_RATE
    rel = ctx.real('rel', 0., .4)
    start = ctx.real('start', 0., tau(ctx), hi_open=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        seen = []
        first = w.sample_wave(rel * sr, start, lambda phase: seen.append(phase) or fn(phase), 3)
        samples, phase = first
    ctx.check(ctx.shape(samples) == (3,), 'as many samples as asked for')
    for i in range(3):
        ctx.eq(seen[0][i], start + tau(ctx) * rel * i, 'phase of the samples', tol=1e-6)
        ctx.eq(samples[i], fn(seen[0][i]), 'samples of the wave')
    end = (start + tau(ctx) * rel * 3) / tau(ctx)
    turns = end - phase / tau(ctx) + .5
    off = turns - ctx.floor(turns) - .5
    ctx.check(abs(off) < 1e-6, 'phase of the next sample up to whole turns')

"""C32: voices."""
from symx.spec import harness, grid

MODULES = ['klang.audio.voices', 'klang.audio.oscillators', 'klang.audio.envelopes']
BOUNDS = ('all note histories of 3 (thorough 4) messages over buffers of 4 samples with symbolic velocities, frequencies and '
          'signals; copies over every oscillator and envelope class')
OUTSIDE = 'values of the envelope curves (C13, C15); envelope class is the pure Python one (the C one: C13)'


def parts(ctx):
    Block = ctx.mod('klang.block').Block
    N = ctx.mod('klang.config').BUFFER_SIZE

    class Osc(Block):
        def __init__(self):
            super().__init__(nInputs=1, nOutputs=1)
            self.frequency = self.input
            self.frequency.set_value(440.)
            self.output.set_value(ctx.np.zeros(N))
            self.source = None

        def update(self):
            self.output.set_value(self.source)

    class Env(Block):
        def __init__(self):
            super().__init__(nOutputs=1)
            self.output.set_value(ctx.np.zeros(N))
            self.gates = []
            self.active = False
            self.source = None

        def gate(self, on):
            self.gates.append(bool(on))

        def update(self):
            self.output.set_value(self.source)

    return Osc(), Env(), N


@harness('C32', quick=grid(steps=[3]), thorough=grid(steps=[4]))
def voice(ctx, steps):
    Note = ctx.mod('klang.messages').Note
    osc, env, N = parts(ctx)
    v = ctx.mod('klang.audio.voices').Voice(osc, env)
    ctx.check(not v.active, 'silent at first')
    amp, freq, gates = 0., 440., []
    for s in range(steps):
        if ctx.flag('on%d' % s):
            note = Note(ctx.int('p%d' % s, 0, 127), ctx.real('v%d' % s, .1, 1.), ctx.real('f%d' % s, 0., 5000.))
            amp, freq = note.velocity, note.frequency
        else:
            note = Note(60, 0., 100.)
        gates.append(bool(note.on))
        v.input.push(note)
        ctx.check(v.active, 'pending notes make a voice active')
        if s < steps - 1 and ctx.flag('together%d' % s):
            continue
        osc.source, env.source = ctx.array('o%d' % s, N, -4., 4.), ctx.array('e%d' % s, N, 0., 1.)
        v.update()
        ctx.check(env.gates == gates, 'note-ons open the gate, note-offs close it')
        ctx.check(osc.frequency.value == freq, 'the oscillator takes the frequency of the last note-on')
        out = v.output.value
        ctx.eq([out[i] for i in range(N)], [amp * osc.source[i] * env.source[i] for i in range(N)],
               'velocity times oscillator times envelope', tol=1e-9)
    ctx.check(not v.active, 'nothing pending')
    env.active = True
    ctx.check(v.active, 'a sounding envelope makes a voice active')


OSCS = ['Oscillator', 'Lfo', 'PwmOscillator', 'FmOscillator']
ENVS = ['ADSR', 'AR', 'D', 'R']


def make(ctx, osc, env):
    # The wave does not matter here; the solver is fast on linear ones
    kw = {'wave_func': ctx.mod('klang.audio.waves').sawtooth} if osc == 'Oscillator' else {}
    o = getattr(ctx.mod('klang.audio.oscillators'), osc)(frequency=300., **kw)
    e = getattr(ctx.mod('klang.audio.envelopes'), env)(.001)
    return ctx.mod('klang.audio.voices').Voice(o, e)


def run(ctx, v, N):
    v.update()
    out = v.output.value
    return [out[i] for i in range(N)]


@harness('C32', quick=grid(osc=OSCS, env=['ADSR']) + grid(osc=['Oscillator'], env=ENVS[1:]), timeout=60)
def copies(ctx, osc, env):
    """Playing a copy does not reach the original and vice versa."""
    import copy
    Note = ctx.mod('klang.messages').Note
    N = ctx.mod('klang.config').BUFFER_SIZE
    freq = ctx.choice('f', [100., 1234.5]) if osc == 'FmOscillator' else ctx.real('f', 20., 2000.)
    quiet, playing = make(ctx, osc, env), make(ctx, osc, env)
    twin = copy.deepcopy(playing)
    ref = make(ctx, osc, env)
    ctx.check(not twin.active, 'copies start silent')
    for v in (playing, ref):
        v.input.push(Note(60, .5, freq))
        run(ctx, v, N)
    second = copy.deepcopy(playing)
    ctx.check(not second.input.queue, 'copies have no messages')
    ctx.check(not twin.active, 'copies have their own envelope')
    ctx.eq(run(ctx, twin, N), run(ctx, quiet, N), 'copies are silent until played')
    for v in (twin, second):
        v.input.push(Note(70, 1., 2 * freq))
        run(ctx, v, N)
    ctx.eq(run(ctx, playing, N), run(ctx, ref, N), 'playing copies leaves the original alone')
    playing.input.push(Note(60, 0., freq))
    ref.input.push(Note(60, 0., freq))
    ctx.eq(run(ctx, playing, N), run(ctx, ref, N), 'releasing does not depend on copies')
    ctx.check(twin.oscillator.frequency.value == 2 * freq, 'copies have their own frequency')
    ctx.check(playing.oscillator.frequency.value == freq, 'originals keep their frequency')


@harness('C32', quick=grid(env=ENVS))
def envelope_settings(ctx, env):
    """Copies of envelopes have the same settings."""
    import copy
    cls = getattr(ctx.mod('klang.audio.envelopes'), env)
    ds = [ctx.choice('d%d' % i, [.001, .5, 2.]) for i in range({'ADSR': 4, 'AR': 2}.get(env, 1))]
    if env == 'ADSR':
        ds[2] = ctx.choice('sustain', [0., .25, 1.])
    kw = {'retrigger': ctx.flag('retrigger'), 'loop': ctx.flag('loop'), 'overshoot': ctx.choice('overshoot', [.001, .25])}
    e = cls(*ds, **kw)
    c = copy.deepcopy(e)
    for name in ('attack', 'decay', 'sustain', 'release', 'overshoot', 'retrigger', 'loop'):
        ctx.check(getattr(c, name) == getattr(e, name), 'copied envelopes have the same settings')
    ctx.check(type(c) is type(e), 'copied envelopes have the same type')
    c.gate(True)
    ctx.check(c.active and not e.active, 'copied envelopes run on their own')
    names = {'ADSR': ['attack', 'decay', 'sustain', 'release'], 'AR': ['attack', 'release'], 'D': ['decay'], 'R': ['release']}[env]
    for n, d in zip(names, ds):
        ctx.check(getattr(e, n) == d, 'settings as given')


@harness('C32', quick=grid(osc=OSCS), timeout=60)
def oscillator_settings(ctx, osc):
    """Copied voices have oscillators with the settings of the original."""
    import copy
    m = ctx.mod('klang.audio.oscillators')
    wave = ctx.mod('klang.audio.waves').sawtooth
    kw = {'frequency': ctx.real('f', 20., 2000.), 'startPhase': ctx.real('phase', 0., 6.)}
    if osc in ('Oscillator', 'Lfo', 'FmOscillator'):
        kw['wave_func'] = wave
    if osc == 'Lfo':
        kw['shape'] = ctx.choice('shape', [1, ctx.mod('klang.config').BUFFER_SIZE])
        kw['outputRange'] = (ctx.real('lo', -2., 0.), ctx.real('hi', 1., 3.))
    elif osc == 'PwmOscillator':
        kw['dutyCycle'] = ctx.real('duty', 0., 1.)
    elif osc == 'FmOscillator':
        kw['intensity'] = ctx.real('intensity', 0., 5.)
        kw['modFrequency'] = ctx.real('mod', 1., 50.)
    o = getattr(m, osc)(**kw)
    v = ctx.mod('klang.audio.voices').Voice(o, ctx.mod('klang.audio.envelopes').AR(.001))
    c = copy.deepcopy(v).oscillator
    ctx.check(c is not o and type(c) is type(o), 'copies have an oscillator of their own, of the same kind')
    ctx.eq([c.frequency.value, c.currentPhase], [o.frequency.value, o.currentPhase], 'same frequency and phase')
    ctx.check(getattr(c, 'wave_func', None) is getattr(o, 'wave_func', None), 'same wave')
    for name in ('shape', 'intensity', 'scale', 'offset'):
        if name in kw or hasattr(o, name):
            ctx.eq(getattr(c, name), getattr(o, name), 'same settings')
    if osc == 'Lfo':
        ctx.eq(list(c.outputRange), list(o.outputRange), 'same range')
    elif osc == 'PwmOscillator':
        ctx.eq(c.dutyCycle.value, o.dutyCycle.value, 'same duty cycle')
    elif osc == 'FmOscillator':
        ctx.eq(c.modulator.frequency.value, kw['modFrequency'], 'same modulation frequency')
        ctx.check(c.modulator is not o.modulator, 'copies have a modulator of their own')

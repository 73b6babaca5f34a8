"""C31: voice allocation of the polyphonic synthesizer."""
from symx.spec import harness, grid

MODULES = ['klang.audio.synthesizer', 'klang.audio.voices']
BOUNDS = ('24 voices with 30 notes; 2 or 3 voices (MAX_VOICES replaced), histories of 4 (thorough 5) note messages spread over buffers in every way, '
          'pitches of simultaneously held notes differ, symbolic pitches, velocities and signals')
OUTSIDE = 'the same pitch held twice'


def build(ctx, nVoices):
    """Synthesizer over instrumented oscillators and envelopes (one pair per voice, in order of creation)."""
    Block = ctx.mod('klang.block').Block
    synths = ctx.mod('klang.audio.synthesizer')
    voices = ctx.mod('klang.audio.voices')
    N = ctx.mod('klang.config').BUFFER_SIZE
    made = {'osc': [], 'env': []}

    class Osc(Block):
        def __init__(self):
            super().__init__(nInputs=1, nOutputs=1)
            self.frequency = self.input
            self.frequency.set_value(0.)
            self.output.set_value(ctx.np.zeros(N))
            made['osc'].append(self)

        def update(self):
            self.output.set_value(ctx.np.ones(N) * self.frequency.value)

        def __deepcopy__(self, memo):
            return Osc()

    class Env(Block):
        def __init__(self):
            super().__init__(nOutputs=1)
            self.output.set_value(ctx.np.zeros(N))
            self.open = False
            made['env'].append(self)

        @property
        def active(self):
            return self.open

        def gate(self, on):
            self.open = bool(on)

        def update(self):
            self.output.set_value(ctx.np.ones(N) * (1. if self.open else 0.))

        def __deepcopy__(self, memo):
            return Env()

    class Poly(synths.PolyphonicSynthesizer):
        MAX_VOICES = nVoices

    template = voices.Voice(Osc(), Env())
    poly = Poly(template)
    return poly, made


def sounding(ctx, made, frequency):
    return sum(1 for o, e in zip(made['osc'], made['env']) if e.open and o.frequency.value == frequency)


@harness('C31', quick=grid(voices=[2, 3], steps=[4]), thorough=grid(voices=[2, 3], steps=[5, 6]), timeout=60)
def histories(ctx, voices, steps):
    Note = ctx.mod('klang.messages').Note
    poly, made = build(ctx, voices)
    N = ctx.mod('klang.config').BUFFER_SIZE
    held = []
    started = []     # all notes, in order of their start
    for s in range(steps):
        op = ctx.choice('op%d' % s, ['on', 'off'])
        if op == 'on':
            pitch = ctx.int('p%d' % s, 0, 127)
            for n in held:
                ctx.assume(pitch != n.pitch)
            note = Note(pitch, ctx.real('v%d' % s, .1, 1.), 100. + s)
            held.append(note)
            started.append(note)
        else:
            if not held:
                return
            note = held.pop(ctx.pick('k%d' % s, 0, len(held) - 1)).silence()
        poly.input.push(note)
        if s < steps - 1 and ctx.flag('together%d' % s):
            continue
        poly.update()
        # Notes started longest ago give up their voice to new ones
        alive = [n for n in held if n in started[-voices:]]
        for n in alive:
            ctx.check(sounding(ctx, made, n.frequency) == 1, 'every held note has its voice')
        total = sum(1 for e in made['env'] if e.open)
        ctx.check(total == len(alive), 'only held notes sound')
        want = sum((n.velocity * n.frequency for n in alive), 0.) / voices
        out = poly.output.value
        ctx.eq([out[i] for i in range(N)], [want] * N, 'output is the mean of the voices', tol=1e-9)
    for n in held:
        poly.input.push(n.silence())
    poly.update()
    ctx.check(not any(e.open for e in made['env']), 'no voice hangs after all notes were released')
    out = poly.output.value
    ctx.eq([out[i] for i in range(N)], [0.] * N, 'silence once all notes are released')


@harness('C31', quick=grid(first=[True, False]))
def same_pitch_again(ctx, first):
    """Repeating a note: the release of the first must not be lost, the second keeps a voice until its own."""
    Note = ctx.mod('klang.messages').Note
    poly, made = build(ctx, 3)
    pitch = ctx.int('p', 0, 127)
    a, b = Note(pitch, 1., 100.), Note(pitch, .5, 200.)
    poly.input.push(a)
    if first:
        poly.update()
    poly.input.push(a.silence())
    if ctx.flag('apart'):
        poly.update()
    poly.input.push(b)
    poly.update()
    ctx.check(sounding(ctx, made, 200.) == 1, 'the repeated note sounds')
    ctx.check(sounding(ctx, made, 100.) == 0, 'the first one ended')
    poly.input.push(b.silence())
    poly.update()
    ctx.check(not any(e.open for e in made['env']), 'repeated notes end')


@harness('C31', quick=grid(voices=[24], total=[30]), thorough=grid(voices=[5, 40], total=[100]), timeout=60)
def full(ctx, voices, total):
    """As many voices as the synthesizer has, more notes than voices."""
    Note = ctx.mod('klang.messages').Note
    poly, made = build(ctx, voices)
    N = ctx.mod('klang.config').BUFFER_SIZE
    v = ctx.real('v', .1, 1.)
    notes = [Note(10 + k, v, 100. + k) for k in range(total)]
    for n in notes:
        poly.input.push(n)
        if len(poly.input.queue) > 20:
            poly.update()
    poly.update()
    alive = notes[-voices:]
    ctx.check([sounding(ctx, made, n.frequency) for n in notes] == [1 if n in alive else 0 for n in notes],
              'the voices started longest ago are taken')
    gone = alive.pop(ctx.pick('released', 0, voices - 1))
    poly.input.push(gone.silence())
    poly.update()
    ctx.check([sounding(ctx, made, n.frequency) for n in notes] == [1 if n in alive else 0 for n in notes],
              'a note-off ends its own note and no other')
    out = poly.output.value
    want = v * (sum(n.frequency for n in alive) / voices)
    ctx.eq([out[i] for i in range(N)], [want] * N, 'output is the mean of the voices', tol=1e-6)
    for n in notes:
        poly.input.push(n.silence())
        poly.update()
    ctx.check(not any(e.open for e in made['env']), 'no voice hangs after all notes were released')

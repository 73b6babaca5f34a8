"""C60: drum synthesizers."""
import math

from symx.spec import harness, grid

MODULES = ['klang.audio.synthesizer', 'klang.messages']
BOUNDS = ('kick: frequency or pitch intensity symbolic, up to three decay times, buffers of 3 samples, 2 buffers with up to 2 notes '
          '(on, off, pitch zero); hi-hat: all noise samples, 3 buffers with any notes')
OUTSIDE = 'waveform of the sine (only its argument, bounds and zero are used); longer histories'
DT = 1. / 44100
TAU = 2 * math.pi


def drum_notes(ctx, block, name, n=2):
    """Pushes some notes, returns whether a hit is among them."""
    note = ctx.mod('klang.messages').Note
    hit = False
    for i in range(ctx.pick('n' + name, 0, n)):
        what = ctx.pick('%s%d' % (name, i), 0, 2)
        block.input.push([note(60, .5), note(60, 0.), note(0, 1.)][what])
        hit = hit or what == 0
    return hit


@harness('C60', buffer=3, quick=grid(decay=[.8], pitchDecay=[.3, .002], free=['frequency', 'intensity'], buffers=[2], notes=[1]),
         thorough=grid(decay=[.8, .001], pitchDecay=[.3, .002], free=['frequency', 'intensity'], buffers=[2], notes=[1]) +
         grid(decay=[.05], pitchDecay=[.01], free=['frequency', 'intensity'], buffers=[2], notes=[2]))
def kick(ctx, decay, pitchDecay, free, buffers, notes):
    """Every hit restarts the falling tone, everything else lets it ring."""
    m = ctx.mod('klang.audio.synthesizer')
    frequency = ctx.real('frequency', 20., 200.) if free == 'frequency' else 40.
    intensity = ctx.real('intensity', 0., 4.) if free == 'intensity' else 2.
    drum = m.Kick(frequency, decay, intensity, pitchDecay)
    np = ctx.np
    n, phase = 0, 0.
    for b in range(buffers):
        if drum_notes(ctx, drum, 'abc'[b], notes):
            n, phase = 0, 0.
        drum.update()
        out = drum.output.value
        ctx.check(ctx.shape(out) == (3, ), 'full buffers')
        for i in range(3):
            amplitude = math.exp(-math.pi / decay * n * DT)
            if n == 0:
                ctx.eq(out[i], 0., 'a hit starts with phase zero')
            ctx.eq(out[i], amplitude * np.sin(phase), 'decaying sine with the phase of the falling frequency', tol=1e-8)
            f = frequency * (1. + intensity * math.exp(-math.pi / pitchDecay * n * DT))
            phase = phase + TAU * DT * f
            n += 1


class Dice:

    """numpy's generator of uniform numbers, which delivers values of the harness."""

    def __init__(self, ctx):
        self.ctx, self.given = ctx, []
        rnd = ctx.np.random
        for name in ('random', 'random_sample', 'ranf', 'rand', 'uniform'):
            ctx.patch(rnd, name, getattr(self, 'rand' if name == 'rand' else 'uniform' if name == 'uniform' else 'random'))

    def random(self, size=None):
        k = len(self.given)
        shape = 1 if size is None else size
        n = shape if not isinstance(shape, tuple) else shape[0] if len(shape) == 1 else None
        self.given.append(self.ctx.array('u%d_' % k, n, 0., 1.) if n else None)
        return self.given[-1][0] if size is None else self.given[-1]

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random(size)


@harness('C60', buffer=3, quick=grid(looped=[False, True]))
def hi_hat_noise(ctx, looped):
    """A hit is heard: full range noise times the envelope."""
    m = ctx.mod('klang.audio.synthesizer')
    dice = Dice(ctx)
    drum = m.HiHat(decay=5.5 / 44100, loopedNoise=looped)
    twin = ctx.mod('klang.audio.envelopes').Envelope(0., 5.5 / 44100, 0., 5.5 / 44100, DT)
    note = ctx.mod('klang.messages').Note
    for b in range(3):
        if ctx.flag('hit%d' % b):
            drum.input.push(note(60, .5))
            twin.gate(True)
        drum.update()
        out, env = drum.output.value, twin.sample(3)
        if len(dice.given) != (1 if looped else b + 1):
            return          # noise from another generator
        u = dice.given[-1]
        if u is None or len(u) != 3:
            return
        for v, w, level in zip(out, u, env):
            x = level * (2. * w - 1.)
            ctx.check(ctx.Or(abs(v - x) < 1e-9, abs(v + x) < 1e-9), 'noise of full range times the level of the envelope')


@harness('C60', buffer=3, quick=grid(looped=[False, True]))
def hi_hat(ctx, looped):
    """Noise under a decaying envelope."""
    m = ctx.mod('klang.audio.synthesizer')
    drum = m.HiHat(decay=5.5 / 44100, loopedNoise=looped)
    twin = ctx.mod('klang.audio.envelopes').Envelope(0., 5.5 / 44100, 0., 5.5 / 44100, DT)
    note = ctx.mod('klang.messages').Note
    noise = None
    for b in range(3):
        for i in range(ctx.pick('n%d' % b, 0, 2 if b < 2 else 0)):
            on = ctx.flag('on%d%d' % (b, i))
            drum.input.push(note(60, .5 if on else 0.))
            twin.gate(on)
        drum.update()
        out, env = drum.output.value, twin.sample(3)
        ctx.check(ctx.shape(out) == (3, ), 'full buffers')
        for v, level in zip(out, env):
            ctx.check(ctx.And(v <= level + 1e-9, v >= -level - 1e-9), 'noise stays under the envelope')
        if looped:
            last, noise = noise, [(v, level) for v, level in zip(out, env)]
            if last:
                for (v, a), (w, b_) in zip(last, noise):
                    ctx.eq(v * b_, w * a, 'looped noise repeats')

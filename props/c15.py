"""C15: pure Python envelope (klang/audio/envelope.py)."""
import math

from symx.spec import harness, grid

BOUNDS = ('buffers of 3 and 4 samples; durations between 0 and 9 samples; sustain level symbolic in [0, 1], start and '
          'target levels of single curves symbolic; overshoot 0.001 and 0.5; histories of up to 4 (quick) / 5 (thorough) '
          'events out of gate on, gate off, one buffer; with and without retrigger and loop')
OUTSIDE = ('levels within 1e-6 of the end of a curve (rounding decides about one sample there); settings changed while '
           'running')
ASSUMPTIONS = ['lfilter follows its documentation', 'log is monotone and known at a finite number of points up to 1e-12']
MODULES = ('klang.audio.envelope', 'klang.config')
MARGIN = 1e-6
DT = 1. / 44100


def pole(samples, over):
    return math.exp(-math.log((1. + over) / over) / samples) if samples > 0 else 0.


class Reference:

    def __init__(self, ctx, durations, sustain, over, retrigger, loop):
        self.ctx, self.sustain, self.over = ctx, sustain, over
        self.poles = dict(zip(('attack', 'decay', 'release'), [pole(d, over) for d in durations]))
        self.retrigger, self.loop = retrigger, loop
        self.stage, self.level, self.open, self.changes = 'off', 0., False, 0

    def gate(self, on):
        self.open = on
        if on and (self.retrigger or self.stage in ('off', 'release')):
            self.stage = 'attack'
        elif not on and self.stage in ('attack', 'decay', 'sustain'):
            self.stage = 'release'

    def step(self):
        """(stage, level) of the next sample."""
        for i in range(9):
            if self.stage in ('off', 'sustain'):
                return self.stage, self.sustain if self.stage == 'sustain' else 0.
            goal, sign = {'attack': (1., 1), 'decay': (self.sustain, -1), 'release': (0., -1)}[self.stage]
            over, p = goal + sign * self.over, self.poles[self.stage]
            then = over + (self.level - over) * p
            self.ctx.assume(self.ctx.Or(then - goal > MARGIN, then - goal < -MARGIN, self.level == goal))
            if not self.finished(then, goal, sign):
                ret = self.stage, self.level
                self.level = then
                return ret
            self.level = goal
            self.changes += 1
            ground = self.stage == 'release' and self.loop and self.open
            self.stage = {'attack': 'decay', 'decay': 'release' if self.loop else 'sustain',
                          'release': 'attack' if self.loop and self.open else 'off'}[self.stage]
            if ground:
                return 'ground', 0.
        raise AssertionError('loop without duration')

    def finished(self, then, goal, sign):
        return then >= goal if sign > 0 else then <= goal


def anchors(durations, over):
    ret = []
    for d in durations:
        if d > 0:
            p = pole(d, over)
            ret.extend(over / (1. + over) / p**j for j in range(int(d) + 2))
    return ret


def create(ctx, durations, over, retrigger, loop):
    m = ctx.mod('klang.audio.envelope')
    sustain = ctx.real('sustain', 0., 1.)
    ctx.log_anchors(anchors(durations, over))
    a, d, r = [v * DT for v in durations]
    env = m.Envelope(a, d, sustain, r, overshoot=over, retrigger=retrigger, loop=loop)
    return env, Reference(ctx, durations, sustain, over, retrigger, loop), m


def sample(ctx, env, ref, m, before):
    n = ctx.mod('klang.config').BUFFER_SIZE
    out = env.sample(n)
    ctx.check(ctx.shape(out) == (n, ), 'full buffers')
    for i in range(n):
        stage, want = ref.step()
        v = out[i]
        last, level = before or (None, None)
        last = last == (stage, ref.changes)
        ctx.check(ctx.And(v >= -1e-9, v <= 1. + 1e-9), 'levels lie between 0 and 1')
        ctx.eq(v, want, 'level of %s' % stage, tol=1e-8)
        if last:
            if stage == 'attack':
                ctx.le(level, v, 'attack rises')
            elif stage in ('decay', 'release'):
                ctx.le(v, level, '%s falls' % stage)
        before = (stage, ref.changes), v
    ctx.check(env.active == (ref.stage != 'off'), 'active exactly when not off')
    return before


def play(ctx, env, ref, m, events):
    before = None
    for i in range(events):
        what = ctx.pick('event%d' % i, 0, 2)
        if what < 2:
            env.gate(what == 0)
            ref.gate(what == 0)
            before = None
            ctx.check(env.active == (ref.stage != 'off'), 'active exactly when not off')
        else:
            before = sample(ctx, env, ref, m, before)


TIMES = [(0., 0., 0.), (2.5, 1.5, 3.5), (1.5, 6.5, 1.5), (5.5, 0., 2.5), (0., 3.5, 6.5)]


@harness('C15', buffer=4, quick=grid(durations=TIMES, retrigger=[False, True], events=[5]),
         thorough=grid(durations=TIMES + [(8.5, 8.5, 8.5), (.4, .4, .4), (4., 4., 4.)], retrigger=[False, True], events=[6],
                       over=[1e-3, .5]))
def histories(ctx, durations, retrigger, events, over=.5):
    env, ref, m = create(ctx, durations, over, retrigger, False)
    play(ctx, env, ref, m, events)


@harness('C15', buffer=3, quick=grid(durations=[(2.5, 1.5, 3.5), (1.5, 0., 1.5), (0., 0., 5.5), (1.2, 1.2, 1.2), (0., 0., 0.)],
                                     retrigger=[False, True], events=[4]))
def loops(ctx, durations, retrigger, events, over=.5):
    """Looping envelopes walk attack, decay, release as long as the gate is open."""
    env, ref, m = create(ctx, durations, over, retrigger, True)
    play(ctx, env, ref, m, events)

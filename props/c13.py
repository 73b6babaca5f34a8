"""C13: compiled envelope (LLVM IR of klang/audio/_envelope.c)."""
from symx.spec import harness, grid

BOUNDS = ('histories of up to 4 (quick; 5 without any durations) / 5 (thorough) events out of gate on, gate off, one sample, two samples; every '
          'stage entered from every level; per-sample curve factors symbolic in [0.01, 0.99] (or zero durations), sustain '
          'symbolic in [0, 1], overshoot 0.001, 0.5 and symbolic, with and without retrigger and loop')
OUTSIDE = ('longer histories; levels within 1e-6 of a stage border (rounding decides there); durations beyond some '
           'hundred samples')
ASSUMPTIONS = ['the Python and numpy C API, exp and log follow their documented contract; the compiler is trusted']
MARGIN = 1e-6


class Reference:

    """Exponential ADSR curve from the documentation."""

    def __init__(self, ctx, sustain, factors, over, retrigger, loop):
        self.ctx, self.sustain, self.factors, self.over = ctx, sustain, factors, over
        self.retrigger, self.loop = retrigger, loop
        self.stage, self.level, self.open = 'off', 0., False

    def gate(self, on):
        self.open = on
        if on and (self.retrigger or self.stage in ('off', 'release')):
            self.stage = 'attack'
        elif not on and self.stage in ('attack', 'decay', 'sustain'):
            self.stage = 'release'

    def step(self):
        """(stage of this sample, level)"""
        ctx, stage = self.ctx, self.stage
        if stage == 'off':
            self.level = 0.
        elif stage == 'sustain':
            self.level = self.sustain
        else:
            goal = {'attack': 1., 'decay': self.sustain, 'release': 0.}[stage]
            sign = 1 if stage == 'attack' else -1
            target = goal + sign * self.over
            v = target + (self.level - target) * self.factors[stage]
            ctx.assume(ctx.Or(v - goal > MARGIN, v - goal < -MARGIN))
            done = v >= goal if sign > 0 else v <= goal
            if done:
                v = goal
                self.stage = {'attack': 'decay', 'decay': 'release' if self.loop else 'sustain',
                              'release': 'attack' if self.loop and self.open else 'off'}[stage]
            self.level = v
        return stage, self.level


def create(ctx, zero='', over=1e-3, retrigger=False, loop=False, dt=.125, sustain=None):
    """Envelope and its reference."""
    if over is None:
        over = ctx.real('overshoot', .01, 2.)
    if sustain is None:
        sustain = ctx.real('sustain', 0., 1.)
    factors, args = {}, []
    for stage in ('attack', 'decay', 'release'):
        if stage[0] in zero:
            factors[stage] = 0.
            args.append(0.)
        else:
            factors[stage] = ctx.real(stage, .01, .99)
            args.append(ctx.coefficient(factors[stage], (1. + over) / over) * dt)
    args.insert(2, sustain)
    env = ctx.mod('klang.audio._envelope').Envelope(*args, dt, over, retrigger, loop)
    return env, Reference(ctx, sustain, factors, over, retrigger, loop)


def sample(ctx, env, ref, n):
    before = ref.level
    out = env.sample(n)
    ctx.check(ctx.shape(out) == (n, ), 'as many samples as asked for')
    for i in range(n):
        stage, want = ref.step()
        v = out[i]
        ctx.check(ctx.And(v >= 0., v <= 1.), 'samples lie between 0 and 1')
        ctx.eq(v, want, 'level of %s' % stage)
        if stage == 'attack':
            ctx.le(before, v, 'attack rises')
        elif stage == 'release':
            ctx.le(v, before, 'release falls')
        elif stage == 'decay':
            ctx.le(ref.sustain, v, 'decay stays above sustain')
        before = v
    ctx.check(env.active == (ref.stage != 'off'), 'active exactly when not off')


EVENTS = ('on', 'off', 'one', 'two')


def play(ctx, env, ref, events):
    ctx.check(env.active == (ref.stage != 'off'), 'active exactly when not off')
    for i in range(events):
        what = EVENTS[ctx.pick('event%d' % i, 0, 3)]
        if what in ('on', 'off'):
            env.gate(what == 'on')
            ref.gate(what == 'on')
            ctx.check(env.active == (ref.stage != 'off'), 'active exactly when not off')
        else:
            sample(ctx, env, ref, 1 if what == 'one' else 2)


@harness('C13', ext=True, quick=grid(retrigger=[False, True], loop=[False, True], events=[4]) +
         grid(retrigger=[False], loop=[True], events=[4], over=[.5]),
         thorough=grid(retrigger=[False, True], loop=[False, True], events=[5]) +
         grid(retrigger=[False], loop=[False], events=[4], over=[None]))
def histories(ctx, retrigger, loop, events, over=1e-3):
    env, ref = create(ctx, '', over, retrigger, loop)
    play(ctx, env, ref, events)


@harness('C13', ext=True, quick=grid(zero=['adr', 'ad', 'a', 'dr', 'r'], retrigger=[False], loop=[False, True], events=[4]) +
         grid(zero=['adr'], retrigger=[True], loop=[False, True], events=[5]),
         thorough=grid(zero=['adr', 'ad', 'ar', 'dr', 'd', 'a', 'r'], retrigger=[False, True], loop=[False, True], events=[5]))
def zero_durations(ctx, zero, retrigger, loop, events):
    """Stages without duration are passed in one sample."""
    env, ref = create(ctx, zero, 1e-3, retrigger, loop)
    play(ctx, env, ref, events)


@harness('C13', ext=True, quick=grid(stage=['attack', 'decay', 'release'], loop=[False, True], over=[1e-3, None]),
         thorough=grid(stage=['attack', 'decay', 'release'], loop=[False, True], over=[.5, 100.]))
def from_any_level(ctx, stage, loop, over):
    """Each curve from an arbitrary level (reached with zero durations), new settings set before."""
    level = ctx.real('level', 0., 1.)
    if over is None:
        over = ctx.real('overshoot', .01, 2.)
    env = ctx.mod('klang.audio._envelope').Envelope(0., 0., level, 0., .5, over, True, False)
    env.gate(True)
    ctx.eq(env.sample(2)[1], level, 'sustain level is reached')
    sustain = ctx.real('sustain', 0., 1.)
    env.sustain = sustain
    factors = dict(attack=0., decay=0., release=0.)
    factors[stage] = ctx.real('factor', .01, .99)
    setattr(env, stage, ctx.coefficient(factors[stage], (1. + over) / over) * .5)
    env.loop = loop
    ref = Reference(ctx, sustain, factors, over, True, loop)
    ref.level, ref.stage, ref.open = level, 'sustain', True
    if stage == 'release':
        env.gate(False)
        ref.gate(False)
    else:
        env.gate(True)
        ref.gate(True)
    for i in range(2):
        sample(ctx, env, ref, 2)


@harness('C13', ext=True, quick=grid(rate=[1, 2, 3, 7], over=[1e-3, .5, 10.], dt=[.5, 1. / 44100]),
         thorough=grid(rate=[1, 2, 4, 5, 11, 24], over=[1e-3, .5, 10., 1e6], dt=[.5, .01, 1. / 44100]))
def durations(ctx, rate, over, dt):
    """A full rise or fall takes the given duration (as many samples as fit)."""
    sustain = ctx.real('sustain', 0., .9)
    duration = (rate - .01) * dt
    env = ctx.mod('klang.audio._envelope').Envelope(duration, 0., sustain, duration, dt, over)
    env.gate(True)
    rise = env.sample(rate)
    for i in range(rate - 1):
        ctx.check(rise[i] < 1., 'full level is reached after the attack time, not before')
    ctx.eq(rise[rate - 1], 1., 'full level is reached after the attack time')
    ctx.eq(env.sample(3)[1:], ctx.np.array([sustain, sustain]), 'sustain level is held')
    env.sustain = 1.
    env.sample(1)
    env.gate(False)
    fall = env.sample(rate)
    for i in range(rate - 1):
        ctx.check(fall[i] > 0., 'silence is reached after the release time, not before')
    ctx.eq(fall[rate - 1], 0., 'silence is reached after the release time')
    ctx.check(env.active == False, 'inactive after the release')      # noqa: E712


@harness('C13', ext=True, quick=grid(n=[0, 1, 3, -1, 2**63, 2.5, 'x', None]))
def buffer_sizes(ctx, n):
    env, ref = create(ctx, 'adr')
    env.gate(True)
    ref.gate(True)
    if n in (0, 1, 3):
        sample(ctx, env, ref, n)
    else:
        ctx.raises((ValueError, TypeError, OverflowError, MemoryError, RuntimeError), lambda: env.sample(n),
                   'impossible number of samples raises')
    sample(ctx, env, ref, 2)


@harness('C13', ext=True, quick=grid(value=[0, 1, 2, 0., .5, '', 'x', None, [], [0]]))
def gate_values(ctx, value):
    """The gate takes any truth value."""
    env, ref = create(ctx, '')
    env.gate(value)
    ref.gate(bool(value))
    sample(ctx, env, ref, 2)
    env.gate(not value)
    ref.gate(not value)
    sample(ctx, env, ref, 2)


class Undecided:

    def __bool__(self):
        raise KeyError('neither')


@harness('C13', ext=True, quick=grid(on=[True, False]))
def gate_error(ctx, on):
    """A gate value without truth value raises and changes nothing."""
    env, ref = create(ctx, '')
    env.gate(on)
    ref.gate(on)
    sample(ctx, env, ref, 1)
    ctx.raises(KeyError, lambda: env.gate(Undecided()), 'error of the truth value is passed on')
    sample(ctx, env, ref, 2)


@harness('C13', ext=True, quick=[{}], timeout=60)
def references(ctx):
    env, ref = create(ctx, 'ad')
    env.gate(True)
    ctx.check(not ctx.leaks(lambda: (env.sample(3), env.gate(False), env.gate(True), env.active, env.attack)),
              'calls leave nothing behind')

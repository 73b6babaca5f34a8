"""C59: envelope blocks."""
from symx.spec import harness, grid

MODULES = ['klang.audio.envelopes', 'klang.messages']
BOUNDS = ('all four envelope blocks; sustain level symbolic, durations of 0 to 9 samples, buffers of 4 samples; 3 buffers '
          'with up to 2 notes each; copies taken before or while running')
OUTSIDE = 'longer histories; the curves themselves (C13, C15)'
ASSUMPTIONS = ['blocks run on the Python envelope (same interface as the compiled one)']
DT = 1. / 44100


def setting(ctx, kind, times):
    """(block maker, settings of the underlying envelope)"""
    a, d, r = [t * DT for t in times]
    s = ctx.real('sustain', 0., 1.)
    return {'ADSR': ((a, d, s, r), (a, d, s, r)), 'AR': ((a, r), (a, 0., 1., r)), 'D': ((d, ), (0., d, 0., d)),
            'R': ((r, ), (0., 0., 1., r))}[kind]


def play(ctx, env, twins, name, n=2):
    """One buffer with some notes: the block and the envelopes with gates only."""
    note = ctx.mod('klang.messages').Note
    gates = [ctx.flag('%s%d' % (name, i)) for i in range(ctx.pick('n' + name, 0, n))]
    for on in gates:
        env.input.push(note(60, velocity=.5 if on else 0.))
    env.update()
    out = env.output.value
    for twin in twins:
        for on in gates:
            twin.gate(on)
        ctx.eq(out, twin.sample(4), 'notes gate the envelope in order')
        ctx.check(env.active == twin.active, 'active as long as the envelope')
    ctx.eq(env.current_level, out[3], 'current level is the last sample')
    ctx.check(len(env.input.queue) == 0, 'all notes are consumed')


@harness('C59', quick=grid(kind=['ADSR', 'AR', 'D', 'R'], times=[(2.5, 1.5, 5.5), (0., 3.5, 0.)], loop=[False]) +
         grid(kind=['ADSR', 'AR'], times=[(1.5, 2.5, 1.5)], loop=[True]),
         thorough=grid(kind=['ADSR', 'AR', 'D', 'R'], times=[(2.5, 1.5, 5.5), (0., 3.5, 0.), (1.5, 8.5, 3.5)],
                       loop=[False, True]))
def notes(ctx, kind, times, loop):
    m = ctx.mod('klang.audio.envelopes')
    args, full = setting(ctx, kind, times)
    options = dict(overshoot=.5, retrigger=ctx.flag('retrigger'), loop=loop)
    env = getattr(m, kind)(*args, **options)
    twin = m.Envelope(*full, dt=DT, **options)
    ctx.check(not env.active, 'silent at first')
    for name, v in zip(('attack', 'decay', 'sustain', 'release'), full):
        ctx.eq(getattr(env, name), v, 'settings are read back')
    for i in range(2):
        play(ctx, env, [twin], 'ab'[i])
    play(ctx, env, [twin], 'c', 0)


@harness('C59', quick=grid(kind=['ADSR', 'AR', 'D', 'R'], running=[False, True], loop=[False, True]))
def copies(ctx, kind, running, loop):
    """A copy has the same settings, starts silent and runs on its own."""
    import copy
    m = ctx.mod('klang.audio.envelopes')
    args, full = setting(ctx, kind, (2.5, 1.5, 3.5))
    options = dict(overshoot=.5, retrigger=ctx.flag('retrigger'), loop=loop)
    env = getattr(m, kind)(*args, **options)
    twin, fresh = [m.Envelope(*full, dt=DT, **options) for i in range(2)]
    if running:
        play(ctx, env, [twin], 'a')
    other = copy.deepcopy(env)
    ctx.check(type(other) is type(env) and other is not env, 'copy is an envelope of the same kind')
    ctx.check(other.input is not env.input and other.output is not env.output, 'copy has its own connections')
    for name in ('attack', 'decay', 'sustain', 'release', 'overshoot'):
        ctx.eq(getattr(other, name), getattr(env, name), 'copy has the same %s' % name)
    ctx.check(other.retrigger == env.retrigger and other.loop == env.loop, 'copy has the same flags')
    ctx.check(not other.active, 'copy is silent at first')
    n = 1 if running else 2
    play(ctx, other, [fresh], 'b', n)
    play(ctx, env, [twin], 'c', n)


@harness('C59', quick=grid(kind=['ADSR', 'AR', 'D', 'R']))
def changed_before_copy(ctx, kind):
    """Settings which were changed later are copied, too."""
    import copy
    m = ctx.mod('klang.audio.envelopes')
    args, full = setting(ctx, kind, (2.5, 1.5, 3.5))
    env = getattr(m, kind)(*args)
    names = {'ADSR': ('attack', 'decay', 'sustain', 'release'), 'AR': ('attack', 'release'), 'D': ('decay', ),
             'R': ('release', )}[kind]
    values = [ctx.real("new_" + name, 0., 1.) for name in names]
    for name, v in zip(names, values):
        setattr(env, name, v)
    env.retrigger = ctx.flag('retrigger')
    env.loop = ctx.flag('loop')
    env.overshoot = ctx.real('overshoot', .01, 1.)
    other = copy.deepcopy(env)
    for name, v in zip(names, values):
        ctx.eq(getattr(other, name), v, 'copy has the changed %s' % name)
    ctx.eq(other.overshoot, env.overshoot, 'copy has the changed overshoot')
    ctx.check(other.retrigger == env.retrigger and other.loop == env.loop, 'copy has the changed flags')

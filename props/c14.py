"""C14: parameters of the compiled envelope (LLVM IR of klang/audio/_envelope.c)."""
from symx.spec import harness, grid

BOUNDS = ('every attribute and every constructor argument; values symbolic reals on either side of the valid range, NaN, '
          'infinities, text, None, lists, deletion; in each of the five stages; up to 4 samples afterwards')
OUTSIDE = 'valid settings above 1e6 (except infinity); coefficients through exp and log are compared as terms'
ASSUMPTIONS = ['the Python C API, exp and log follow their documented contract; the compiler is trusted']

NAMES = ('attack', 'decay', 'sustain', 'release', 'overshoot')
STAGES = ('off', 'attack', 'decay', 'sustain', 'release')
REFUSED = (ValueError, TypeError, AttributeError, RuntimeError)
BAD = {'nan': float('nan'), '-inf': -float('inf'), 'text': 'x', 'number': '1', 'none': None, 'list': [.5], 'empty': '',
       'complex': 1j, 'huge': -10**400}


def envelope(ctx):
    return ctx.mod('klang.audio._envelope').Envelope


def settings(env):
    return [getattr(env, name) for name in NAMES]


def parameters(ctx):
    return dict(attack=.4, decay=.5, sustain=.25, release=.7, overshoot=.5)


def bring(env, stage):
    """Bring envelope into a stage."""
    if stage == 'off':
        return
    env.attack, env.decay = 0., 0.
    env.gate(True)
    if stage == 'attack':
        env.attack, env.decay = .4, .5
        env.sample(1)
    elif stage == 'decay':
        env.decay = .5
        env.sample(2)
    else:
        env.sample(3)
        if stage == 'release':
            env.gate(False)
            env.sample(1)
    env.attack, env.decay = .4, .5


def compare(ctx, env, twin, what, n=3):
    for name, a, b in zip(NAMES, settings(env), settings(twin)):
        ctx.eq(a, b, '%s: %s' % (what, name), tol=0)
    ctx.check(env.retrigger == twin.retrigger and env.loop == twin.loop, '%s: flags' % what)
    ctx.check(env.active == twin.active, '%s: active' % what)
    for gate in (None, True, False):
        if gate is not None:
            env.gate(gate)
            twin.gate(gate)
        ctx.eq(env.sample(n), twin.sample(n), '%s: samples' % what)


def bad_value(ctx, name, kind):
    if kind == 'beyond':
        v = ctx.real('v', -1e6, 1e6)
        if name == 'sustain':
            ctx.assume(ctx.Or(v < 0, v > 1))
        else:
            ctx.assume(v < 0)
        return v
    if kind == '+inf':
        return float('inf')
    return BAD[kind]


KINDS = ['beyond'] + sorted(BAD)


@harness('C14', ext=True, quick=grid(name=NAMES, kind=KINDS, stage=STAGES) +
         grid(name=['sustain'], kind=['+inf'], stage=STAGES))
def refused_setting(ctx, name, kind, stage):
    """A refused setting raises and changes nothing."""
    make = envelope(ctx)
    env, twin = [make(.4, .5, .25, .7, .125, .5, True, False) for i in range(2)]
    ctx.real('unused')
    for e in (env, twin):
        bring(e, stage)
    v = bad_value(ctx, name, kind)
    ctx.raises(REFUSED + (OverflowError, ), lambda: setattr(env, name, v), 'invalid %s raises' % name)
    compare(ctx, env, twin, 'as before')


@harness('C14', ext=True, quick=grid(name=NAMES + ('active', 'retrigger', 'loop'), stage=STAGES))
def deleted(ctx, name, stage):
    """Attributes cannot be deleted."""
    make = envelope(ctx)
    env, twin = [make(.4, .5, .25, .7, .125, .5, True, False) for i in range(2)]
    ctx.real('unused')
    for e in (env, twin):
        bring(e, stage)
    ctx.raises(REFUSED, lambda: delattr(env, name), 'deleting %s raises' % name)
    compare(ctx, env, twin, 'as before')


@harness('C14', ext=True, quick=grid(stage=STAGES))
def active_is_read_only(ctx, stage):
    make = envelope(ctx)
    env, twin = [make(.4, .5, .25, .7, .125, .5, True, False) for i in range(2)]
    ctx.real('unused')
    for e in (env, twin):
        bring(e, stage)
    ctx.raises(REFUSED, lambda: setattr(env, 'active', stage == 'off'), 'setting active raises')
    compare(ctx, env, twin, 'as before')


def good_value(ctx, name):
    return ctx.real(name, 0., 1. if name == 'sustain' else 1e6)


@harness('C14', ext=True, quick=grid(name=NAMES, stage=['off']))
def valid_setting(ctx, name, stage):
    """A valid setting is read back and makes the envelope one which was created with it."""
    make = envelope(ctx)
    old = dict(attack=.4, decay=.5, sustain=.25, release=.7, overshoot=.5)
    v = ctx.real(name, 0., 1.) if name == 'sustain' else ctx.real(name, 0., 1e6)
    new = dict(old)
    new[name] = v
    env, twin = make(dt=.125, **old), make(dt=.125, **new)
    setattr(env, name, v)
    want = ctx.max(v, 1e-9) if name == 'overshoot' else v
    ctx.eq(getattr(env, name), want, '%s is read back' % name, tol=0)
    for other in NAMES:
        if other != name:
            ctx.eq(getattr(env, other), old[other], '%s stays' % other, tol=0)
    env.gate(True)
    twin.gate(True)
    ctx.eq(env.sample(2), twin.sample(2), 'same curve')
    env.gate(False)
    twin.gate(False)
    ctx.eq(env.sample(2), twin.sample(2), 'same curve')


@harness('C14', ext=True, quick=grid(first=NAMES, second=NAMES), thorough=grid(first=NAMES, second=NAMES, third=NAMES))
def order_of_settings(ctx, first, second, third=None):
    """Every setting takes effect whatever was set before."""
    make = envelope(ctx)
    old = dict(attack=.4, decay=.5, sustain=.25, release=.7, overshoot=.5)
    env = make(dt=.125, **old)
    for i, name in enumerate((first, second, third)):
        if name:
            v = ctx.real('v%d' % i, 0., 1.)
            setattr(env, name, v)
            old[name] = v
    twin = make(dt=.125, **old)
    for name in NAMES:
        ctx.eq(getattr(env, name), getattr(twin, name), '%s is set' % name, tol=0)
    for gate in (True, False):
        env.gate(gate)
        twin.gate(gate)
        ctx.eq(env.sample(2), twin.sample(2), 'same curve')


@harness('C14', ext=True, quick=grid(value=[0., 1e-12, 1e-9, 1e-3, 1., 1e9, 1e12, float('inf')], where=['set', 'new']))
def extreme_overshoot(ctx, value, where):
    """Overshoot has some headroom."""
    make = envelope(ctx)
    sustain = ctx.real('sustain', 0., 1.)
    env = make(.5, .5, sustain, .5, .125, value) if where == 'new' else make(.5, .5, sustain, .5, .125)
    if where == 'set':
        env.overshoot = value
    ctx.eq(env.overshoot, min(max(value, 1e-9), 1e9), 'overshoot is clipped', tol=0)
    env.gate(True)
    for v in env.sample(6):
        ctx.check(ctx.And(v >= -1e-6, v <= 1. + 1e-6), 'samples lie between 0 and 1')


@harness('C14', ext=True, quick=grid(name=['attack', 'decay', 'release'], where=['set', 'new']))
def endless(ctx, name, where):
    """A stage of infinite length never ends."""
    make = envelope(ctx)
    sustain = ctx.real('sustain', 0., 1.)
    args = dict(attack=0., decay=0., sustain=sustain, release=0., dt=.125)
    if where == 'new':
        args[name] = float('inf')
    env = make(**args)
    if where == 'set':
        setattr(env, name, float('inf'))
    ctx.check(getattr(env, name) == float('inf'), 'duration is read back')
    env.gate(True)
    up = env.sample(3)
    env.gate(False)
    down = env.sample(3)
    want = {'attack': ([0.] * 3, [0.] * 3), 'decay': ([1.] * 3, [0.] * 3),
            'release': ([1., sustain, sustain], [sustain] * 3)}[name]
    if name == 'decay':
        ctx.assume(sustain < 1.)
    if name == 'release':
        ctx.assume(sustain > 0.)
    ctx.eq(up, ctx.np.array(want[0]), 'curve while held')
    ctx.eq(down, ctx.np.array(want[1]), 'curve after the release')


@harness('C14', ext=True, quick=grid(name=['sustain', 'attack', 'overshoot'], value=[0, 1, True, False]))
def integers(ctx, name, value):
    """Whole numbers are numbers."""
    make = envelope(ctx)
    ctx.real('unused')
    env = make(1, 1, 1, 1, 1)
    setattr(env, name, value)
    ctx.eq(getattr(env, name), max(float(value), 1e-9 if name == 'overshoot' else 0.), '%s is read back' % name, tol=0)
    env.gate(True)
    ctx.check(env.active == True, 'runs')     # noqa: E712


@harness('C14', ext=True, quick=grid(stage=STAGES, name=['retrigger', 'loop']))
def flags(ctx, stage, name):
    """Flags are read back and do not disturb anything else."""
    make = envelope(ctx)
    r, l, v = ctx.flag('r'), ctx.flag('l'), ctx.flag('v')
    env = make(.4, .5, .25, .7, .125, .5, r, l)
    ctx.check(env.retrigger == r and env.loop == l, 'flags are read back')
    bring(env, stage)
    before = settings(env)
    active = env.active
    setattr(env, name, v)
    want = dict(retrigger=r, loop=l)
    want[name] = v
    ctx.check(env.retrigger == want['retrigger'] and env.loop == want['loop'], 'flags are read back')
    for a, b in zip(before, settings(env)):
        ctx.eq(a, b, 'parameters stay', tol=0)
    ctx.check(env.active == active, 'still as active as before')


ARGS = ('attack', 'decay', 'sustain', 'release', 'dt', 'overshoot')


@harness('C14', ext=True, quick=grid(name=ARGS, kind=KINDS, again=[None, 'off', 'attack', 'release'], keyword=[False]) +
         grid(name=['sustain'], kind=['+inf'], again=[None, 'decay'], keyword=[False]) +
         grid(name=['attack', 'overshoot'], kind=['beyond', 'text', 'nan'], again=[None, 'decay'], keyword=[True]))
def refused_creation(ctx, name, kind, again, keyword):
    """Nothing is created from invalid parameters; initialising again with them changes nothing."""
    make = envelope(ctx)
    args = dict(attack=.1, decay=.2, sustain=.3, release=.4, dt=.5, overshoot=.6)
    args[name] = bad_value(ctx, name, kind)
    ctx.real('unused')
    pos, kws = (tuple(args[k] for k in ARGS), {}) if not keyword else ((), args)
    if again is None:
        ctx.raises(REFUSED + (OverflowError, ), lambda: make(*pos, **kws), 'creation with invalid %s raises' % name)
        return
    env, twin = [make(.4, .5, .25, .7, .125, .5, True, False) for i in range(2)]
    for e in (env, twin):
        bring(e, again)
    ctx.raises(REFUSED + (OverflowError, ), lambda: env.__init__(*pos, **kws), 'initialising with invalid %s raises' % name)
    compare(ctx, env, twin, 'as before')


@harness('C14', ext=True, quick=grid(kind=['missing', 'none', 'surplus', 'unknown', 'twice', 'zero dt']))
def bad_calls(ctx, kind):
    make = envelope(ctx)
    v = ctx.real('v', 0., 1.)
    calls = {
        'missing': lambda: make(v, v, v, v),
        'none': lambda: make(),
        'surplus': lambda: make(v, v, v, v, .5, .5, True, True, True),
        'unknown': lambda: make(v, v, v, v, .5, level=.5),
        'twice': lambda: make(v, v, v, v, .5, attack=.5),
        'zero dt': lambda: make(v, v, v, v, 0.),
    }
    ctx.raises(REFUSED, calls[kind], 'impossible call raises')


@harness('C14', ext=True, quick=grid(keyword=[False, True], given=[5, 6, 7, 8]))
def creation(ctx, keyword, given):
    """All parameters are read back, the others have their defaults."""
    make = envelope(ctx)
    names = ('attack', 'decay', 'sustain', 'release', 'dt', 'overshoot', 'retrigger', 'loop')
    values = [ctx.real(n, 0., 1e6) for n in names[:2]] + [ctx.real('sustain', 0., 1.), ctx.real('release', 0., 1e6),
                                                         ctx.real('dt', 1e-6, 1e3), ctx.real('overshoot', 1e-6, 1e6),
                                                         ctx.flag('retrigger'), ctx.flag('loop')]
    if keyword:
        order = list(range(given))[::-1]
        env = make(**{names[i]: values[i] for i in order})
    else:
        env = make(*values[:given])
    want = dict(zip(names, values[:given] + [1e-3, False, False][given - 5:]))
    for n in NAMES:
        ctx.eq(getattr(env, n), want[n], '%s is read back' % n, tol=0)
    for n in ('retrigger', 'loop'):
        ctx.check(getattr(env, n) == want[n], '%s is read back' % n)
    ctx.check(env.active == False, 'silent at first')       # noqa: E712
    ctx.eq(env.sample(2), ctx.np.array([0., 0.]), 'silent at first')


@harness('C14', ext=True, quick=grid(kind=['attack', 'bad', 'delete', 'create', 'refuse']), timeout=60)
def references(ctx, kind):
    """Settings leave nothing behind."""
    make = envelope(ctx)
    v = ctx.real('v', 0., 1.)
    env = make(v, v, v, v, .5)

    def bad(fn):
        try:
            fn()
        except REFUSED:
            pass
    fn = {'attack': lambda: (setattr(env, 'attack', .5), env.attack, env.overshoot, env.retrigger),
          'bad': lambda: (bad(lambda: setattr(env, 'sustain', 2.)), bad(lambda: setattr(env, 'sustain', 'x'))),
          'delete': lambda: bad(lambda: delattr(env, 'attack')),
          'create': lambda: ctx.drop(make(.1, .2, .3, .4, .5)),
          'refuse': lambda: bad(lambda: make(.1, .2, 3., .4, .5))}[kind]
    ctx.check(not ctx.leaks(fn), 'nothing is left behind')

"""C51: musical keyboard."""
from symx.spec import harness, grid

MODULES = ['klang.keyboard', 'klang.messages', 'klang.music.tunings', 'klang.execution']
BOUNDS = ('every history of 3 (thorough 4) press / release events of two note keys and one other key from {y, x, c, v, digits, unused, special} in any '
          'octave (0..9) and at any velocity (symbolic)')
OUTSIDE = 'the keyboard listener thread (a stand-in delivers the events); releases of a key under another character (shift)'
ASSUMPTIONS = ['the listener delivers press and release of a key with equal key objects']

OTHERS = ['y', 'x', 'c', 'v', '0', '3', '7', '9', 'q', None]


def quiet(ctx):
    import io
    import sys
    ctx.patch(sys, 'stdout', io.StringIO())


def keyboard(ctx, **kw):
    m = ctx.mod('klang.keyboard')
    c = ctx.mod('klang.connections')
    kb = m.MusicalKeyboard(**kw)
    sinks = []
    for o in kb.outputs:
        sinks.append(c.MessageInput())
        o.connect(sinks[-1])
    return m, kb, sinks


def key(ctx, char):
    from symx import standins as k
    return k.Key('shift') if char is None else k.KeyCode.from_char(char)


def tap(ctx, kb, char):
    kb.on_press(key(ctx, char))
    kb.on_release(key(ctx, char))


class Model:

    def __init__(self, ctx):
        self.ctx = ctx
        self.octave, self.velocity, self.tuning = 5, 1., None
        self.held, self.down = {}, set()
        self.tunings = list(ctx.mod('klang.music.tunings').TEMPERAMENTS.values())
        self.tuning = ctx.mod('klang.music.tunings').EQUAL_TEMPERAMENT

    def change(self, char):
        if char == 'y':
            self.octave = self.ctx.max(self.octave - 1, 0)
        elif char == 'x':
            self.octave = self.ctx.min(self.octave + 1, 9)
        elif char == 'c':
            self.velocity = self.ctx.max(self.velocity - .1, .1)
        elif char == 'v':
            self.velocity = self.ctx.min(self.velocity + .1, 1.)
        elif char is not None and char.isdigit() and int(char) < len(self.tunings):
            self.tuning = self.tunings[int(char)]


BASE = 'awsedftgzhujkolp'


@harness('C51', quick=grid(other=OTHERS, steps=[3]), thorough=grid(other=['x', 'v', '3'], steps=[4]), timeout=60)
def histories(ctx, other, steps):
    quiet(ctx)
    m, kb, (sink,) = keyboard(ctx)
    model = Model(ctx)
    kb.octave = model.octave = ctx.int('octave', 0, 9)
    kb.velocity = model.velocity = ctx.real('velocity', .1, 1.)
    chars = [ctx.choice('first', ['a', 'p']), 's', other]
    for k in range(steps):
        char = chars[ctx.pick('key%d' % k, 0, 2)]
        press = ctx.flag('press%d' % k)
        (kb.on_press if press else kb.on_release)(key(ctx, char))
        want = None
        if press and char not in model.down:
            model.down.add(char)
            if char in BASE if char else False:
                want = (BASE.index(char) + 12 * model.octave, model.velocity)
                model.held[char] = want[0]
            else:
                model.change(char)
        elif not press and char in model.down:
            model.down.discard(char)
            if char in model.held:
                want = (model.held.pop(char), 0.)
        got = list(sink.receive())
        ctx.check(len(got) == (want is not None), 'one note for each press and release of a note key, none otherwise')
        if want is not None:
            ctx.check(got[0].pitch == want[0], 'the pitch of the key; releases end the note of their press')
            ctx.eq(got[0].velocity, want[1], 'current velocity, silent when released')
            if press:
                ctx.eq(got[0].frequency, model.tuning.pitch_2_frequency(want[0]), 'current temperament')


@harness('C51', quick=[{}], timeout=60)
def limits(ctx):
    """Octave and velocity stay playable."""
    quiet(ctx)
    m, kb, (sink,) = keyboard(ctx)
    model = Model(ctx)
    kb.octave = model.octave = ctx.int('octave', 0, 9)
    kb.velocity = model.velocity = ctx.real('velocity', .1, 1.)
    char = ctx.choice('char', ['y', 'x', 'c', 'v'])
    for _ in range(ctx.pick('taps', 1, 2)):
        tap(ctx, kb, char)
        model.change(char)
    back = {'y': 'x', 'x': 'y', 'c': 'v', 'v': 'c'}[char]
    for _ in range(ctx.pick('back', 0, 2)):
        tap(ctx, kb, back)
        model.change(back)
    note = ctx.choice('note', ['a', 's', 'p'])
    tap(ctx, kb, note)
    got = list(sink.receive())
    ctx.check(len(got) == 2 and got[0].on and got[1].off, 'every note key plays')
    ctx.eq([g.pitch for g in got], [BASE.index(note) + 12 * model.octave] * 2, 'pitch of the key')
    ctx.eq(got[0].velocity, model.velocity, 'velocity')
    ctx.check(ctx.And(got[0].velocity > 0, got[0].velocity <= 1, got[1].pitch < 128), 'playable range')


@harness('C51', quick=grid(other=OTHERS))
def bypass(ctx, other):
    """Remaining keys go to the second output if asked for, once per press and release."""
    quiet(ctx)
    m, kb, sinks = keyboard(ctx, others=True)
    tap(ctx, kb, 'a')
    kb.on_press(key(ctx, other))
    kb.on_press(key(ctx, other))
    kb.on_release(key(ctx, other))
    kb.on_release(key(ctx, other))
    ctx.check(len(list(sinks[0].receive())) == 2, 'notes go to the main output')
    events = [getattr(e, 'char', None) for e in sinks[1].receive()]
    if other in ('q', None):
        ctx.check(events == [other, other], 'press and release of other keys')
    else:
        ctx.check(events in ([], [other]), 'control keys are not notes')


@harness('C51', quick=grid(steps=[4]), thorough=grid(steps=[6]))
def plain(ctx, steps):
    """The base class reports every key once per press and release; start and stop go to the listener."""
    m = ctx.mod('klang.keyboard')
    quiet(ctx)
    kb = m.Keyboard()
    ctx.check(list(ctx.mod('klang.execution').determine_execution_order([kb])) == [kb], 'runs as a block')
    sink = ctx.mod('klang.connections').MessageInput()
    kb.output.connect(sink)
    log = []
    ctx.patch(kb.keyWorker, 'start', lambda: log.append('start'))
    ctx.patch(kb.keyWorker, 'stop', lambda: log.append('stop'))
    kb.start()
    ctx.check(log == ['start'], 'start runs the listener')
    down = {}
    for k in range(steps):
        char = 'aq'[ctx.pick('key%d' % k, 0, 1)]
        press = ctx.flag('press%d' % k)
        (kb.on_press if press else kb.on_release)(key(ctx, char))
        got = list(sink.receive())
        news = press != down.get(char, False)
        ctx.check(len(got) == news, 'one event for each press and release')
        if news:
            ctx.check(got[0].char == char and bool(got[0].pressed) == press, 'the key and its state')
        down[char] = press
    kb.stop()
    ctx.check(log == ['start', 'stop'], 'stop ends the listener')

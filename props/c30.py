"""C30: note priority of a monophonic synthesizer."""
from symx.spec import harness, grid

MODULES = ['klang.audio.synthesizer', 'klang.messages']
BOUNDS = 'all note histories of 4 (thorough 5) messages; symbolic pitches 0..127, velocities and frequencies; at most one held note per pitch; 8 held notes in six orders with all releases of two notes; pairs after 61..70 (thorough 291..300) earlier notes'
OUTSIDE = 'two note-ons of the same pitch without a note-off in between; longer histories'
POLICIES = ['newest', 'oldest', 'lowest', 'highest']


def synth(ctx, policy):
    """Monophonic synthesizer on a voice which only collects what it gets."""
    Block = ctx.mod('klang.block').Block
    MessageInput = ctx.mod('klang.connections').MessageInput

    class Recorder(Block):
        active = False

        def __init__(self):
            super().__init__(nOutputs=1)
            self.inputs = [MessageInput(owner=self)]

        def update(self):
            pass

    voice = Recorder()
    return voice, ctx.mod('klang.audio.synthesizer').MonophonicSynthesizer(voice, policy)


def selected(held, policy):
    if policy == 'newest':
        return held[-1]
    if policy == 'oldest':
        return held[0]
    best = held[0]
    for n in held[1:]:
        if (n.pitch > best.pitch) if policy == 'highest' else (n.pitch < best.pitch):
            best = n
    return best


@harness('C30', quick=grid(policy=POLICIES, steps=[3, 4]), thorough=grid(policy=POLICIES, steps=[5]), timeout=60)
def histories(ctx, policy, steps):
    Note = ctx.mod('klang.messages').Note
    voice, mono = synth(ctx, policy)
    held = []
    direct = ctx.flag('direct')
    for s in range(steps):
        op = ctx.choice('op%d' % s, ['on', 'off', 'stray'])
        if op == 'on':
            pitch = ctx.int('p%d' % s, 0, 127)
            for n in held:
                ctx.assume(pitch != n.pitch)
            vel = ctx.real('v%d' % s, 0., 1.)
            ctx.assume(vel > 0)
            note = Note(pitch, vel, ctx.real('f%d' % s, 0., 5000.))
            held.append(note)
        elif op == 'off':
            if not held:
                return
            note = held.pop(ctx.pick('k%d' % s, 0, len(held) - 1)).silence()
        else:
            pitch = ctx.int('p%d' % s, 0, 127)
            for n in held:
                ctx.assume(pitch != n.pitch)
            note = Note(pitch, 0., 440.)
        if direct:
            mono.play_note(note)
        else:
            mono.input.push(note)
            mono.update()
        got = list(voice.input.receive())
        ctx.check(len(got) == 1, 'every message decides anew which note sounds')
        if held:
            want = selected(held, policy)
            ctx.check(ctx.And(got[0].pitch == want.pitch, got[0].velocity == want.velocity,
                              got[0].frequency == want.frequency), 'the policy selects among the held notes')
        else:
            ctx.check(got[0].off, 'silence once no note is held')


@harness('C30', quick=grid(policy=POLICIES, n=[3, 4]), thorough=grid(policy=POLICIES, n=[5]))
def buffer_full(ctx, policy, n):
    """Several messages in one buffer, in order."""
    Note = ctx.mod('klang.messages').Note
    voice, mono = synth(ctx, policy)
    notes = [Note(ctx.int('p%d' % i, 0, 127), 1., 100. + i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(notes[i].pitch != notes[j].pitch)
    held = []
    for note in notes:
        mono.input.push(note)
    mono.update()
    got = list(voice.input.receive())
    ctx.check(len(got) == n, 'one decision per message')
    for note, g in zip(notes, got):
        held.append(note)
        ctx.check(g.pitch == selected(held, policy).pitch, 'messages of one buffer are handled in order')
    order = ctx.choice('order', ['forwards', 'backwards'])
    for note in (notes if order == 'forwards' else notes[::-1]):
        mono.input.push(note.silence())
    mono.update()
    got = list(voice.input.receive())
    ctx.check(len(got) == n, 'one decision per message')
    for note, g in zip(notes if order == 'forwards' else notes[::-1], got):
        held.remove(note)
        if held:
            ctx.check(ctx.And(g.on, g.pitch == selected(held, policy).pitch), 'next note takes over on release')
        else:
            ctx.check(g.off, 'silence at the end')


ORDERS = ['01234567', '76543210', '15276034', '40625137', '73516204', '04152637']


@harness('C30', quick=grid(policy=POLICIES, order=ORDERS[2:4]), thorough=grid(policy=POLICIES, order=ORDERS), timeout=90)
def many(ctx, policy, order):
    """Eight held notes; two of them are released, then always the first or the last one which is left."""
    Note = ctx.mod('klang.messages').Note
    voice, mono = synth(ctx, policy)
    base = ctx.int('base', 0, 100)
    held = [Note(base + 3 * int(c), 1., 100. + 50. * int(c)) for c in order]
    for note in held:
        mono.play_note(note)
    for c in order:
        voice.input.receive_latest()
    a, b, end = ctx.pick('a', 0, 7), ctx.pick('b', 0, 6), ctx.choice('end', [0, -1])
    k = 0
    while held:
        note = held.pop(a if k == 0 else b if k == 1 else end)
        k += 1
        mono.play_note(note.silence())
        got = list(voice.input.receive())
        ctx.check(len(got) == 1, 'every message decides anew which note sounds')
        if not held:
            ctx.check(got[0].off, 'silence at the end')
            break
        by_pitch = sorted(held, key=lambda n: n.frequency)      # frequencies ascend with the pitches
        want = {'newest': held[-1], 'oldest': held[0], 'lowest': by_pitch[0], 'highest': by_pitch[-1]}[policy]
        ctx.check(ctx.And(got[0].on, got[0].frequency == want.frequency), 'the policy selects among the held notes')


@harness('C30', quick=grid(policy=POLICIES, n=[70]), thorough=grid(policy=POLICIES, n=[300]), timeout=90)
def later(ctx, policy, n):
    """The choice does not depend on how many notes were played before."""
    Note = ctx.mod('klang.messages').Note
    voice, mono = synth(ctx, policy)
    timed = policy in ('newest', 'oldest')
    for k in range(ctx.pick('before', 0, 2) if timed else 0):
        mono.play_note(Note(60, 1., 100.))
        mono.play_note(Note(60, 0., 100.))
    for k in range(n):
        mono.play_note(Note(60, 1., 100.))
        mono.play_note(Note(60, 0., 100.))
        voice.input.receive_latest()
        if not timed and k < n - 9:
            continue
        a, b = ctx.int('a%d' % k, 0, 127), ctx.int('b%d' % k, 0, 127)
        ctx.assume(a != b)
        held = [Note(a, 1., 200.), Note(b, .5, 300.)]
        for note in held:
            mono.play_note(note)
        got = voice.input.receive_latest()
        ctx.check(got.frequency == selected(held, policy).frequency, 'the policy selects among the held notes')
        for note in held:
            mono.play_note(note.silence())
        ctx.check(voice.input.receive_latest().off, 'silence at the end')


@harness('C30', buffer=3, quick=grid(buffers=[3]), thorough=grid(buffers=[5]))
def sound(ctx, buffers):
    """The output is the signal of the voice while it is active, silence otherwise."""
    Note = ctx.mod('klang.messages').Note
    voice, mono = synth(ctx, 'newest')
    calls = []
    state = {}

    def update():
        calls.append(len(voice.input.queue) if hasattr(voice.input, 'queue') else None)
        list(voice.input.receive())
        voice.output.set_value(state['x'])

    voice.update = update
    for b in range(buffers):
        state['x'] = x = ctx.array('x%d_' % b, 3)
        keep = x.copy()
        voice.active = ctx.flag('active%d' % b)
        if ctx.flag('note%d' % b):
            mono.input.push(Note(60 + b, 1., 440.))
            voice.active = True
        del calls[:]
        mono.update()
        out = mono.output.value
        if voice.active:
            ctx.check(len(calls) == 1, 'the voice runs once per buffer')
            ctx.eq(out, keep, 'output is the signal of the voice')
        else:
            ctx.check(len(calls) <= 1, 'the voice runs at most once per buffer')
            ctx.eq(out, ctx.np.zeros(3), 'silence without an active voice')

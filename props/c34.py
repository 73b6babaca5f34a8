"""C34: note lengthener."""
from symx.spec import harness, grid

MODULES = ['klang.note_effects', 'klang.clock', 'klang.connections', 'klang.messages']
BOUNDS = 'histories of 3 (thorough 4) updates at symbolic increasing clock times, 0..2 messages each, symbolic duration; 40 (thorough 140) notes at once'
OUTSIDE = 'changing the duration while notes are active'


@harness('C34', quick=grid(plan=[('n', 'n', ''), ('nn', '', ''), ('n', 'o', ''), ('no', 'n', ''), ('n', '', 'n'), ('o', 'n', 'n'), ('nn', 'o', 'n')]),
         thorough=grid(plan=[('nn', 'nn', '', ''), ('no', 'on', 'n', ''), ('n', 'n', 'n', 'n')]), timeout=60)
def lengthen(ctx, plan):
    m = ctx.mod('klang.note_effects')
    Note = ctx.mod('klang.messages').Note
    clock = ctx.mod('klang.clock').ClockMixin
    MessageInput = ctx.mod('klang.connections').MessageInput
    duration = ctx.real('d', 0., 4.)
    ctx.assume(duration > 0)
    block = m.NoteLengthener(duration)
    sink = MessageInput()
    block.output.connect(sink)
    now = ctx.real('t0', 0., 10.)
    pending = []
    pitch = 0
    for u in range(len(plan) + 1):
        clock.set_current_time(now)
        want, rest = [], []
        for end, n in pending:
            if end <= now:
                want.append(n.silence())
            else:
                rest.append((end, n))
        pending = rest
        if u < len(plan):
            for kind in plan[u]:
                pitch += 1
                n = Note(10 + pitch, ctx.real('v%d' % pitch, .1, 1.) if kind == 'n' else 0., 100. + pitch)
                block.input.push(n)
                if kind == 'n':
                    want.append(n)
                    pending.append((now + duration, n))
        block.update()
        got = list(sink.receive())
        ctx.check(len(got) == len(want), 'note-ons at once, note-offs once after the duration')
        for g, w in zip(got, want):
            ctx.check(ctx.And(g.pitch == w.pitch, g.velocity == w.velocity, g.frequency == w.frequency),
                      'note-ons at once, note-offs once after the duration')
        step = ctx.real('s%d' % u, 0., 6.)
        now = now + (step if u < len(plan) - 1 else 5. + step)
    clock.set_current_time(now)
    block.update()
    ctx.check(list(sink.receive()) == [], 'nothing after all notes ended')


@harness('C34', quick=grid(n=[40], repeats=[1, 8]), thorough=grid(n=[140], repeats=[1, 140]), timeout=60)
def many(ctx, n, repeats):
    """Every one of many notes gets its end."""
    m = ctx.mod('klang.note_effects')
    Note = ctx.mod('klang.messages').Note
    clock = ctx.mod('klang.clock').ClockMixin
    duration = ctx.real('d', .1, 4.)
    block = m.NoteLengthener(duration)
    got = []
    ctx.patch(block.output, 'send', got.append)
    now = ctx.real('t0', 0., 10.)
    notes = [Note(60 + k // repeats % 60, 1., 100. + k) for k in range(n)]
    for half in range(2):
        clock.set_current_time(now)
        for k in range(half, n, 2):
            block.input.push(notes[k])
            if len(block.input.queue) == 25:
                block.update()
        block.update()
        now = now + .01
    ctx.check(len(got) == n and all(g.on for g in got), 'every note-on passes at once')
    order = [g.pitch for g in got]
    del got[:]
    clock.set_current_time(now + duration)
    block.update()
    ctx.check([g.pitch for g in got] == order and all(g.off for g in got), 'every note ends once')
    del got[:]
    clock.set_current_time(now + 3 * duration)
    block.update()
    ctx.check(got == [], 'nothing after all notes ended')

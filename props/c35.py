"""C35: note limiter."""
from symx.spec import harness, grid

MODULES = ['klang.note_effects', 'klang.connections', 'klang.messages']
BOUNDS = 'limits up to 20 (thorough 100) with 60 (300) notes; n in 1..3; histories of 4 (thorough 6) note-ons / note-offs spread over updates; symbolic pitches and velocities'
OUTSIDE = 'longer histories'


@harness('C35', quick=grid(n=[1, 2, 3], steps=[4]), thorough=grid(n=[1, 2, 3], steps=[5, 6]), timeout=60)
def limit(ctx, n, steps):
    m = ctx.mod('klang.note_effects')
    Note = ctx.mod('klang.messages').Note
    MessageInput = ctx.mod('klang.connections').MessageInput
    block = m.MaxNotes(n)
    sink = MessageInput()
    block.output.connect(sink)
    active, want = [], []
    played = []
    for s in range(steps):
        if played and ctx.flag('off%d' % s):
            block.input.push(played[ctx.pick('k%d' % s, 0, len(played) - 1)].silence())
        else:
            note = Note(ctx.int('p%d' % s, 0, 127), ctx.real('v%d' % s, .1, 1.), 100. + s)
            played.append(note)
            block.input.push(note)
            active.append(note)
            if len(active) > n:
                want.append(active.pop(0).silence())
            want.append(note)
        if s == steps - 1 or ctx.flag('update%d' % s):
            block.update()
            got = list(sink.receive())
            sound = [g for g in got if g.on]
            ctx.check([g.frequency for g in sound] == [w.frequency for w in want if w.on], 'every new note sounds')
            ctx.check(len(got) == len(want), 'the oldest note ends before the limit is exceeded, once')
            for g, w in zip(got, want):
                ctx.check(ctx.And(g.pitch == w.pitch, g.velocity == w.velocity, g.frequency == w.frequency),
                          'the oldest note ends before the limit is exceeded')
            want = []


@harness('C35', quick=grid(n=[2, 16, 20], total=[60]), thorough=grid(n=[1, 40, 100], total=[300]), timeout=60)
def many(ctx, n, total):
    """Larger limits and long histories."""
    m = ctx.mod('klang.note_effects')
    Note = ctx.mod('klang.messages').Note
    block = m.MaxNotes(n)
    got = []
    ctx.patch(block.output, 'send', got.append)
    v = ctx.real('v', .1, 1.)
    batch = ctx.choice('batch', [1, 7, 45])
    on, order = [], []
    for k in range(total):
        block.input.push(Note(k % 120, v, 100. + k))
        if k % 9 == 4:
            block.input.push(Note(k % 120, 0., 100. + k))
        if k % batch == batch - 1 or k == total - 1:
            block.update()
    for g in got:
        if g.on:
            on.append(g.frequency)
            order.append(g.frequency)
            ctx.check(len(on) <= n, 'never more notes than the limit')
            ctx.check(g.velocity == v, 'notes pass as they are')
        else:
            ctx.check(len(on) == n and g.frequency == on[0], 'only the oldest note over the limit ends, once')
            on.pop(0)
    ctx.check(order == [100. + k for k in range(total)], 'every new note sounds')
    ctx.check(len(on) == min(n, total), 'the limit is used')

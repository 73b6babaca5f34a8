"""C38: arpeggiator block."""
from symx.spec import harness, grid

MODULES = ['klang.arpeggiator', 'klang.audio.oscillators', 'klang.messages']
BOUNDS = ('key histories over 5 (thorough 8) buffers of 4 samples with up to 2 (3) notes; symbolic pitches; intervals of 1, 1.5, 2 and 2.5 '
          'buffers; orders up, down')
OUTSIDE = 'intervals shorter than a buffer; other orders of the notes (C37)'


@harness('C38', quick=grid(interval=['1', '3/2', '5/2'], order=['up', 'down'], steps=[5], n=[2]),
         thorough=grid(interval=['1', '3/2', '2', '5/2'], order=['up', 'upDown'], steps=[8], n=[2]) +
         grid(interval=['1'], order=['up'], steps=[6], n=[3]), timeout=60)
def keys(ctx, interval, order, steps, n):
    m = ctx.mod('klang.arpeggiator')
    Note = ctx.mod('klang.messages').Note
    c = ctx.mod('klang.connections')
    cfg = ctx.mod('klang.config')
    num, den = (interval + '/1').split('/')[:2]
    seconds = int(num) / int(den) * cfg.BUFFER_SIZE / cfg.SAMPLING_RATE
    arp = m.Arpeggiator(seconds, order)
    sink = c.MessageInput()
    arp.output.connect(sink)
    ns = []
    for i in range(n):
        p = ctx.int('p%d' % i, 0, 127)
        for o in ns:
            ctx.assume(p > o.pitch)
        v = ctx.real('v%d' % i, 0., 1.)
        ctx.assume(v > 0)
        ns.append(Note(p, v, 100. + i))
    held = [False] * n
    playing = None
    ended_after_release = 0
    for s in range(steps):
        k = ctx.pick('k%d' % s, 0, n)      # n: no key event
        if k < n:
            held[k] = not held[k]
            arp.input.push(ns[k] if held[k] else ns[k].silence())
        arp.update()
        for msg in sink.receive():
            if msg.on:
                ctx.check(playing is None, 'the previous note ends before the next starts')
                ctx.check(any(h and x.frequency == msg.frequency for h, x in zip(held, ns)), 'only held notes are played')
                playing = msg
            else:
                ctx.check(playing is not None and msg.pitch == playing.pitch, 'only the sounding note is ended, once')
                playing = None
    for k in range(n):
        if held[k]:
            arp.input.push(ns[k].silence())
    for s in range(4):
        arp.update()
        for msg in sink.receive():
            ctx.check(msg.off, 'nothing is played without held keys')
            ctx.check(playing is not None and msg.pitch == playing.pitch, 'the last note is ended once')
            playing = None
    ctx.check(playing is None, 'no note hangs')


@harness('C38', quick=grid(order=['up', 'down', 'upDown'], n=[1, 2, 3]))
def tempo(ctx, order, n):
    """One note per interval, in order."""
    m = ctx.mod('klang.arpeggiator')
    Note = ctx.mod('klang.messages').Note
    c = ctx.mod('klang.connections')
    cfg = ctx.mod('klang.config')
    per = ctx.pick('buffers', 1, 3)
    # Half a sample more: the triggers do not hang on rounding
    seconds = (per * cfg.BUFFER_SIZE + .5 / 8) / cfg.SAMPLING_RATE
    ns = [Note(ctx.int('p%d' % i, 40 * i, 40 * i + 39), 1., 100. + i) for i in range(n)]
    arp = m.Arpeggiator(seconds, order, ns)
    sink = c.MessageInput()
    arp.output.connect(sink)
    ref = m.Arpeggio(order, ns)
    on = []
    for s in range(4 * per + 1):
        arp.update()
        on.append([x for x in sink.receive() if x.on])
    counts = [len(x) for x in on]
    ctx.check(max(counts) <= 1, 'at most one note per buffer')
    at = [i for i, k in enumerate(counts) if k]
    ctx.check(len(at) >= 4, 'one note per interval')
    gaps = [b - a for a, b in zip(at, at[1:])]
    ctx.check(all(per <= g <= per + 1 for g in gaps), 'one note per interval')
    for i in at:
        ctx.check(on[i][0].frequency == next(ref).frequency, 'notes in the order of the arpeggio')

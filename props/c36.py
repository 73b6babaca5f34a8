"""C36: message mixer."""
from symx.spec import harness, grid

MODULES = ['klang.note_effects', 'klang.connections']
BOUNDS = '40 channels and 49 waiting messages each; up to 3 channels (one added later), every distribution of 4 (thorough 6) symbolic messages over channels and updates'
OUTSIDE = 'more than 50 messages waiting on a channel (C04)'


@harness('C36', quick=grid(n=[1, 2], later=[0, 1], total=[4]), thorough=grid(n=[1, 2, 3], later=[0, 1], total=[5]), timeout=60)
def mix(ctx, n, later, total):
    m = ctx.mod('klang.note_effects')
    c = ctx.mod('klang.connections')
    block = m.MessageMixer(n)
    ctx.check(len(block.inputs) == n, 'number of channels')
    sink = c.MessageInput()
    block.output.connect(sink)
    queues = [[] for _ in range(n)]
    outs = []
    for i in block.inputs:
        outs.append(c.MessageOutput())
        outs[-1].connect(i)
    for k in range(total):
        if k == 1 and later:
            block.add_new_channel()
            queues.append([])
            outs.append(c.MessageOutput())
            outs[-1].connect(block.inputs[-1])
        v = ctx.real('m%d' % k)
        ch = ctx.pick('c%d' % k, 0, len(queues) - 1)
        outs[ch].send(v)
        queues[ch].append(v)
        if k == total - 1 or ctx.flag('u%d' % k):
            block.update()
            ctx.eq(list(sink.receive()), [v for q in queues for v in q], 'every message once, in channel order')
            queues = [[] for _ in queues]
    block.update()
    ctx.check(list(sink.receive()) == [], 'nothing is repeated')


@harness('C36', quick=grid(n=[2, 40]), timeout=60)
def many(ctx, n):
    """Full queues and many channels."""
    m = ctx.mod('klang.note_effects')
    block = m.MessageMixer(n)
    got = []
    ctx.patch(block.output, 'send', got.append)
    v = ctx.real('v')
    each = ctx.choice('each', [1, 7, 49])
    for r in range(2):
        for k in range(each):
            for c, i in enumerate(block.inputs):
                i.push((c, r, k, v))
        block.update()
        ctx.check([g[:3] for g in got] == [(c, r, k) for c in range(n) for k in range(each)], 'every message once, in channel order')
        ctx.check(ctx.And(*[g[3] == v for g in got[:9]]), 'messages pass as they are')
        del got[:]

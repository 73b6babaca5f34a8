"""C04: message delivery."""
from symx.spec import harness, grid

MODULES = ['klang.connections']
BOUNDS = ('fan-outs of one output to 2 direct inputs, a relay with 2 inputs and a relay chain; histories of 3 '
          '(quick) / 4 (thorough) send / receive / receive-latest / rewire steps; queue fill levels 0..3 and 47..53')
OUTSIDE = 'more than 53 waiting messages; more than two relays in a chain'


@harness('C04', quick=grid(steps=[3]), thorough=grid(steps=[4]))
def histories(ctx, steps):
    m = ctx.mod('klang.connections')
    out = m.MessageOutput()
    relay, relay2 = m.MessageRelay(), m.MessageRelay()
    ins = [m.MessageInput() for _ in range(4)]
    out.connect(ins[0])
    out.connect(relay)
    relay.connect(ins[1])
    relay.connect(relay2)
    relay2.connect(ins[2])
    relay2.connect(ins[3])
    linked = [True] * 4
    queues = [[] for _ in ins]
    parents = [out, relay, relay2, relay2]
    count = 0
    for s in range(steps):
        op = ctx.choice('op%d' % s, ['send', 'send2', 'receive', 'first', 'latest', 'rewire'])
        if op in ('send', 'send2'):
            for _ in range(1 if op == 'send' else 2):
                v = ctx.real('m%d' % count)
                count += 1
                out.send(v)
                for q, on in zip(queues, linked):
                    if on:
                        q.append(v)
            continue
        k = ctx.pick('k%d' % s, 0, 3)
        if op == 'receive':
            got = list(ins[k].receive())
            ctx.eq(got, queues[k], 'receiving drains the queue in sending order')
            queues[k] = []
        elif op == 'first':
            got = next(iter(ins[k].receive()), 'nothing')
            if queues[k]:
                ctx.eq(got, queues[k][0], 'oldest message comes first')
                queues[k] = queues[k][1:]
            else:
                ctx.check(got == 'nothing', 'no message is invented')
        elif op == 'latest':
            got = ins[k].receive_latest()
            if queues[k]:
                ctx.eq(got, queues[k][-1], 'latest message is the newest')
            else:
                ctx.check(got is None, 'no message is invented')
            queues[k] = []
        else:
            if linked[k]:
                parents[k].disconnect(ins[k])
            else:
                parents[k].connect(ins[k])
            linked[k] = not linked[k]
    for k in range(4):
        ctx.eq(list(ins[k].receive()), queues[k], 'each input gets each message once, in order')
        ctx.check(ins[k].receive_latest() is None, 'drained queue is empty')


@harness('C04', quick=grid(n=[0, 1, 3, 47, 49, 50, 51, 53]))
def limit(ctx, n):
    """An input keeps the newest 50 messages; full inputs do not disturb others."""
    m = ctx.mod('klang.connections')
    out = m.MessageOutput()
    a, b = m.MessageInput(), m.MessageInput()
    relay = m.MessageRelay()
    out.connect(a)
    out.connect(relay)
    relay.connect(b)
    msgs = ctx.reals('m', n)
    drain = ctx.choice('drain', [None, 1, 20])
    want = []
    for i, v in enumerate(msgs):
        if drain is not None and i == drain:
            ctx.eq(list(b.receive()), want, 'draining yields what was sent')
            want = []
        out.send(v)
        want.append(v)
    ctx.observe('n', len(a.queue))
    mode = ctx.choice('mode', ['receive', 'latest'])
    if mode == 'receive':
        ctx.eq(list(a.receive()), msgs[-50:], 'the newest 50 are kept in order')
    else:
        got = a.receive_latest()
        if n:
            ctx.eq(got, msgs[-1], 'latest is the newest')
        else:
            ctx.check(got is None, 'nothing to receive')
    ctx.eq(list(a.receive()), [], 'empty afterwards')
    ctx.eq(list(b.receive()), want[-50:], 'other inputs keep their own queue')


@harness('C04', quick=[{}])
def same_objects(ctx):
    """Messages are delivered as sent (falsy ones too), to every input the same object."""
    m = ctx.mod('klang.connections')
    out, a, b = m.MessageOutput(), m.MessageInput(), m.MessageInput()
    out.connect(a)
    out.connect(b)
    msg = ctx.choice('msg', [0, '', (), None, False, 'x', (1, 2)])
    out.send(msg)
    out.send('end')
    first = list(a.receive())
    ctx.check(len(first) == 2 and first[0] is msg and first[1] == 'end', 'delivered as sent')
    ctx.check(b.receive_latest() == 'end', 'latest')
    ctx.check(list(b.receive()) == [], 'rest discarded')

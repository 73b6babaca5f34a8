"""C02: connection graph integrity."""
from symx.spec import harness, grid

MODULES = ['klang.connections']
BOUNDS = ('2 outputs, 2 inputs and 2 relays of a kind (plain, value, message) plus one of a foreign kind; all '
          'sequences of 2 (quick) / 3 (thorough) connect or disconnect calls from either end, from every state '
          'reachable in that many calls (in the longer ones each call but the last changes something)')
OUTSIDE = 'longer call sequences; which exception disconnecting an unconnected pair raises (if any)'

KINDS = {'base': ('OutputBase', 'RelayBase', 'InputBase'), 'value': ('Output', 'Relay', 'Input'),
         'message': ('MessageOutput', 'MessageRelay', 'MessageInput')}


def integrity(ctx, outs, ins, label):
    for o in outs:
        for i in ins:
            a = any(x is i for x in o.outgoingConnections)
            b = i.incomingConnection is o
            ctx.check(a == b, '%s: both ends agree' % label)
        ctx.check(len(o.outgoingConnections) == sum(1 for i in ins if i.incomingConnection is o),
                  '%s: no stale destination' % label)
        if o not in ins:
            ctx.check(bool(o.connected) == any(i.incomingConnection is o for i in ins),
                      '%s: output reports connected' % label)
    for i in ins:
        n = sum(1 for o in outs if any(x is i for x in o.outgoingConnections))
        ctx.check(n <= 1, '%s: at most one source' % label)
        ctx.check((i.incomingConnection is not None) == (n == 1), '%s: source known' % label)


def snapshot(outs, ins):
    return ([frozenset(id(x) for x in o.outgoingConnections) for o in outs],
            [id(i.incomingConnection) for i in ins])


@harness('C02', quick=grid(kind=['base', 'value', 'message'], steps=[2]),
         thorough=grid(kind=['base', 'value', 'message'], steps=[3]))
def histories(ctx, kind, steps):
    m = ctx.mod('klang.connections')
    O, R, I = (getattr(m, n) for n in KINDS[kind])
    foreign = getattr(m, {'base': 'Input', 'value': 'MessageInput', 'message': 'Input'}[kind])
    foreignOut = getattr(m, {'base': 'Output', 'value': 'MessageOutput', 'message': 'Output'}[kind])
    o = [O(), foreignOut()]
    r = [R(), R()]
    i = [I(), foreign()]
    outs, ins = o + r, i + r
    for s in range(steps):
        src = outs[ctx.pick('src%d' % s, 0, len(outs) - 1)]
        dst = ins[ctx.pick('dst%d' % s, 0, len(ins) - 1)]
        before = snapshot(outs, ins)
        if src is dst:
            if steps > 2:
                return
            continue
        okType = (src is not o[1]) == (dst is not i[1])
        linked = dst.incomingConnection is src
        fromInput = (dst in i or src in o) and ctx.flag('side%d' % s)     # relays take both roles
        if ctx.flag('op%d' % s):        # connect
            call = (lambda: dst.connect(src)) if fromInput else (lambda: src.connect(dst))
            err = ctx.fails((m.IncompatibleConnection, m.InputAlreadyConnected), call)
            if not okType:
                ctx.check(isinstance(err, m.IncompatibleConnection), 'incompatible kinds are refused')
            if err is not None:
                ctx.check(snapshot(outs, ins) == before, 'a refused connection changes nothing')
                if okType:
                    ctx.check(isinstance(err, m.InputAlreadyConnected) and
                              before[1][ins.index(dst)] != id(None), 'only taken inputs refuse')
            else:
                ctx.check(m.is_connected(src, dst), 'an accepted connection connects')
                ctx.check(before[1][ins.index(dst)] == id(None), 'a taken input is not taken over')
        elif linked:
            if fromInput:
                dst.disconnect(src)
            else:
                src.disconnect(dst)
            ctx.check(not m.is_connected(src, dst), 'disconnecting disconnects')
            ctx.check(not dst.connected, 'the input is free again')
        elif not okType:
            call = (lambda: dst.disconnect(src)) if fromInput else (lambda: src.disconnect(dst))
            err = ctx.fails((m.IncompatibleConnection,), call)
            ctx.check(err is not None, 'incompatible kinds can not be disconnected')
            ctx.check(snapshot(outs, ins) == before, 'refused disconnect changes nothing')
        else:
            # caller error: may raise or be ignored, but cuts no other connection
            ctx.fails(Exception, (lambda: dst.disconnect(src)) if fromInput else (lambda: src.disconnect(dst)))
            ctx.check(snapshot(outs, ins) == before, 'disconnecting an unconnected pair changes nothing')
        integrity(ctx, outs, ins, 'after step')
        if steps > 2 and s < steps - 1 and snapshot(outs, ins) == before:
            return                      # nothing happened: the rest is a shorter history
        for a in outs:
            for b in ins:
                if a is not b:
                    ctx.check(bool(m.is_connected(a, b)) == (b.incomingConnection is a and
                              any(x is b for x in a.outgoingConnections)), 'is_connected tells the truth')
        chain = [o[0], r[0], r[1], i[0]]
        want = all(m.is_connected(a, b) for a, b in zip(chain, chain[1:]))
        ctx.check(bool(m.are_connected(*chain)) == want, 'are_connected checks every pair')


@harness('C02', quick=[{}])
def compatibility_table(ctx):
    """Which connectors fit: same kind, output or relay -> relay or input."""
    m = ctx.mod('klang.connections')
    names = [n for k in sorted(KINDS) for n in KINDS[k]]
    a = ctx.choice('a', names)
    b = ctx.choice('b', names)
    ka = next(k for k in KINDS if a in KINDS[k])
    kb = next(k for k in KINDS if b in KINDS[k])
    ok = ka == kb and KINDS[ka].index(a) in (0, 1) and KINDS[kb].index(b) in (1, 2)
    x, y = getattr(m, a)(), getattr(m, b)()
    err = ctx.fails((m.IncompatibleConnection,), m.make_connection, x, y)
    ctx.check((err is None) == ok, 'exactly matching kinds connect', {'a': a, 'b': b})
    ctx.check(bool(m.is_connected(x, y)) == ok, 'connected as told')


@harness('C02', quick=[{}])
def block_connections(ctx):
    """Connections of a block are listed once, loop-arounds excluded."""
    b = ctx.mod('klang.block')
    p, q = b.Block(2, 2), b.Block(2, 2)
    links = []
    for s, (src, k) in enumerate([(p, 0), (p, 1), (q, 0), (q, 1)]):
        dst = ctx.choice('d%d' % s, [None, 0, 1, 2, 3])
        if dst is None:
            continue
        inp = (p if dst < 2 else q).inputs[dst % 2]
        if inp.connected:
            continue
        src.outputs[k].connect(inp)
        links.append((src, src.outputs[k], inp))
    got = list(b.collect_connections(p))
    want = [(o, i) for s, o, i in links if (s is p) != (i.owner is p)]
    ctx.check(len(got) == len(want), 'every connection listed once', {'got': len(got), 'want': len(want)})
    for o, i in want:
        ctx.check(sum(1 for x, y in got if x is o and y is i) == 1, 'listed connection is (output, input)')
    nb = list(b.output_neighbors(p))
    ctx.check(all(x is q for x in nb) and len(nb) == sum(1 for s, o, i in links if s is p and i.owner is q),
              'output neighbours')
    nb = list(b.input_neighbors(p))
    ctx.check(all(x is q for x in nb) and len(nb) == sum(1 for s, o, i in links if s is q and i.owner is p),
              'input neighbours')

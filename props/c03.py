"""C03: value propagation."""
from symx.spec import harness, grid

MODULES = ['klang.connections', 'klang.block']
BOUNDS = 'relay chains of length 0..3, fan-out 2, histories of 3 (quick) / 4 (thorough) operations, all values'
OUTSIDE = 'longer chains; relays connected into a loop'


@harness('C03', quick=grid(length=[0, 1, 2, 3]))
def chain(ctx, length):
    """output -> relays -> input always shows the current output value."""
    m = ctx.mod('klang.connections')
    out = m.Output(value=ctx.real('v0'))
    relays = [m.Relay() for _ in range(length)]
    own = ctx.real('own')
    inp = m.Input(value=own)
    ctx.eq(inp.value, own, 'unconnected input shows its own value')
    order = ctx.flag('reverse')
    links = list(zip([out] + relays, relays + [inp]))
    for a, b in (reversed(links) if order else links):
        a.connect(b)
    ctx.eq(inp.value, out.value, 'input shows the output')
    v1 = ctx.real('v1')
    if ctx.flag('setter'):
        out.value = v1
    else:
        out.set_value(v1)
    ctx.eq(inp.value, v1, 'input shows the new output value')
    ctx.eq(inp.get_value(), v1, 'get_value shows the new output value')
    for r in relays:
        ctx.eq(r.value, v1, 'relay shows the new output value')
    w = ctx.real('w')
    if ctx.flag('setter2'):
        inp.value = w
    else:
        inp.set_value(w)
    ctx.eq(inp.value, v1, 'a set value does not leak through while connected')
    ctx.eq(out.value, v1, 'setting an input does not change the output')
    ctx.observe('value', inp.value)
    src = ([out] + relays)[-1]
    if ctx.flag('fromInput'):
        inp.disconnect(src)
    else:
        src.disconnect(inp)
    ctx.eq(inp.value, w, 'the disconnected input shows its own last value')
    ctx.eq(inp.get_value(), w, 'the disconnected input shows its own last value (get_value)')


@harness('C03', quick=grid(steps=[3]), thorough=grid(steps=[4]))
def histories(ctx, steps):
    """Two outputs, one relay, two inputs; arbitrary set / connect / disconnect histories."""
    m = ctx.mod('klang.connections')
    objs = {'o0': m.Output(value=ctx.real('io0')), 'o1': m.Output(value=ctx.real('io1')),
            'r': m.Relay(), 'i0': m.Input(value=ctx.real('ii0')),
            'i1': m.Input(value=ctx.real('ii1'))}
    own = {k: o.value for k, o in objs.items()}
    src = {'r': None, 'i0': None, 'i1': None}
    PAIRS = [('o0', 'r'), ('o0', 'i0'), ('o1', 'i0'), ('o1', 'i1'), ('r', 'i0'), ('r', 'i1')]

    def want(k):
        return want(src[k]) if src.get(k) else own[k]

    for s in range(steps):
        op = ctx.choice('op%d' % s, ['set', 'link'])
        if op == 'set':
            k = ctx.choice('k%d' % s, sorted(objs))
            v = ctx.real('v%d' % s)
            objs[k].set_value(v)
            own[k] = v
        else:
            a, b = ctx.choice('p%d' % s, PAIRS)
            if src[b] == a:
                objs[a].disconnect(objs[b])
                src[b] = None
            elif src[b] is None:
                objs[a].connect(objs[b])
                src[b] = a
        for k in sorted(objs):
            ctx.eq(objs[k].value, want(k), 'every connector shows the head of its chain')


@harness('C03', quick=[{}])
def arrays_and_identity(ctx):
    """The same object travels (no copies, no conversions)."""
    m = ctx.mod('klang.connections')
    Block = ctx.mod('klang.block').Block
    a, b, c = Block(0, 1), Block(1, 0), Block(2, 0)
    relay = m.Relay()
    a.output.connect(b.input)
    a.output.connect(relay)
    relay.connect(c.inputs[1])
    arr = ctx.array('x', 3)
    a.output.set_value(arr)
    ctx.check(b.input.value is arr and c.inputs[1].value is arr, 'the object itself is propagated')
    c.inputs[0].set_value(arr)
    ctx.check(c.inputs[0].value is arr, 'own value is the object itself')

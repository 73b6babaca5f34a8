"""C05: pipe and mix operators."""
from symx.spec import harness, grid

MODULES = ['klang.block', 'klang.audio.mixer', 'klang.composite']
BOUNDS = ('pipe chains of up to 4 operands over every kind of operand (block, bare connector, list-less); sums of '
          'up to 4 operands out of block / output / relay / mixer in either order, repeated ones included; all gains and signal values')
OUTSIDE = 'more than 4 operands; mixing multi-channel signals with a mono mixer'


def parts(ctx):
    Block = ctx.mod('klang.block').Block
    return Block, ctx.mod('klang.connections')


@harness('C05', quick=grid(kind=['BB', 'OB', 'BI', 'OI', 'RB', 'BR', 'RR']))
def pipe(ctx, kind):
    Block, con = parts(ctx)
    a, b = Block(2, 2, 'a'), Block(2, 2, 'b')
    other = Block(1, 1, 'other')
    relay, relay2 = con.Relay(owner=Block()), con.Relay(owner=Block())
    ka = ctx.pick('ka', 0, 1)
    kb = ctx.pick('kb', 0, 1)
    left = {'B': a, 'O': a.outputs[ka], 'R': relay}[kind[0]]
    right = {'B': b, 'I': b.inputs[kb], 'R': relay2}[kind[1]]
    wantOut = {'B': a.outputs[0], 'O': a.outputs[ka], 'R': relay}[kind[0]]
    wantIn = {'B': b.inputs[0], 'I': b.inputs[kb], 'R': relay2}[kind[1]]
    if kind == 'RR' or kind == 'OI' or kind == 'RB' or kind == 'BR' or kind[0] == 'O':
        # bare connectors have no operator of their own: at least one side is a block, or the function is used
        ret = ctx.mod('klang.block').pipe_operator(left, right)
    else:
        ret = left | right
    ctx.check(ret is wantIn.owner, 'evaluates to the owner of the input')
    ctx.check(wantIn.incomingConnection is wantOut, 'input is fed by the left operand')
    ctx.check(set(wantOut.outgoingConnections) == {wantIn}, 'left operand feeds exactly this input')
    for blk in (a, b, other):
        for o in blk.outputs:
            ctx.check(o is wantOut or not o.connected, 'no other output gets connected')
        for i in blk.inputs:
            ctx.check(i is wantIn or not i.connected, 'no other input gets connected')
    v = ctx.real('v')
    wantOut.set_value(v)
    ctx.eq(wantIn.value, v if kind[0] != 'R' else wantOut.value, 'the signal arrives')


@harness('C05', quick=[{}])
def pipe_operands_of_connectors(ctx):
    """output | block and block | input through the reflected operator."""
    Block, con = parts(ctx)
    a, b, c = Block(1, 2, 'a'), Block(2, 1, 'b'), Block(2, 0, 'c')
    k = ctx.pick('k', 0, 1)
    ret = a.outputs[k] | b
    ctx.check(ret is b and b.input.incomingConnection is a.outputs[k], 'output | block')
    ret = b | c.inputs[k]
    ctx.check(ret is c and c.inputs[k].incomingConnection is b.output, 'block | input')


@harness('C05', quick=grid(n=[2, 3, 4]))
def pipe_chain(ctx, n):
    Block, con = parts(ctx)
    blocks = [Block(1, 1, 'b%d' % i) for i in range(n)]
    ret = blocks[0]
    for b in blocks[1:]:
        ret = ret | b
    ctx.check(ret is blocks[-1], 'chain evaluates to the last block')
    for x, y in zip(blocks, blocks[1:]):
        ctx.check(y.input.incomingConnection is x.output, 'chain is wired left to right')
    ctx.check(not blocks[0].input.connected and not blocks[-1].output.connected, 'ends stay free')
    sources = [b for b in blocks if b.input.connected]
    ctx.check(len(sources) == n - 1, 'one connection per pipe')


@harness('C05', quick=[{}])
def pipe_refused(ctx):
    Block, con = parts(ctx)
    a, b = Block(1, 1, 'a'), Block(1, 1, 'b')
    pipe_operator = ctx.mod('klang.block').pipe_operator
    bad = ctx.choice('bad', ['rev', 'num', 'noin', 'noout', 'inin'])
    if bad == 'rev':
        ctx.raises(TypeError, pipe_operator, 'output on the right is refused', a.output, b.output)
    elif bad == 'num':
        ctx.raises(TypeError, pipe_operator, 'other objects are refused', a, 3.)
    elif bad == 'noin':
        ctx.raises(AttributeError, pipe_operator, 'block without input is refused', a, Block(0, 1))
    elif bad == 'noout':
        ctx.raises(AttributeError, pipe_operator, 'block without output is refused', Block(1, 0), b)
    else:
        ctx.raises(TypeError, pipe_operator, 'input on the left is refused', a.input, b)
    for c in (a.input, a.output, b.input, b.output):
        ctx.check(not c.connected, 'refused pipe connects nothing')


def signal(ctx, name, size=4):
    return ctx.array(name, size)


@harness('C05', quick=grid(left=['B', 'O', 'M', 'C'], right=['B', 'O', 'M', 'C']))
def mix_two(ctx, left, right):
    Block, con = parts(ctx)
    Mixer = ctx.mod('klang.audio.mixer').Mixer

    class Source(Block):
        pass

    def operand(kind, name):
        src = Source(0, 1, name)
        x = signal(ctx, name)
        src.output.set_value(x)
        if kind == 'M':
            m = Mixer()
            m += src
            return src, x, m
        if kind == 'C':
            # composite with a relay as output
            c = ctx.mod('klang.composite').Composite(name=name)
            c.outputs = [con.Relay(owner=c)]
            src.output.connect(c.output)
            return src, x, c
        return src, x, src if kind == 'B' else src.output

    a, x, lo = operand(left, 'x')
    b, y, ro = operand(right, 'y')
    if left == 'O' and right == 'O':
        mixer = ctx.mod('klang.block').mix_operator(lo, ro)
    else:
        mixer = lo + ro
    ctx.check(isinstance(mixer, Mixer), 'a + b is a mixer')
    for m in (lo, ro, mixer):
        if isinstance(m, Mixer):
            m.update()
    mixer.update()
    ctx.check(mixer.nInputs == 2, 'both operands have a channel')
    ctx.eq(mixer.output.value, (x + y) / 2, 'output is the mean of both signals')
    ctx.observe('mix', mixer.output.value)
    ctx.eq(a.output.value, x, 'left operand is untouched')
    ctx.eq(b.output.value, y, 'right operand is untouched')


@harness('C05', quick=grid(n=[3, 4]))
def mix_chain(ctx, n):
    """a + b + c ...: every source adds one channel, earlier ones stay."""
    Block, con = parts(ctx)
    srcs, xs = [], []
    for i in range(n):
        s = Block(0, 1, 's%d' % i)
        x = signal(ctx, 'x%d_' % i)
        s.output.set_value(x)
        srcs.append(s)
        xs.append(x)
    k = ctx.pick('inplace', 0, n - 2)
    mixer = srcs[0] + srcs[1]
    free = ctx.flag('free channel')
    if free:
        # an operand in between which was unplugged again, its channel has a value of its own
        mixer += Block(0, 1, 'gone')
        channel = mixer.inputs[-1]
        channel.incomingConnection.disconnect(channel)
        xs.append(signal(ctx, 'free'))
        channel.set_value(xs[-1])
    for i in range(2, n):
        before = mixer
        if i - 2 < k:
            mixer += srcs[i]
        else:
            mixer = mixer + (srcs[i] if ctx.flag('blk%d' % i) else srcs[i].output)
        ctx.check(mixer is before, 'the mixer is extended in place')
    ctx.check(mixer.nInputs == len(xs), 'one channel per source')
    mixer.update()
    total = xs[0]
    for x in xs[1:]:
        total = total + x
    ctx.eq(mixer.output.value, total / len(xs), 'every source contributes equally')
    for inp, s in zip(mixer.inputs[:2] + mixer.inputs[3:] if free else mixer.inputs, srcs):
        ctx.check(inp.incomingConnection is s.output, 'channels are in order of addition')


@harness('C05', quick=[{}])
def mix_refused(ctx):
    Block, con = parts(ctx)
    mix_operator = ctx.mod('klang.block').mix_operator
    a = Block(0, 1, 'a')
    m = Block(0, 0, 'm')
    m.outputs = [con.MessageOutput(owner=m)]
    bad = ctx.choice('bad', ['msg', 'msgleft', 'num'])
    if bad == 'msg':
        ctx.raises(TypeError, mix_operator, 'message outputs can not be mixed', a, m)
    elif bad == 'msgleft':
        ctx.raises(TypeError, mix_operator, 'message outputs can not be mixed', m, a)
    else:
        ctx.raises(TypeError, mix_operator, 'numbers can not be mixed', a, 3.)
    ctx.check(not a.output.connected and not m.output.connected, 'refused mix connects nothing')


@harness('C05', quick=grid(stereo=[0, 1], where=['+', '+=', 'reflected']))
def extension_refused(ctx, stereo, where):
    """A refused operand leaves the mixer as it was."""
    Block, con = parts(ctx)
    mod = ctx.mod('klang.audio.mixer')
    mixer = (mod.StereoMixer if stereo else mod.Mixer)()
    src = Block(0, 1, 'src')
    x = signal(ctx, 'x', ctx.mod('klang.config').BUFFER_SIZE)
    src.output.set_value(x)
    mixer += src
    mixer.update()
    before = mixer.output.value
    msg = Block(name='msg')
    msg.outputs = [con.MessageOutput(owner=msg)]
    sink = Block(1, 0, 'sink')
    bad = ctx.choice('bad', [msg, sink, sink.input, 3.])

    def mix():
        m = mixer
        if where == '+':
            return m + bad
        if where == 'reflected':
            return bad + m
        m += bad

    ctx.raises(Exception, mix, 'operand without a fitting output is refused')
    ctx.check(mixer.nInputs == 1 and len(mixer.gains) == 1 and mixer.input.incomingConnection is src.output,
              'the refused operand adds no channel')
    ctx.check(not sink.input.connected and not msg.output.connected, 'refused mix connects nothing')
    mixer.update()
    ctx.eq(mixer.output.value, before, 'the mix stays as it was')


@harness('C05', quick=grid(n=[2, 3, 4], stereo=[0, 1]))
def mix_repeated(ctx, n, stereo):
    """An operand that occurs several times counts as often."""
    Block, con = parts(ctx)
    srcs, xs = [Block(0, 1, 's%d' % i) for i in range(2)], []
    size = ctx.mod('klang.config').BUFFER_SIZE
    for i, s in enumerate(srcs):
        xs.append(signal(ctx, 'x%d_' % i, size))
        s.output.set_value(xs[-1])
    ops = [ctx.pick('op%d' % i, 0, 1) for i in range(n)]
    if stereo:
        mixer = ctx.mod('klang.audio.mixer').StereoMixer()
        start = 0
    else:
        first = srcs[ops[0]] if ctx.flag('block') else srcs[ops[0]].output
        mixer = ctx.mod('klang.block').mix_operator(first, srcs[ops[1]])
        start = 2
    for k in ops[start:]:
        mixer += srcs[k]
    ctx.check(mixer.nInputs == n, 'one channel per operand')
    mixer.update()
    total = 0.
    for k in ops:
        total = total + xs[k]
    if stereo:
        got = mixer.output.value
        ctx.eq(got[0], got[1], 'both sides are alike')
        alone = ctx.mod('klang.audio.mixer').StereoMixer()
        alone += srcs[0]
        alone.update()
        mean = total / n
        ref = alone.output.value[0]
        ctx.eq([g * x for g, x in zip(got[0], xs[0])], [r * t for r, t in zip(ref, mean)], 'the mean of all operands', tol=1e-8)
    else:
        ctx.eq(mixer.output.value, total / n, 'the mean of all operands', tol=1e-9)

"""C06: composites."""
from symx.spec import harness, grid
from props.c01 import reach

MODULES = ['klang.composite', 'klang.execution', 'klang.block']
BOUNDS = ('up to 3 inner blocks with every inner wiring (loops included), 2 input relays and 1 output relay '
          'attached in every way, an outer source / sink / both / neither; nested composites of depth 2; up to 5 output relays of all kinds, used '
          'or not')
OUTSIDE = 'more than 3 inner blocks, more than 3 relays'


def build(ctx, n, bits, relayIn, relayOut):
    Block = ctx.mod('klang.block').Block
    con = ctx.mod('klang.connections')
    Composite = ctx.mod('klang.composite').Composite
    log = []

    class Inner(Block):
        def __init__(self, name):
            # one input per inner block / relay so that fan-in is free
            super().__init__(n + 2, 1, name)

        def update(self):
            log.append(self)

    comp = Composite()
    comp.inputs = [con.Relay(owner=comp), con.Relay(owner=comp)]
    comp.outputs = [con.Relay(owner=comp)]
    inner = [Inner('i%d' % i) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if bits[i][j]:
                inner[i].output.connect(inner[j].inputs[i])
    for r in range(2):
        for j in range(n):
            if relayIn[r][j]:
                comp.inputs[r].connect(inner[j].inputs[n + r])
    if relayOut is not None:
        inner[relayOut].output.connect(comp.outputs[0])
    return comp, inner, log


def connections(block):
    ret = []
    for i in block.inputs:
        ret.append(('in', i, i.incomingConnection))
        if hasattr(i, 'outgoingConnections'):
            ret.append(('thru', i, frozenset(i.outgoingConnections)))
    for o in block.outputs:
        ret.append(('out', o, frozenset(o.outgoingConnections)))
        if hasattr(o, 'incomingConnection'):
            ret.append(('from', o, o.incomingConnection))
    return ret


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] is y[1] and (
        x[2] is y[2] or (isinstance(x[2], frozenset) and x[2] == y[2])) for x, y in zip(a, b))


@harness('C06', quick=grid(n=[1, 2], start=['auto', 'all'], outer=['none', 'both']) +
         grid(n=[3], start=['auto'], outer=['src'], last=[0, 1, 2, None]),
         thorough=grid(n=[3], start=['auto', 'all'], outer=['both'], last=[0, 1, 2, None]), timeout=20)
def inner_order(ctx, n, start, outer, last=-1):
    Block = ctx.mod('klang.block').Block
    bits = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                bits[i][j] = ctx.flag('e%d%d' % (i, j))
    relayIn = [[False] * n for _ in range(2)]
    for r in range(2):
        for j in range(n):
            if n < 3 or (r, j) not in ((0, 2), (1, 0)):
                relayIn[r][j] = ctx.flag('r%d%d' % (r, j))
    if last == -1:
        k = ctx.pick('out', 0, n)
        last = k if k < n else None
    comp, inner, log = build(ctx, n, bits, relayIn, last)
    src, dst, dst2 = Block(0, 1, 'src'), Block(1, 1, 'dst'), Block(1, 0, 'dst2')
    if outer in ('src', 'both'):
        src.output.connect(comp.inputs[0])
    if outer == 'both':
        src.output.connect(comp.inputs[1])
        comp.output.connect(dst.input)
        dst.output.connect(dst2.input)
    around = [src, comp, dst, dst2]
    before = [connections(b) for b in around + inner]
    if start == 'all':
        comp.update_internal_exec_order(*inner)
    else:
        comp.update_internal_exec_order()
    after = [connections(b) for b in around + inner]
    for x, y in zip(before, after):
        ctx.check(same(x, y), 'connections are the same afterwards')
    order = list(comp.execOrder)
    names = [b.name for b in order]
    ctx.check(comp not in order, 'the composite itself is not part of its order')
    ctx.check(not any(b in order for b in (src, dst, dst2)), 'no outer block in the order', {'order': names})
    # which blocks are inside: connected to a relay or to such a block
    inside = [any(relayIn[r][i] for r in range(2)) or i == last for i in range(n)]
    if start == 'all':
        inside = [True] * n
    und = reach(n, [(i, j) for i in range(n) for j in range(n) if bits[i][j] or bits[j][i]])
    inside = [inside[i] or any(inside[j] and und[i][j] for j in range(n)) for i in range(n)]
    want = [b for i, b in enumerate(inner) if inside[i]]
    ctx.check(sorted(names) == sorted(b.name for b in want), 'exactly the inner blocks, once each',
              {'order': names})
    edges = [(i, j) for i in range(n) for j in range(n) if bits[i][j]]
    r = reach(n, edges)
    for i, j in edges:
        if inside[i] and not r[j][i]:
            ctx.check(names.index('i%d' % i) < names.index('i%d' % j), 'source before sink',
                      {'order': names, 'edges': edges})
    comp.update()
    ctx.check([b.name for b in log] == names, 'update runs the inner blocks in this order')
    comp.update_internal_exec_order(*(inner if start == 'all' else ()))
    ctx.check(sorted(b.name for b in comp.execOrder) == sorted(names), 'updating the order again gives the '
              'same blocks')


@harness('C06', quick=[{}])
def nested(ctx):
    """A composite within a composite is one block of the outer one."""
    Block = ctx.mod('klang.block').Block
    con = ctx.mod('klang.connections')
    Composite = ctx.mod('klang.composite').Composite
    log = []

    class Leaf(Block):
        def update(self):
            log.append(self.name)
            if self.inputs:
                self.output.set_value(self.input.value + 1.)

    def composite(name):
        c = Composite(name=name)
        c.inputs = [con.Relay(owner=c)]
        c.outputs = [con.Relay(owner=c)]
        return c

    outer, innerc = composite('outer'), composite('inner')
    a, b, c = Leaf(1, 1, 'a'), Leaf(1, 1, 'b'), Leaf(1, 1, 'c')
    src, dst = Leaf(0, 1, 'src'), Leaf(1, 1, 'dst')
    innerc.inputs[0].connect(b.input)
    b.output.connect(innerc.outputs[0])
    innerFirst = ctx.flag('innerFirst')
    if innerFirst:
        innerc.update_internal_exec_order()
    outer.inputs[0].connect(a.input)
    a | innerc | c
    c.output.connect(outer.outputs[0])
    src | outer | dst
    if not innerFirst:
        innerc.update_internal_exec_order()
    outer.update_internal_exec_order()
    ctx.check([x.name for x in innerc.execOrder] == ['b'], 'inner composite holds its own block only')
    ctx.check([x.name for x in outer.execOrder] == ['a', 'inner', 'c'], 'outer composite holds the inner one')
    v = ctx.real('v')
    src.output.set_value(v)
    outer.update()
    ctx.check(log == ['a', 'b', 'c'], 'leaves run once each in order', {'log': log})
    ctx.eq(dst.input.value, v + 3., 'signal passes the nested composites')
    order = ctx.mod('klang.execution').determine_execution_order([src])
    ctx.check([x.name for x in order] == ['src', 'outer', 'dst'], 'the outside sees one block')


@harness('C06', quick=[{}])
def unpatch(ctx):
    """temporarily_unpatch removes and restores exactly the connections of one block."""
    Block = ctx.mod('klang.block').Block
    unpatched = ctx.mod('klang.composite').temporarily_unpatch
    blocks = [Block(3, 2, 'b%d' % i) for i in range(3)]
    for i in range(3):
        for j in range(3):
            if ctx.flag('e%d%d' % (i, j)):
                blocks[i].outputs[ctx.pick('o%d%d' % (i, j), 0, 1) if i == 1 else 0].connect(blocks[j].inputs[i])
    before = [connections(b) for b in blocks]
    with unpatched(blocks[1]) as b:
        ctx.check(b is blocks[1], 'context is the block')
        for o in blocks[1].outputs:
            ctx.check(all(i.owner is blocks[1] for i in o.outgoingConnections), 'no outgoing connections inside')
        for k in (0, 2):
            ctx.check(not blocks[1].inputs[k].connected, 'no incoming connections inside')
        for i in (0, 2):
            for j in (0, 2):
                ctx.check(blocks[j].inputs[i].incomingConnection is before_src(before[j], blocks[j].inputs[i]),
                          'other connections stay')
    for b, x in zip(blocks, before):
        ctx.check(same(x, connections(b)), 'connections are restored')


def before_src(snapshot, inp):
    return next(x[2] for x in snapshot if x[0] == 'in' and x[1] is inp)


@harness('C06', quick=[{}])
def feed_through(ctx):
    """Relays of one composite connected to each other (as in Sequence): given start order is kept."""
    Block = ctx.mod('klang.block').Block
    con = ctx.mod('klang.connections')
    comp = ctx.mod('klang.composite').Composite()
    comp.inputs = [con.Relay(owner=comp)]
    comp.outputs = [con.Relay(owner=comp), con.Relay(owner=comp)]
    a, b, c = Block(1, 1, 'a'), Block(1, 1, 'b'), Block(1, 1, 'c')
    comp.inputs[0].connect(b.input)
    a.output.connect(comp.outputs[1])
    b | c
    c.output.connect(comp.outputs[0])
    if ctx.flag('loop'):
        comp.outputs[1].connect(comp.inputs[0])
    comp.update_internal_exec_order(a, b)
    ctx.check([x.name for x in comp.execOrder] == ['a', 'b', 'c'], 'source before sink through the relays',
              {'order': [x.name for x in comp.execOrder]})


@harness('C06', quick=grid(n=[2, 3]))
def many_relays(ctx, n):
    """Every output relay counts, whether or not the others are connected inside."""
    Block = ctx.mod('klang.block').Block
    con = ctx.mod('klang.connections')
    comp = ctx.mod('klang.composite').Composite()
    log = []

    class Source(Block):
        def update(self):
            log.append(self.name)
            self.output.set_value(self.level)

    kinds = [ctx.choice('kind%d' % i, ['value', 'message', 'own']) for i in range(2)]
    comp.inputs = [con.Relay(owner=comp), con.MessageInput(owner=comp)]
    comp.outputs = [{'value': con.Relay, 'message': con.MessageRelay, 'own': con.Output}[k](owner=comp)
                    for k in kinds] + [con.Relay(owner=comp) for _ in range(n)]
    inner = []
    for i in range(n):
        b = Source(0, 1, 'i%d' % i)
        b.level = ctx.real('v%d' % i)
        inner.append(b)
        if ctx.flag('used%d' % i):
            b.output.connect(comp.outputs[2 + i])
    sink = Source(1, 1, 'sink')
    sink.level = 0.
    if ctx.flag('sink'):
        comp.inputs[0].connect(sink.input)
    comp.update_internal_exec_order()
    used = [b for i, b in enumerate(inner) if comp.outputs[2 + i].connected]
    used += [sink] if sink.input.connected else []
    want = sorted(b.name for b in used if b is sink or b.output.outgoingConnections)
    ctx.check(sorted(b.name for b in comp.execOrder) == want, 'every attached block is part of the order')
    comp.update()
    ctx.check(sorted(log) == want, 'every attached block runs once')
    for i, b in enumerate(inner):
        if b.output.outgoingConnections:
            ctx.eq(comp.outputs[2 + i].value, b.level, 'values of the same cycle come out')

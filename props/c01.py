"""C01: execution order."""
from symx.spec import harness, grid

MODULES = ['klang.execution', 'klang.graph', 'klang.block', 'klang.connections']
BOUNDS = ('graph level: every directed graph (adjacency bits symbolic, self loops included) on up to 3 (quick) / '
          '4 (thorough) nodes; block level: every wiring of up to 3 blocks (4 on acyclic wirings), every choice of '
          'starting block, isolated extra starting block')
OUTSIDE = 'more than 4 blocks; parallel connections between the same two blocks beyond 2'


def reach(n, edges):
    r = [[False] * n for _ in range(n)]
    for a, b in edges:
        r[a][b] = True
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if r[i][k] and r[k][j]:
                    r[i][j] = True
    return r


def check_order(ctx, order, n, edges, label):
    """Permutation; u before v for every edge u->v that is not part of a loop."""
    order = [int(v) for v in order]
    ctx.check(sorted(order) == list(range(n)), '%s: every node exactly once' % label,
              {'order': order, 'edges': edges})
    r = reach(n, edges)
    for u, v in edges:
        if u != v and not r[v][u]:
            ctx.check(order.index(u) < order.index(v), '%s: source before sink' % label,
                      {'order': order, 'edges': edges})


@harness('C01', quick=grid(n=[1, 2, 3]), timeout=20)
def topological(ctx, n):
    """klang.graph.topological_sorting over a symbolic adjacency matrix."""
    graph = ctx.mod('klang.graph')
    bits = [[ctx.int('g%d%d' % (i, j), 0, 1) for j in range(n)] for i in range(n)]
    mat = ctx.np.array(bits) if n else ctx.np.zeros((0, 0), dtype=int)
    order = list(graph.topological_sorting(mat))
    edges = [(i, j) for i in range(n) for j in range(n) if bits[i][j] == 1]
    check_order(ctx, order, n, edges, 'order')


@harness('C01', quick=grid(n=[4], first=[0, 1, 2, 3, 4, 5, 6, 7]), timeout=20)
def topological_no_loops(ctx, n, first):
    """Larger graphs without self loops (split over the edges of the first node)."""
    graph = ctx.mod('klang.graph')
    bits = [[0 if i == j else ctx.int('g%d%d' % (i, j), 0, 1) for j in range(n)] for i in range(n)]
    for k, j in enumerate([1, 2, 3]):
        ctx.assume(bits[0][j] == (first >> k) & 1)
    order = list(graph.topological_sorting(ctx.np.array(bits)))
    edges = [(i, j) for i in range(n) for j in range(n) if bits[i][j] == 1]
    check_order(ctx, order, n, edges, 'order')


@harness('C01', quick=grid(n=[5], first=list(range(8))), timeout=20)
def topological_dag(ctx, n, first):
    """Acyclic graphs on 5 nodes under a fixed and its reversed numbering."""
    graph = ctx.mod('klang.graph')
    rev = ctx.flag('reversed')
    bits = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            a, b = (n - 1 - i, n - 1 - j) if rev else (i, j)
            bits[a][b] = ctx.int('g%d%d' % (i, j), 0, 1)
            if i == 0 and j < 4:
                ctx.assume(bits[a][b] == (first >> (j - 1)) & 1)
    order = list(graph.topological_sorting(ctx.np.array(bits)))
    edges = [(i, j) for i in range(n) for j in range(n) if bits[i][j] == 1]
    check_order(ctx, order, n, edges, 'order')


def wire(ctx, n, pairs, lean=False):
    """Blocks and connections. lean: blocks only have the connectors which are in use."""
    Block = ctx.mod('klang.block').Block
    edges = [(i, j) for i, j in pairs if ctx.flag('e%d%d' % (i, j))]
    blocks = []
    for i in range(n):
        ins, outs = n, 1
        if lean:
            ins = sum(e[1] == i for e in edges)
            outs = int(any(e[0] == i for e in edges))
        blocks.append(Block(nInputs=ins, nOutputs=outs, name='b%d' % i))
    for i, j in edges:
        input_ = [x for x in blocks[j].inputs if not x.connected][0] if lean else blocks[j].inputs[i]
        blocks[i].output.connect(input_)
    return blocks, edges


@harness('C01', quick=grid(n=[1, 2, 3], start=[0, 1, 2]) + grid(n=[3], start=[0, 1, 2], lean=[1]), timeout=20)
def block_network(ctx, n, start, lean=0):
    """determine_execution_order over every wiring and starting block."""
    if start >= n:
        start = 0
    ex = ctx.mod('klang.execution')
    Block = ctx.mod('klang.block').Block
    blocks, edges = wire(ctx, n, [(i, j) for i in range(n) for j in range(n) if (i != j or n < 3)], lean)
    starts = [blocks[start]]
    extra = None
    if ctx.flag('isolated'):
        extra = Block(name='isolated')
        starts.append(extra)
    if ctx.flag('twice'):
        starts.append(blocks[start])
    order = ex.determine_execution_order(iter(starts))
    # undirected component of the starting block
    comp, grow = {start}, True
    while grow:
        grow = False
        for a, b in edges:
            if (a in comp) != (b in comp):
                comp |= {a, b}
                grow = True
    want = [b for i, b in enumerate(blocks) if i in comp] + ([extra] if extra is not None else [])
    ctx.check(len(order) == len(want) and all(sum(b is w for b in order) == 1 for w in want),
              'every connected block exactly once', {'edges': edges})
    r = reach(n, edges)
    for u, v in edges:
        if u in comp and u != v and not r[v][u]:
            ctx.check(order.index(blocks[u]) < order.index(blocks[v]), 'source block before sink block',
                      {'edges': edges, 'order': [str(b.name) for b in order]})


@harness('C01', quick=[{}], timeout=20)
def execution_delivers_within_one_cycle(ctx):
    """Running the order once carries a value through a chain with any block numbering."""
    ex = ctx.mod('klang.execution')
    Block = ctx.mod('klang.block').Block

    class Inc(Block):
        def __init__(self, k):
            super().__init__(nInputs=2, nOutputs=1)
            self.k = k

        def update(self):
            self.output.set_value(self.inputs[0].value + self.inputs[1].value + self.k)

    perm = [ctx.choice('first', [0, 1, 2, 3])]
    rest = [i for i in range(4) if i not in perm]
    k = [ctx.real('k%d' % i) for i in range(4)]
    blocks = [Inc(k[i]) for i in range(4)]
    a, b, c, d = (blocks[i] for i in perm + rest)
    a.output.connect(b.inputs[0])
    a.output.connect(c.inputs[0])
    b.output.connect(d.inputs[0])
    c.output.connect(d.inputs[1])
    start = ctx.choice('start', [0, 1, 2, 3])
    ex.execute(ex.determine_execution_order([blocks[start]]))
    ctx.eq(d.output.value, 2 * a.k + b.k + c.k + d.k, 'one cycle carries the value through the network')

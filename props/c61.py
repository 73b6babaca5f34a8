"""C61: graph helpers."""
from symx.spec import harness, grid
from props.c01 import reach

MODULES = ['klang.graph']
BOUNDS = 'all directed graphs with up to 3 (quick) / 4 (thorough, without self loops) nodes; up to 3 edges given as pairs'
OUTSIDE = 'larger graphs'


def matrix(ctx, n, loops=True):
    bits = [[ctx.int('g%d%d' % (i, j), 0, 1) if loops or i != j else 0 for j in range(n)] for i in range(n)]
    return bits, ctx.np.array(bits)


def edges_of(bits):
    n = len(bits)
    return [(i, j) for i in range(n) for j in range(n) if bits[i][j] == 1]


def entries(mat, n):
    return [(i, j) for i in range(n) for j in range(n) if int(mat[i, j])]


@harness('C61', quick=grid(n=[1, 2, 3]))
def neighbours(ctx, n):
    """Successors, predecessors, sources and sinks are what the matrix says."""
    m = ctx.mod('klang.graph')
    bits, mat = matrix(ctx, n)
    for i in range(n):
        ctx.check([int(v) for v in m.get_successors(mat, i)] == [j for j in range(n) if bits[i][j] == 1], 'successors')
        ctx.check([int(v) for v in m.get_predecessors(mat, i)] == [j for j in range(n) if bits[j][i] == 1], 'predecessors')
    ctx.check([int(v) for v in m.get_sources(mat)] == [i for i in range(n) if not any(bits[j][i] == 1 for j in range(n))],
              'sources have no incoming edge')
    ctx.check([int(v) for v in m.get_sinks(mat)] == [i for i in range(n) if not any(bits[i][j] == 1 for j in range(n))],
              'sinks have no outgoing edge')


def check_dag(ctx, m, bits, mat, n):
    edges = edges_of(bits)
    back = [(int(a), int(b)) for a, b in m.find_back_edges(mat)]
    r = reach(n, edges)
    ctx.check(len(set(back)) == len(back) and set(back) <= set(edges), 'back edges are edges of the graph')
    for a, b in back:
        ctx.check(a == b or r[b][a], 'back edges close a loop')
    dag = m.remove_back_edges(mat)
    left = entries(dag, n)
    ctx.check(sorted(left + back) == edges, 'exactly the back edges are removed')
    r = reach(n, left)
    ctx.check(not any(r[i][i] for i in range(n)), 'no loop is left')
    ctx.check(entries(mat, n) == edges, 'the graph itself is untouched')


@harness('C61', quick=grid(n=[1, 2, 3]))
def loops(ctx, n):
    m = ctx.mod('klang.graph')
    bits, mat = matrix(ctx, n)
    check_dag(ctx, m, bits, mat, n)


@harness('C61', quick=grid(first=list(range(8))))
def loops_4(ctx, first):
    m = ctx.mod('klang.graph')
    bits, mat = matrix(ctx, 4, False)
    for k, j in enumerate([1, 2, 3]):
        ctx.assume(bits[0][j] == (first >> k) & 1)
    check_dag(ctx, m, bits, mat, 4)


@harness('C61', quick=grid(edges=[1, 2, 3], directed=[True, False], order=[-1, 4]))
def from_edges(ctx, edges, directed, order):
    """Adjacency matrix of a list of edges."""
    m = ctx.mod('klang.graph')
    pairs = [(ctx.pick('a%d' % i, 0, 2), ctx.pick('b%d' % i, 0, 2)) for i in range(edges)]
    mat = m.graph_matrix(pairs, directed=directed, order=order)
    n = order if order > 0 else max(max(p) for p in pairs) + 1
    ctx.check(ctx.shape(mat) == (n, n), 'one row and column per node')
    want = set(pairs) | (set() if directed else {(b, a) for a, b in pairs})
    ctx.check(entries(mat, n) == sorted(want), 'one entry per edge')

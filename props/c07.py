"""C07: duplicate warning."""
from symx.spec import harness, grid

MODULES = ['klang.klang', 'klang.composite', 'klang.block']
BOUNDS = ('execution orders of up to 3 (quick) / 4 (thorough) entries drawn from 2 plain blocks and 2 composites, '
          'composites holding any list of up to 2 entries, nesting depth 2; run_klang on a duplicated network')
OUTSIDE = 'longer orders, deeper nesting'


class Log:

    def __init__(self):
        self.lines = []

    def warning(self, fmt, *args):
        self.lines.append(fmt % args if args else fmt)

    info = debug = lambda self, *a: None


@harness('C07', quick=grid(n=[0, 1, 2, 3]), thorough=grid(n=[4]))
def duplicates(ctx, n):
    klang = ctx.mod('klang.klang')
    Block = ctx.mod('klang.block').Block
    Composite = ctx.mod('klang.composite').Composite
    a, b = Block(0, 1, 'alpha'), Block(0, 1, 'beta')
    c, d = Composite(name='gamma'), Composite(name='delta')
    pool = [a, b, c, d]
    c.execOrder = [ctx.choice('c%d' % i, [a, b]) for i in range(ctx.pick('nc', 0, 2))]
    d.execOrder = [ctx.choice('d%d' % i, [a, c]) for i in range(ctx.pick('nd', 0, 1 if n > 2 else 2))]
    order = [ctx.choice('o%d' % i, pool) for i in range(n)]

    def flat(blocks):
        ret = []
        for x in blocks:
            ret += flat(x.execOrder) if x in (c, d) else [x]
        return ret

    want = flat(order)

    log = Log()
    klang.validate_global_execution_order(order, log)
    counts = {x.name: sum(1 for y in want if y is x) for x in (a, b)}
    dup = {k: v for k, v in counts.items() if v > 1}
    text = '\n'.join(log.lines)
    ctx.check(bool(log.lines) == bool(dup), 'warning exactly when a block occurs twice',
              {'counts': str(counts), 'log': text})
    for name, count in counts.items():
        named = [line for line in text.splitlines() if name in line]
        ctx.check(bool(named) == (count > 1), 'exactly the duplicated blocks are named', {'log': text})
        if named:
            ctx.check('%dx' % count in named[0], 'their count is given', {'log': text})


@harness('C07', quick=[{}])
def run_reports(ctx):
    """run_klang performs the check before running."""
    klang = ctx.mod('klang.klang')
    Block = ctx.mod('klang.block').Block
    Composite = ctx.mod('klang.composite').Composite
    logging = klang.logging

    class Stop(Exception):
        pass

    class Ticker(Block):
        def update(self):
            raise Stop()

    log = Log()
    ctx.patch(logging, 'getLogger', lambda *args: log)
    a, inner = Ticker(0, 1, 'first'), Block(0, 0, 'shared')
    comp = Composite(name='comp')
    comp.execOrder = [inner] if ctx.flag('inside') else []
    blocks = [a, comp] + ([inner] if ctx.flag('outside') else [])
    ctx.raises(Stop, klang.run_klang, 'blocks get executed', *blocks)
    text = '\n'.join(log.lines)
    double = comp.execOrder != [] and inner in blocks
    ctx.check(('shared' in text) == double, 'duplicate is reported before the first cycle', {'log': text})
    ctx.raises(ValueError, klang.run_klang, 'nothing to run is refused')


@harness('C07', quick=[{}])
def namesakes(ctx):
    """Blocks are told apart by identity, not by their names."""
    klang = ctx.mod('klang.klang')
    Block = ctx.mod('klang.block').Block
    Composite = ctx.mod('klang.composite').Composite
    name = ctx.choice('name', ['same', ''])
    a, b, c = Block(0, 1, name), Block(0, 1, name), Composite(name=name)
    c.execOrder = [[], [a], [b], [a, b]][ctx.pick('inside', 0, 3)]
    order = [x for i, x in enumerate((a, b, c, a)) if ctx.flag('o%d' % i)]
    flat = [y for x in order for y in (c.execOrder if x is c else [x])]
    counts = [sum(1 for y in flat if y is x) for x in (a, b)]
    log = Log()
    klang.validate_global_execution_order(order, log)
    ctx.check(bool(log.lines) == (max(counts) > 1), 'warning exactly when a block occurs twice')
    text = '\n'.join(log.lines)
    for n in (2, 3):
        ctx.check(text.count('%dx' % n) == counts.count(n), 'their counts are given', {'log': text})

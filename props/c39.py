"""C39: pizza slicer."""
from symx.spec import harness, grid

MODULES = ['klang.sequencer', 'klang.connections']
BOUNDS = ('every angle in [-8, 8] turns with 1..16 slices; phase histories of 2 to 4 (thorough 3 to 6) updates from any starting phase, each step advancing by up '
          'to one turn less a slice (one slice: half a turn), 1..8 slices')
OUTSIDE = 'phases which run backwards (indistinguishable from nearly a whole turn forwards); angles within a rounding error of a slice border'


@harness('C39', quick=grid(n=[1, 2, 3, 4, 7, 16]), thorough=grid(n=list(range(1, 33))), timeout=60)
def number(ctx, n):
    m = ctx.mod('klang.sequencer')
    TAU = ctx.mod('klang.constants').TAU
    turns = ctx.real('turns', -8., 8.)
    inner = turns - ctx.floor(turns)
    k = ctx.floor(inner * n)
    ctx.assume(ctx.And(inner * n - k > 1e-6, inner * n - k < 1 - 1e-6))
    got = m.pizza_slice_number(turns * TAU, n)
    ctx.check(ctx.And(got >= 0, got < n), 'one of the slices')
    ctx.check(got == k, 'the slice which contains the angle')


@harness('C39', quick=[{}])
def whole_turns(ctx):
    m = ctx.mod('klang.sequencer')
    TAU = ctx.mod('klang.constants').TAU
    n = ctx.pick('n', 1, 16)
    turn = ctx.choice('turn', [-4, -2, -1, 0, 1, 2, 4])
    ctx.check(m.pizza_slice_number(turn * TAU, n) == 0, 'whole turns belong to the first slice')


@harness('C39', quick=grid(n=[1, 2, 3], steps=[4]) + grid(n=[4], steps=[3]) + grid(n=[8], steps=[2]),
         thorough=grid(n=[1, 2], steps=[6]) + grid(n=[3, 4], steps=[4]) + grid(n=[8], steps=[3]), timeout=60)
def history(ctx, n, steps):
    """Every entered slice is sent once, in order; skipped ones are caught up."""
    m = ctx.mod('klang.sequencer')
    TAU = ctx.mod('klang.constants').TAU
    sink = ctx.mod('klang.connections').MessageInput()
    block = m.PizzaSlicer(n)
    block.output.connect(sink)
    pos = ctx.real('start', 0., .999)
    most = max(.5, 1 - 1 / n) - 1e-3
    last = -1
    for k in range(steps):
        if k:
            pos = pos + ctx.real('d%d' % k, 0., most)
        turn = ctx.floor(pos)
        inner = pos - turn
        slice_ = ctx.floor(inner * n)
        ctx.assume(ctx.And(inner * n - slice_ > 1e-6, inner * n - slice_ < 1 - 1e-6))
        block.input.set_value(inner * TAU)
        block.update()
        now = turn * n + slice_
        got = list(sink.receive())
        ctx.check(len(got) == now - last, 'one message for each slice which was entered')
        for i, g in enumerate(got):
            ctx.check(g == (last + 1 + i) % n, 'slice indices in order')
        last = now

"""C55: sync clock."""
from symx.spec import harness, grid

MODULES = ['klang.audio.sync', 'klang.audio.oscillators']
BOUNDS = '3 (thorough 4) buffers of 4 samples, symbolic frequency (changed after the first buffer), symbolic duty cycle, both edges'
OUTSIDE = 'samples within a rounding error of an edge; frequencies above the sampling rate'


@harness('C55', quick=grid(edge=['rising', 'falling'], buffers=[3]), thorough=grid(edge=['rising', 'falling'], buffers=[4]), timeout=60)
def signal(ctx, edge, buffers):
    m = ctx.mod('klang.audio.sync')
    cfg = ctx.mod('klang.config')
    N, SR = cfg.BUFFER_SIZE, cfg.SAMPLING_RATE
    duty = ctx.choice('duty', [.1, .25, .5, .9])
    rel = ctx.real('rel', .001, .9)           # periods per sample
    block = m.Clock(rel * SR, dutyCycle=duty, edge=edge)
    pos = 0.
    for k in range(buffers):
        if k == 1:
            how = ctx.pick('change', 0, 1)
            if how:
                rel = ctx.real('rel2', .001, .9)
                block.frequency.set_value(rel * SR)
        block.update()
        y = block.output.value
        ctx.check(ctx.shape(y) == (N,), 'one buffer')
        for i in range(N):
            turn = pos + i * rel
            at = turn - ctx.floor(turn)
            first = k == 0 and i == 0
            if not first:
                ctx.assume(ctx.And(at > 1e-6, at < 1 - 1e-6, ctx.Or(at < duty - 1e-6, at > duty + 1e-6)))
            high = (at < duty) if edge == 'rising' else (at > duty)
            ctx.check(y[i] == ctx.ite(high, 1, 0), 'high for its share of each period')
        pos = pos + N * rel


@harness('C55', quick=[{}])
def refused(ctx):
    m = ctx.mod('klang.audio.sync')
    duty = ctx.choice('duty', [-.5, 0., 1., 1.5])
    ctx.raises(AssertionError, lambda: m.Clock(1., dutyCycle=duty), 'duty cycles of the full period or none are refused')
    ctx.raises(AssertionError, lambda: m.Clock(1., edge='up'), 'unknown edges are refused')


@harness('C55', quick=grid(edge=['rising', 'falling']))
def idle(ctx, edge):
    """Silent before the first update; then one value per sample."""
    m = ctx.mod('klang.audio.sync')
    cfg = ctx.mod('klang.config')
    block = m.Clock(ctx.real('f', .1, 2000.), edge=edge)
    y = block.output.value
    ctx.check(ctx.shape(y) == (cfg.BUFFER_SIZE,), 'one buffer')
    ctx.eq(y, ctx.np.zeros(cfg.BUFFER_SIZE), 'silent before the first update')
    block.update()
    for v in block.output.value:
        ctx.check(ctx.Or(v == 0, v == 1), 'logic signal')

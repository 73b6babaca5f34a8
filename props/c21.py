"""C21: sound card channels."""
from symx.spec import harness, grid

MODULES = ['klang.audio.klanggeber']
BOUNDS = '0..3 device channels, every mixture of silent, scalar, mono, 2- and 3-channel inputs, symbolic samples in [-1, 1]'
OUTSIDE = 'the sound card driver; rounding to 32 bit floats (compared with tolerance 1e-6)'
KINDS = {'silent': 1, 'scalar': 0, 'mono': 1, 'two': 2, 'three': 3}


@harness('C21', quick=grid(n=[1, 2, 3]))
def pack(ctx, n):
    m = ctx.mod('klang.audio.klanggeber')
    conns = ctx.mod('klang.connections')
    N = ctx.mod('klang.config').BUFFER_SIZE
    dac = m.Dac(n)
    ctx.check(len(dac.inputs) == n, 'number of inputs')
    rows = []
    for i, inp in enumerate(dac.inputs):
        kind = ctx.choice('kind%d' % i, sorted(KINDS))
        if kind == 'silent':
            rows.append([0.] * N)
            continue
        out = conns.Output()
        out.connect(inp)
        if kind == 'scalar':
            out.set_value(ctx.real('x%d' % i, -1., 1.))
        elif kind == 'mono':
            a = ctx.array('x%d' % i, N, -1., 1.)
            out.set_value(a)
            rows.append(ctx.flat(a))
        else:
            a = ctx.array('x%d' % i, (KINDS[kind], N), -1., 1.)
            out.set_value(a)
            rows.extend(ctx.flat(a[k]) for k in range(KINDS[kind]))
    got = []
    err = ctx.fails((m.ChannelMismatch,), lambda: got.append(dac.collect_samples()))
    if len(rows) < n:
        ctx.check(err is not None, 'too few channels are refused')
        return
    ctx.check(err is None, 'enough channels are accepted')
    out = got[0]
    ctx.check(ctx.shape(out) == (N, n), 'one row per frame')
    ctx.check(str(out.dtype) == 'float32', '32 bit floats')
    ctx.check(bool(out.flags['C_CONTIGUOUS']), 'frames are contiguous')
    for t in range(N):
        for c in range(n):
            ctx.eq(out[t, c], rows[c][t], 'channels in order', tol=1e-6)
    again = dac.collect_samples()
    for t in range(N):
        for c in range(n):
            ctx.eq(again[t, c], rows[c][t], 'collecting again gives the same', tol=1e-6)


@harness('C21', quick=grid(n=[1, 2, 3], extra=[0, 1]))
def inject(ctx, n, extra):
    m = ctx.mod('klang.audio.klanggeber')
    N = ctx.mod('klang.config').BUFFER_SIZE
    adc, dac = m.Adc(n), m.Dac(n)
    ctx.check(len(adc.outputs) == n, 'number of outputs')
    for o, i in zip(adc.outputs, dac.inputs):
        o.connect(i)
    silent = dac.collect_samples()
    for v in ctx.flat(silent):
        ctx.eq(v, 0., 'silence at first')
    for r in range(2):
        x = ctx.array('x%d' % r, (N, n + extra), -1., 1.)
        adc.inject_samples(x)
        for c in range(n):
            val = adc.outputs[c].value
            ctx.check(ctx.shape(val) == (N,), 'one mono signal per output')
            for t in range(N):
                ctx.eq(val[t], x[t, c], 'each output carries its channel', tol=1e-6)
        y = dac.collect_samples()
        for t in range(N):
            for c in range(n):
                ctx.eq(y[t, c], x[t, c], 'through and through', tol=1e-6)
    adc.mute_outputs()
    for o in adc.outputs:
        ctx.eq(ctx.flat(o.value), [0.] * N, 'muted')


@harness('C21', quick=[{}])
def devices(ctx):
    """The first devices among the blocks are used, dummies otherwise."""
    m = ctx.mod('klang.audio.klanggeber')
    Block = ctx.mod('klang.block').Block
    blocks, adcs, dacs = [], [], []
    for i in range(3):
        kind = ctx.choice('b%d' % i, ['block', 'adc', 'dac'])
        b = Block() if kind == 'block' else m.Adc(2) if kind == 'adc' else m.Dac(2)
        blocks.append(b)
        (adcs if kind == 'adc' else dacs if kind == 'dac' else []).append(b)
    adc, dac = m.look_for_audio_blocks(blocks)
    ctx.check(adc is adcs[0] if adcs else (isinstance(adc, m.Adc) and adc.nChannels == 0), 'first input device')
    ctx.check(dac is dacs[0] if dacs else (isinstance(dac, m.Dac) and dac.nChannels == 0), 'first output device')

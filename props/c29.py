"""C29: reverb."""
from symx.spec import harness, grid

MODULES = ['klang.audio.effects', 'klang.audio.filters', 'klang.primes']
BOUNDS = ('decay and delay times symbolic and positive; reverbs with 1..4 taps, buffer size 4, 2-3 buffers, signal and mix '
          'symbolic; the tap delays (pre delay 0.1..1 ms) and echo types enumerated')
OUTSIDE = 'more than 4 taps in the stream model; numeric value of exp beyond its order and functional equation'


@harness('C29', quick=[{}])
def coefficient(ctx):
    m = ctx.mod('klang.audio.effects')
    alpha = m.Reverb.compute_alpha
    t, d = ctx.real('t', 0., 10., lo_open=True), ctx.real('d', 0., 100., lo_open=True)
    a = alpha(t, d)
    ctx.check(ctx.And(a > 0., a < 1.), 'coefficient lies within (0, 1)')
    t2 = ctx.real('t2', 0., 10., lo_open=True)
    ctx.assume(t2 < t)
    ctx.check(alpha(t2, d) > a, 'later taps are damped more')
    d2 = ctx.real('d2', 0., 100., lo_open=True)
    ctx.assume(d2 < d)
    ctx.check(alpha(t, d2) < a, 'a shorter decay damps more')
    ctx.eq(alpha(t * 2., d * 2.), a, 'only the ratio of both counts', tol=1e-7)


@harness('C29', quick=[{}])
def no_decay(ctx):
    m = ctx.mod('klang.audio.effects')
    t, d = ctx.real('t', 0., 10.), ctx.real('d', None, 0.)
    ctx.eq(m.Reverb.compute_alpha(t, d), 0., 'no decay, no feedback')


@harness('C29', quick=grid(n=[1, 2, 3], kind=['backward', 'forward', 'echo']) + grid(n=[4], kind=['backward']),
         timeout=30)
def stream(ctx, n, kind):
    m = ctx.mod('klang.audio.effects')
    f = ctx.mod('klang.audio.filters')
    sr = ctx.mod('klang.config').SAMPLING_RATE
    typ = {'backward': f.BackwardCombFilter, 'forward': f.ForwardCombFilter, 'echo': f.EchoFilter}[kind]
    pre = ctx.pick('pre', 5, 12)
    decay = ctx.choice('decay', [0., .5, 2.])
    mix = ctx.real('mix', -.5, 1.5)
    args = (decay, (pre + .5) / sr, mix, n)
    fx = m.Reverb(*args) if kind == 'backward' and ctx.flag('default') else m.Reverb(*args, echoType=typ)
    taps, k = [], pre
    while len(taps) < n:
        if k >= 2 and all(k % q for q in range(2, k)):
            taps.append(k)
        k += 1
    import math
    lines = [[0.] * k for k in taps]
    alphas = [math.exp(-math.pi * k / sr / decay) if decay > 0 else 0. for k in taps]
    w = ctx.max(0., ctx.min(1., mix))
    src = ctx.mod('klang.block').Block(0, 1)
    src.output.connect(fx.input)
    for b in range(2):
        x = ctx.array('x%d_' % b, 4)
        src.output.set_value(x)
        keep = x.copy()
        fx.update()
        out = fx.output.value
        wet = [0.] * 4
        for line, a in zip(lines, alphas):
            for i in range(4):
                old = line.pop(0)
                y = keep[i] + a * old if kind != 'echo' else old
                line.append(keep[i] if kind == 'forward' else keep[i] + a * old)
                wet[i] = wet[i] + y
        for i in range(4):
            ctx.eq(out[i], (1. - w) * keep[i] + w * wet[i] / n, 'blend of the dry signal and the mean of the taps',
                   tol=1e-7)
        ctx.eq(src.output.value, keep, 'input buffer is untouched')


@harness('C29', quick=[{}])
def refused(ctx):
    m = ctx.mod('klang.audio.effects')
    ctx.raises(AssertionError, m.Reverb, 'needs at least one tap', nEchos=0)

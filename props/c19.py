"""C19: panning."""
from symx.spec import harness, grid

MODULES = ['klang.audio.panning', 'klang.audio.mixer']
BOUNDS = 'all pan levels (symbolic, also beyond the edges), the 3 modes, pan laws None, 0, -3, -4.5, -6 dB'
OUTSIDE = 'monotony of the mixture mode only in the thorough tier; pan laws other than the listed ones; exact values of the trigonometric laws off centre and edges'
MODES = ['linear', 'constant_power', 'mixture']
LAWS = [None, 0., -3., -4.5, -6.]


def amps(ctx, level, mode, law):
    a = ctx.mod('klang.audio.panning').panning_amplitudes(level, mode, law)
    ctx.check(ctx.shape(a) == (2, 1), 'one row per side')
    return a[0][0], a[1][0]


@harness('C19', quick=grid(mode=MODES, law=LAWS))
def single(ctx, mode, law):
    p = ctx.real('p', -1., 1.)
    l, r = amps(ctx, p, mode, law)
    for v in (l, r):
        ctx.le(v, 1., 'amplitude at most 1', tol=1e-6)
        ctx.le(0., v, 'amplitude not negative', tol=1e-6)
    if mode == 'constant_power' and law in (None, 0.):
        ctx.eq(l * l + r * r, 1., 'constant power', tol=1e-6)
    if mode == 'linear' and law is None:
        ctx.eq(l + r, 1., 'linear law keeps the sum', tol=1e-6)
    l2, r2 = amps(ctx, -p, mode, law)
    ctx.eq(l2, r, 'mirror image', tol=1e-6)
    ctx.eq(r2, l, 'mirror image', tol=1e-6)


@harness('C19', quick=grid(mode=MODES[:2], law=LAWS), thorough=grid(mode=MODES[2:], law=LAWS))
def monotone(ctx, mode, law):
    p, q = ctx.real('p', -1., 1.), ctx.real('q', -1., 1.)
    ctx.assume(p <= q)
    lp, rp = amps(ctx, p, mode, law)
    lq, rq = amps(ctx, q, mode, law)
    ctx.le(lq, lp, 'left never rises to the right', tol=1e-6)
    ctx.le(rp, rq, 'right never falls to the right', tol=1e-6)


@harness('C19', quick=grid(mode=MODES, law=LAWS))
def anchors(ctx, mode, law):
    """Edges, centre and values beyond the edges."""
    kind = ctx.choice('kind', ['centre', 'left', 'right', 'beyond_left', 'beyond_right'])
    if kind == 'centre':
        l, r = amps(ctx, 0., mode, law)
        ctx.eq(l, r, 'both sides equal at the centre', tol=1e-6)
        if law is None:
            want = {'linear': .5, 'constant_power': .5 ** .5, 'mixture': (.5 * .5 ** .5) ** .5}[mode]
            ctx.eq(l, want, 'natural centre level', tol=1e-6)
        else:
            ctx.eq(l * l + r * r, 10. ** (law / 20.), 'centre level of the pan law', tol=1e-6)
        return
    if kind == 'left':
        p = -1.
    elif kind == 'right':
        p = 1.
    elif kind == 'beyond_left':
        p = ctx.real('p', None, -1.)
    else:
        p = ctx.real('p', 1., None)
    l, r = amps(ctx, p, mode, law)
    want = (1., 0.) if 'left' in kind else (0., 1.)
    # cos(pi / 2) to a small power is only nearly 0 in floating point
    ctx.eq(l, want[0], 'hard edge', tol=1e-4)
    ctx.eq(r, want[1], 'hard edge', tol=1e-4)


@harness('C19', quick=[{}])
def refused(ctx):
    pan = ctx.mod('klang.audio.panning').panning_amplitudes
    p = ctx.real('p', -1., 1.)
    law = ctx.real('law', 0., 12., lo_open=True)
    mode = ctx.choice('mode', MODES)
    ctx.raises(ValueError, pan, 'positive pan law is refused', p, mode, law)
    ctx.raises(ValueError, pan, 'unknown mode is refused', p, 'binaural', None)


@harness('C19', buffer=3, quick=grid(mode=MODES))
def signal(ctx, mode):
    """pan_signal scales each side by its amplitude."""
    m = ctx.mod('klang.audio.panning')
    p = ctx.real('p', -1., 1.)
    x = ctx.array('x', 3)
    l, r = amps(ctx, p, mode, None)
    out = m.pan_signal(x, p, mode)
    ctx.check(ctx.shape(out) == (2, 3), 'two channels')
    ctx.eq(out[0], l * x, 'left channel')
    ctx.eq(out[1], r * x, 'right channel')
    stereo = ctx.np.array([[x[0], x[1], x[2]], [1., 2., 3.]])
    out = m.pan_signal(stereo, p, mode)
    ctx.eq(out[0], l * x, 'left channel (stereo)')
    ctx.eq(out[1], r * stereo[1], 'right channel (stereo)')

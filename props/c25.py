"""C25: sample playback."""
from symx.spec import harness, grid

MODULES = ['klang.audio.sampling']
BOUNDS = ('samples of 6 frames, 1 or 2 channels, symbolic values; every region [start, stop), block sizes 1..4 and sequences of 3 '
          '(thorough 4) read / rewind / trim steps, with and without looping; other playback speeds: 1/2 and 2; '
          'libsamplerate as a stand-in converter with a buffer of its own')
OUTSIDE = 'the filters of the libsamplerate converters (a stand-in repeats or skips frames)'


def data(ctx, n, channels):
    return ctx.array('d', n, -1., 1.) if channels == 0 else ctx.array('d', (n, channels), -1., 1.)


def row(ctx, x, channels):
    return [x] if channels == 0 else [x[c] for c in range(channels)]


REGIONS = [(a, b) for a in range(4) for b in range(a + 1, 5)]


@harness('C25', quick=grid(loop=[0, 1], channels=[0, 2], steps=[3]), thorough=grid(loop=[0, 1], channels=[0], steps=[4]), timeout=60)
def region(ctx, loop, channels, steps):
    """Blocks of frames, as the resampler gets them."""
    m = ctx.mod('klang.audio.sampling')
    n = 4
    d = data(ctx, n, channels)
    start, stop = ctx.choice('region', REGIONS)
    how = ctx.flag('trim')
    if how:
        s = m.Sample(44100, d, loop=bool(loop), mode='crude')
        s.trim(start, stop)
    else:
        s = m.Sample(44100, d, start=start, stop=stop, loop=bool(loop), mode='crude')
    pos = start
    for k in range(steps):
        op = ctx.choice('op%d' % k, ['read', 'rewind'] if k else ['read'])
        if op == 'rewind':
            s.rewind()
            pos = start
            continue
        size = ctx.pick('n%d' % k, 1, 5)
        got = s.callback(nFrames=size)
        want = []
        for _ in range(size):
            if pos >= stop:
                if not loop:
                    break
                pos = start
            want.append(pos)
            pos += 1
        ctx.check(len(got) == len(want), 'as many frames as are left')
        for g, w in zip(got, want):
            ctx.eq(row(ctx, g, channels), row(ctx, d[w], channels), 'frames of the region in order')
        ctx.check(bool(s.playing) == bool(loop or pos < stop), 'playing until the end of the region')


@harness('C25', quick=grid(loop=[0, 1], steps=[3]), timeout=60)
def trims(ctx, loop, steps):
    """Trimming while playing."""
    m = ctx.mod('klang.audio.sampling')
    d = data(ctx, 5, 0)
    s = m.Sample(44100, d, loop=bool(loop), mode='crude')
    start, stop, pos = 0, 5, 0
    regions = [(0, 5), (1, 4), (2, 3), (0, 2), (3, 5)]
    for k in range(steps):
        if k != 1:
            size = ctx.pick('n%d' % k, 1, 6)
            got = s.callback(nFrames=size)
            want = []
            for _ in range(size):
                if pos >= stop:
                    if not loop:
                        break
                    pos = start
                want.append(pos)
                pos += 1
            ctx.check(len(got) == len(want), 'as many frames as are left')
            for g, w in zip(got, want):
                ctx.eq(g, d[w], 'frames of the region in order')
        else:
            if loop and pos >= stop:
                pos = start
            start, stop = ctx.choice('region', regions)
            s.trim(start, stop)
            pos = min(max(pos, start), stop)


@harness('C25', quick=[{}])
def invalid(ctx):
    m = ctx.mod('klang.audio.sampling')
    d = ctx.array('d', 4, -1., 1.)
    a, b = ctx.pick('a', -2, 6), ctx.pick('b', 1, 6)
    err = ctx.fails((AssertionError, ValueError), lambda: m.Sample(44100, d, start=a, stop=b, mode='crude'))
    ctx.check((err is None) == (0 <= a < b <= 4), 'regions lie within the sample')


@harness('C25', quick=grid(mode=['crude', 'very_crude'], channels=[0, 2], loop=[0, 1]))
def original_speed(ctx, mode, channels, loop):
    """At original speed reads deliver the frames themselves."""
    m = ctx.mod('klang.audio.sampling')
    n = 5
    d = data(ctx, n, channels)
    s = m.Sample(44100, d, start=1, loop=bool(loop), mode=mode)
    pos = 1
    for k in range(3):
        size = ctx.pick('n%d' % k, 1, 3)
        got = s.read(size)
        want = []
        for _ in range(size):
            if pos >= n:
                if not loop:
                    break
                pos = 1
            want.append(pos)
            pos += 1
        ctx.check(len(got) == len(want), 'as many frames as are left')
        for g, w in zip(got, want):
            ctx.eq(row(ctx, g, channels), row(ctx, d[w], channels), 'frames in order')


@harness('C25', quick=grid(mode=['crude', 'very_crude'], rate=[44100, 22050, 88200]))
def other_speeds(ctx, mode, rate):
    """Half and double speed take every frame twice / every other one."""
    m = ctx.mod('klang.audio.sampling')
    d = data(ctx, 8, 0)
    speed = ctx.choice('speed', [.5, 1., 2.])
    late = ctx.flag('late')
    s = m.Sample(rate, d, playbackSpeed=1. if late else speed, mode=mode)
    if late:
        s.set_playback_speed(speed)
    step = speed * rate / 44100
    if step not in (.5, 1, 2):
        return
    for k in range(2):
        got = s.read(4)
        at = [k * 4 * step + i * step for i in range(4)]
        if at[-1] > 7:
            return
        ctx.check(len(got) == 4, 'full block')
        for g, a in zip(got, at):
            lo = int(a)
            if mode == 'very_crude' or a == lo:
                ctx.eq(g, d[lo], 'frames at their speed')
            elif lo + 1 < int((k + 1) * 4 * step):
                ctx.eq(g, (d[lo] + d[lo + 1]) / 2, 'interpolated frames', tol=1e-9)


@harness('C25', quick=[{}])
def helpers(ctx):
    m = ctx.mod('klang.audio.sampling')
    N = ctx.mod('klang.config').BUFFER_SIZE
    n = ctx.pick('n', 0, N)
    ch = ctx.pick('ch', 0, 2)
    x = ctx.array('x', n) if ch == 0 else ctx.array('x', (ch, n)) if n else ctx.np.zeros((ch, 0))
    y = m.extend_with_silence(x)
    ctx.check(ctx.shape(y) == ctx.shape(x)[:-1] + (N,), 'full buffer')
    rows_x, rows_y = ([x], [y]) if ch == 0 else (x, y)
    for a, b in zip(rows_x, rows_y):
        ctx.eq([b[i] for i in range(N)], [a[i] for i in range(n)] + [0.] * (N - n), 'padded with silence')
    if n and ch:
        mono = m.sum_to_mono(ctx.np.array([[x[c][i] for c in range(ch)] for i in range(n)]))
        ctx.check(ctx.shape(mono) == (n, 1), 'one channel')
        for i in range(n):
            ctx.eq(mono[i, 0], sum(x[c][i] for c in range(ch)) / ch, 'mean of the channels', tol=1e-9)


class Converter:

    """Stand-in for the callback converter of libsamplerate at whole-numbered ratios: it asks for a block whenever it
    has run out of frames, repeats or skips frames, and keeps what is left over for the next call until it is reset."""

    made = []
    stack = None
    empty = None

    def __init__(self, callback, ratio, converter_type='sinc_best', channels=1):
        self.callback, self.ratio, self.converter, self.channels = callback, ratio, converter_type, channels
        self.left, self.at = [], 0.
        type(self).made.append(self)

    def set_starting_ratio(self, ratio):
        self.ratio = ratio

    def reset(self):
        self.left, self.at = [], 0.

    def read(self, n):
        out = []
        while len(out) < n:
            while self.at >= len(self.left):
                block = self.callback()
                if not len(block):
                    return type(self).stack(out)
                self.at -= len(self.left)
                self.left = [row for row in block]
            out.append(self.left[int(self.at)])
            self.at += 1. / self.ratio
        return type(self).stack(out)


@harness('C25', quick=grid(speed=[.5, 1., 2.], loop=[0, 1], channels=[0, 2], steps=[3]),
         thorough=grid(speed=[.5, 1., 2.], loop=[0, 1], channels=[0], steps=[4]), timeout=60)
def converter(ctx, speed, loop, channels, steps):
    """Playback through a converter which buffers frames."""
    m = ctx.mod('klang.audio.sampling')
    N = ctx.mod('klang.config').BUFFER_SIZE

    class Fake(Converter):
        made = []
        stack = staticmethod(lambda rows: ctx.np.array(rows))

    ctx.patch(m.samplerate, 'CallbackResampler', Fake)
    n = 10
    d = data(ctx, n, channels)
    mode = ctx.choice('mode', ['linear', 'sinc_fastest'])
    late = ctx.flag('late')
    s = m.Sample(44100, d, start=1, loop=bool(loop), mode=mode, playbackSpeed=1. if late else speed)
    if late:
        s.set_playback_speed(speed)
    if len(Fake.made) != 1:
        return          # another converter
    c = Fake.made[0]
    ctx.check(str(getattr(c.converter, 'name', c.converter)) == mode, 'converter of that quality')
    ctx.eq(c.ratio, 1. / speed, 'speed of the playback')
    ctx.check(c.channels == max(channels, 1), 'channels of the sample')
    pos = 0.
    for k in range(steps):
        if k and ctx.flag('rewind%d' % k):
            s.rewind()
            pos = 0.
        size = ctx.pick('n%d' % k, 2, 5)
        got = s.read(size)
        want = []
        for _ in range(size):
            i = int(pos)
            if i >= n - 1 and not loop:
                break
            want.append(1 + i % (n - 1))
            pos += speed
        ctx.check(len(got) == len(want), 'as many frames as are left')
        for g, w in zip(got, want):
            ctx.eq(row(ctx, g, channels), row(ctx, d[w], channels), 'frames in order, from the start after rewinding')


@harness('C25', quick=grid(loop=[0, 1]))
def untrimmed(ctx, loop):
    """Trimming without limits gives the whole sample back."""
    m = ctx.mod('klang.audio.sampling')
    d = data(ctx, 5, 0)
    s = m.Sample(44100, d, loop=bool(loop), mode='crude')
    a, b = ctx.choice('region', [(1, 3), (2, 5), (0, 2)])
    s.trim(a, b)
    which = ctx.pick('which', 0, 2)
    want = [(0, 5), (0, b), (a, 5)][which]
    [lambda: s.trim(), lambda: s.trim(stop=b), lambda: s.trim(start=a)][which]()
    s.rewind()
    got = s.callback(nFrames=want[1] - want[0])
    ctx.check(len(got) == want[1] - want[0], 'frames of the region')
    for g, i in zip(got, range(*want)):
        ctx.eq(g, d[i], 'frames of the region in order')

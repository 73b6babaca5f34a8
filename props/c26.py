"""C26: audio file player."""
from symx.spec import harness, grid

MODULES = ['klang.audio.sampling', 'klang.audio.wavfile']
BOUNDS = ('16 bit files of 1..11 frames (buffers of 4 samples), 1 or 2 channels with and without mono mix, symbolic samples, every history of '
          '4 (thorough 6) updates with play / pause / stop / rewind before each; looping and trimmed players')
OUTSIDE = 'the libsamplerate converters (original speed only through the crude resampler); files shorter than their number of channels'
BUFFER = 4


def player(ctx, n, channels, **kw):
    m = ctx.mod('klang.audio.sampling')
    frames = [ctx.ints('f%d_' % i, channels, -32768, 32767) for i in range(n)]
    path = ctx.wav_make('in.wav', 44100, frames)
    return frames, m.AudioFile(path, mode='crude', **kw)


def expected(ctx, frames, channels, mono, indices, N):
    rows = []
    for c in range(channels):
        row = [frames[i][c] / 32768 for i in indices]
        rows.append(row + [0.] * (N - len(row)))
    if mono and channels > 1:
        rows = [[sum(r[i] for r in rows) / channels for i in range(N)]]
    return rows


def compare(ctx, value, rows, N, label):
    """Mono outputs may come as plain buffers."""
    shape = ctx.shape(value)
    if len(rows) == 1:
        ctx.check(shape in ((N,), (1, N)), 'one buffer', {'shape': str(shape)})
        ctx.eq(ctx.flat(value), rows[0], label)
        return
    ctx.check(shape == (len(rows), N), 'one buffer for each channel', {'shape': str(shape)})
    for c, row in enumerate(rows):
        ctx.eq([value[c, i] for i in range(N)], row, label)


@harness('C26', quick=grid(channels=[1, 2], mono=[0, 1], n=[3, 4, 6, 8], steps=[4]),
         thorough=grid(channels=[1, 2], mono=[0], n=[6, 11], steps=[5]), timeout=60)
def histories(ctx, channels, mono, n, steps):
    cfg = ctx.mod('klang.config')
    N = cfg.BUFFER_SIZE
    frames, af = player(ctx, n, channels, mono=bool(mono))
    ctx.eq(af.duration, n / 44100, 'duration of the file')
    playing, pos = False, 0
    for k in range(steps):
        op = ctx.choice('op%d' % k, ['play', 'none', 'pause', 'stop', 'rewind'] if k else ['play', 'none'])
        if op == 'play':
            af.play()
            playing = True
        elif op == 'pause':
            af.pause()
            playing = False
        elif op == 'stop':
            af.stop()
            playing, pos = False, 0
        elif op == 'rewind':
            af.rewind()
            pos = 0
        af.update()
        idx = []
        if playing:
            idx = list(range(pos, min(n, pos + N)))
            pos = min(n, pos + N)
            playing = pos < n
        compare(ctx, af.output.value, expected(ctx, frames, channels, mono, idx, N), N,
                'frames of the file while playing, silence otherwise')
        ctx.check(bool(af.playing) == playing, 'playing until the end of the file')
        ctx.eq(af.playingPosition, pos / 44100, 'playing position')


@harness('C26', quick=grid(channels=[1, 2], region=[(0, 5), (2, 5), (1, 3)], loop=[0, 1]), timeout=60)
def loops(ctx, channels, region, loop):
    N = ctx.mod('klang.config').BUFFER_SIZE
    a, b = region
    late = ctx.flag('late')
    frames, af = player(ctx, 7, channels, loop=bool(loop), **({} if late else dict(start=a, stop=b)))
    if late:
        af.sample.trim(a, b)
    af.play()
    pos, playing = a, True
    for k in range(3):
        af.update()
        idx = []
        while playing and len(idx) < N:
            if pos >= b:
                if not loop:
                    break
                pos = a
            idx.append(pos)
            pos += 1
        compare(ctx, af.output.value, expected(ctx, frames, channels, 0, idx, N), N, 'frames of the region')
        if not loop and pos >= b:
            playing = False
        ctx.check(bool(af.playing) == playing, 'loops never stop by themselves')
    af.stop()
    af.update()
    compare(ctx, af.output.value, expected(ctx, frames, channels, 0, [], N), N, 'silence when stopped')
    af.play()
    af.update()
    ctx.eq(ctx.flat(af.output.value)[0], frames[a][0] / 32768, 'stopping rewinds')

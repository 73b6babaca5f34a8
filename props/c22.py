"""C22: rendering."""
from symx.spec import harness, grid

MODULES = ['klang.klang', 'klang.audio.klanggeber', 'klang.clock', 'klang.progress_bar']
BOUNDS = ('symbolic durations of up to 4 buffers of 4 samples (fixed ones with a fade-out), 1 or 2 channels, chains of 2 blocks, symbolic samples; fade-outs of '
          'up to 2 buffers; live stream with a stand-in sound card')
OUTSIDE = 'the sound card driver; renderings which are silent or shorter than one buffer (refused when written to a file)'
ASSUMPTIONS = ['scipy.io.wavfile stores 16 bit frames as they are (a recording stand-in in the symbolic run, real files in the replays)']


def network(ctx, channels, rows, times, counts):
    """source -> gain block -> Dac; the source plays the given rows."""
    Block = ctx.mod('klang.block').Block
    clock = ctx.mod('klang.clock').ClockMixin
    Dac = ctx.mod('klang.audio.klanggeber').Dac

    class Source(Block):
        def __init__(self):
            super().__init__(nOutputs=channels)

        def update(self):
            k = counts['source']
            counts['source'] += 1
            times.append(clock.clock())
            for c, o in enumerate(self.outputs):
                o.set_value(rows(k, c))

    class Invert(Block):
        def __init__(self):
            super().__init__(nInputs=1, nOutputs=1)

        def update(self):
            counts['invert'] += 1
            self.output.set_value(-1. * self.input.value)

    source, dac = Source(), Dac(channels)
    invert = Invert()
    source.outputs[0].connect(invert.input)
    invert.output.connect(dac.inputs[0])
    for c in range(1, channels):
        source.outputs[c].connect(dac.inputs[c])
    return source, dac


def quiet(ctx):
    """No progress bar on the terminal."""
    import io
    ctx.patch(ctx.mod('klang.progress_bar').ProgressBar, 'stream', io.StringIO())


@harness('C22', quick=grid(channels=[1, 2], fade=[0, 1]), timeout=60)
def offline(ctx, channels, fade):
    run = ctx.mod('klang.klang').run_klang
    cfg = ctx.mod('klang.config')
    N, SR = cfg.BUFFER_SIZE, cfg.SAMPLING_RATE
    quiet(ctx)
    beats = ctx.choice('buffers', [2.25, 2.6, 3.5]) if fade else ctx.real('buffers', 1., 4.)
    whole = ctx.floor(beats)
    ctx.assume(ctx.And(beats - whole > .01, beats - whole < .99))
    duration = beats * N / SR
    cache = {}

    def rows(k, c):
        if (k, c) not in cache:
            xs = ctx.reals('x%d_%d_' % (k, c), N, -1., 1.)
            if k == 0 and c == 0:
                xs[0] = -1.      # known peak: the file is normalised
            cache[k, c] = ctx.np.array(xs)
        return cache[k, c]

    times, counts = [], {'source': 0, 'invert': 0}
    source, dac = network(ctx, channels, rows, times, counts)
    path = ctx.wav_path()
    kw = {}
    fadeBuffers = 0
    if fade:
        fadeBuffers = ctx.choice('fade', [.5, 1.5, beats])      # the first sample, the peak, always stays
        kw['fadeout'] = duration if fadeBuffers == beats else fadeBuffers * N / SR
    run(source if ctx.flag('root') else dac, duration=duration, filepath=path, offline=True, **kw)
    n = counts['source']
    ctx.check(n == whole, 'as many buffers as fit into the duration')
    ctx.check(counts['invert'] == n, 'every block runs once per buffer')
    for k, t in enumerate(times):
        ctx.eq(t, k * N / SR, 'the clock advances by one buffer', tol=1e-6)
    rate, frames = ctx.wav_read(path)
    ctx.check(rate == SR, 'sampling rate')
    ctx.check(len(frames) == n * N and all(len(f) == channels for f in frames), 'all buffers and channels are written')
    fadeStart = beats - fadeBuffers
    for k in range(n):
        for c in range(channels):
            sign = -1. if c == 0 else 1.
            for i in range(N):
                want = sign * rows(k, c)[i]
                got = frames[k * N + i][c] / 32767
                slack = 1e-4
                if not fade:
                    ctx.check(ctx.And(got - want < slack, want - got < slack), 'buffers follow each other')
                    continue
                pos = k + i / N
                gain = ctx.max(0., ctx.min(1., (beats - pos) / fadeBuffers))
                # A buffer in which the fade starts may still be played in full
                full = k + 1 <= fadeStart
                inside = k >= fadeStart + 1e-6 or fadeBuffers == beats
                a = ctx.And(got - want < slack, want - got < slack)
                if fadeBuffers == beats:
                    full = False
                b = ctx.And(got - want * gain < slack, want * gain - got < slack)
                ctx.check(ctx.Or(ctx.And(full, a), ctx.And(inside, b), ctx.And(ctx.Not(full), ctx.Not(inside), ctx.Or(a, b))),
                          'faded out linearly at the end')


@harness('C22', quick=grid(channels=[1, 2]))
def live(ctx, channels):
    """The stream callback runs the network once per buffer until the duration is over."""
    g = ctx.mod('klang.audio.klanggeber')
    run = ctx.mod('klang.klang').run_klang
    cfg = ctx.mod('klang.config')
    N, SR = cfg.BUFFER_SIZE, cfg.SAMPLING_RATE
    log = []
    stop = ctx.choice('end', ['duration', 'interrupt', 'failure'])
    record = stop != 'failure' and ctx.flag('record')
    outs, kw = [], {}
    if record:
        kw['filepath'] = ctx.wav_path('live.wav')

    class Stream:
        def __init__(self, stream_callback, **kw):
            self.callback, self.kw = stream_callback, kw

        def start_stream(self):
            log.append('start')
            for _ in range(8):
                data, code = self.callback(None, N, None, 0)
                outs.append(data)
                if code != g.pyaudio.paContinue:
                    log.append('complete')
                    return
                if stop == 'interrupt' and len(outs) == 2:
                    raise KeyboardInterrupt

        def is_active(self):
            return False

        def stop_stream(self):
            log.append('stop')

        def close(self):
            log.append('close')

    class PA:
        def get_default_input_device_info(self):
            return {'maxInputChannels': 0}

        def get_default_output_device_info(self):
            return {'maxOutputChannels': 2}

        def open(self, **kw):
            ctx.check(kw['rate'] == SR and kw['channels'] == channels and kw['frames_per_buffer'] == N, 'stream settings')
            return Stream(**kw)

        def terminate(self):
            log.append('terminate')

    ctx.patch(g.pyaudio, 'PyAudio', PA)
    beats = ctx.real('buffers', 2., 4.)
    whole = ctx.floor(beats)
    ctx.assume(ctx.And(beats - whole > .01, beats - whole < .99))
    cache, times, counts = {}, [], {'source': 0, 'invert': 0}

    def rows(k, c):
        if stop == 'failure' and k == 1:
            raise RuntimeError('broken block')
        if (k, c) not in cache:
            xs = ctx.reals('x%d_%d_' % (k, c), N, -1., 1.)
            if record and k == 0 and c == 0:
                xs[0] = -1.
            cache[k, c] = ctx.np.array(xs)
        return cache[k, c]

    source, dac = network(ctx, channels, rows, times, counts)
    err = ctx.fails((RuntimeError,), lambda: run(dac, duration=beats * N / SR, **kw))
    ctx.check((err is not None) == (stop == 'failure'), 'errors of blocks are passed on')
    ctx.check(log[-3:] == ['stop', 'close', 'terminate'], 'the stream is closed in any case')
    if stop == 'duration':
        ctx.check(len(outs) == whole + 1 and 'complete' in log, 'ends once the duration is over')
    for k, t in enumerate(times):
        ctx.eq(t, k * N / SR, 'the clock advances by one buffer', tol=1e-6)
    if record:
        rate, frames = ctx.wav_read(kw['filepath'])
        ctx.check(rate == SR and len(frames) == len(outs) * N, 'everything which was played is recorded')
        for k in range(len(outs)):
            for c in range(channels):
                for i in range(N):
                    d = frames[k * N + i][c] / 32767 - (-1. if c == 0 else 1.) * rows(k, c)[i]
                    ctx.check(ctx.And(d < 1e-4, d > -1e-4), 'everything which was played is recorded')
    for k, data in enumerate(outs):
        ctx.check(ctx.shape(data) == (N, channels), 'one row per frame')
        for c in range(channels):
            for i in range(N):
                ctx.eq(data[i, c], (-1. if c == 0 else 1.) * rows(k, c)[i] if stop != 'failure' or k != 1 else data[i, c],
                       'buffers follow each other', tol=1e-6)


@harness('C22', quick=grid(have=[0, 1, 2], need=[1, 2, 3]))
def too_few_channels(ctx, have, need):
    """A sound card without enough channels is refused before anything runs."""
    g = ctx.mod('klang.audio.klanggeber')
    ran = []

    class PA:
        def get_default_input_device_info(self):
            return {'maxInputChannels': have}

        def get_default_output_device_info(self):
            return {'maxOutputChannels': have}

        def open(self, **kw):
            ran.append('open')
            raise KeyError('opened')

        def terminate(self):
            pass

    ctx.patch(g.pyaudio, 'PyAudio', PA)
    which = ctx.choice('which', ['in', 'out'])
    adc, dac = (g.Adc(need), g.Dac(0)) if which == 'in' else (g.Adc(0), g.Dac(need))
    err = ctx.fails((ValueError, KeyError), lambda: g.run_audio_engine(adc, dac, lambda: ran.append('run'), duration=1.))
    if need > have:
        ctx.check(isinstance(err, ValueError) and not ran, 'refused')
    else:
        ctx.check(ran == ['open'], 'accepted')


@harness('C22', quick=[{}])
def nothing(ctx):
    run = ctx.mod('klang.klang').run_klang
    ctx.check(ctx.fails((ValueError,), lambda: run()) is not None, 'nothing to run is refused')


class Card:

    """Stand-in sound card: runs the callback a few times."""

    def __init__(self, ctx, g, times, outs, log, in_data=None):
        N = ctx.mod('klang.config').BUFFER_SIZE

        class Stream:
            def __init__(self, stream_callback, **kw):
                self.callback = stream_callback

            def start_stream(self):
                for _ in range(times):
                    outs.append(self.callback(in_data, N, None, 0))
                    if outs[-1][1] != g.pyaudio.paContinue:
                        return

            def is_active(self):
                return False

            def stop_stream(self):
                log.append('stop')

            def close(self):
                log.append('close')

        class PA:
            def get_default_input_device_info(self):
                return {'maxInputChannels': 2}

            def get_default_output_device_info(self):
                return {'maxOutputChannels': 2}

            def open(self, **kw):
                log.append((kw.get('input'), kw.get('output')))
                return Stream(**kw)

            def terminate(self):
                log.append('terminate')

        ctx.patch(g.pyaudio, 'PyAudio', PA)


@harness('C22', quick=grid(channels=[1, 2]))
def no_signal(ctx, channels):
    """A network which stops to deliver audio ends the stream with silence."""
    g = ctx.mod('klang.audio.klanggeber')
    run = ctx.mod('klang.klang').run_klang
    N = ctx.mod('klang.config').BUFFER_SIZE
    outs, log = [], []
    Card(ctx, g, 4, outs, log)
    Block = ctx.mod('klang.block').Block
    dac = g.Dac(channels)
    when = ctx.pick('when', 0, 2)
    x = ctx.array('x', N, -1., 1.)
    calls = []

    class Source(Block):
        def __init__(self):
            super().__init__(nOutputs=1)

        def update(self):
            self.output.set_value(1. if len(calls) == when else x)
            calls.append(1)

    source = Source()
    source.output.connect(dac.inputs[-1])
    run(dac)
    ctx.check(len(outs) == when + 1, 'the stream ends')
    for k, (out, code) in enumerate(outs):
        ctx.check(ctx.shape(out) == (N, channels), 'one row per frame')
        ctx.check(code == (g.pyaudio.paAbort if k == when else g.pyaudio.paContinue), 'goes on as long as there is audio')
        for i in range(N):
            ctx.eq(out[i, channels - 1], 0. if k == when else x[i], 'audio, then silence', tol=1e-6)
    ctx.check(log == [(False, True), 'stop', 'close', 'terminate'], 'the stream is closed in any case')


@harness('C22', quick=[{}])
def microphone(ctx):
    """Live input goes through the network in the same buffer."""
    import struct
    g = ctx.mod('klang.audio.klanggeber')
    run = ctx.mod('klang.klang').run_klang
    N = ctx.mod('klang.config').BUFFER_SIZE
    outs, log = [], []
    samples = [.5, -.25, .125, 1., -1., .75, 0., -.5][:2 * N]
    Card(ctx, g, 2, outs, log, struct.pack('%df' % len(samples), *samples))
    gain = ctx.real('gain', -1., 1.)
    adc, dac = g.Adc(2), g.Dac(2)
    swap = ctx.flag('swap')
    for c in range(2):
        fx = ctx.mod('klang.audio.effects').Gain(gain)
        adc.outputs[c].connect(fx.input)
        fx.output.connect(dac.inputs[1 - c if swap else c])
    run(adc)
    ctx.check(len(outs) == 2 and log[0] == (True, True), 'input and output of the sound card')
    for out, code in outs:
        for i in range(N):
            for c in range(2):
                ctx.eq(out[i, 1 - c if swap else c], gain * samples[2 * i + c], 'input of the same buffer', tol=1e-6)


@harness('C22', quick=grid(steps=[3]))
def without_audio(ctx, steps):
    """Networks without sound card run once per buffer interval as well, by the system clock."""
    k = ctx.mod('klang.klang')
    clock = ctx.mod('klang.clock').ClockMixin
    cfg = ctx.mod('klang.config')
    interval = cfg.BUFFER_SIZE / cfg.SAMPLING_RATE
    now = [ctx.real('start', 0., 10.)]
    slept = []

    class End(Exception):
        pass

    def sleep(t):
        ctx.check(t >= 0., 'never sleeps for a negative time')
        slept.append(t)
        now[0] = now[0] + t
        if len(slept) > 20:
            raise End

    ctx.patch(k.time, 'perf_counter', lambda: now[0])
    ctx.patch(k.time, 'sleep', sleep)
    work = [ctx.choice('work%d' % i, [.25, 1.5]) for i in range(steps)]
    seen = []

    class Busy(ctx.mod('klang.block').Block):
        def update(self):
            seen.append((clock.clock(), now[0]))
            if len(seen) == steps:
                raise End
            now[0] = now[0] + work[len(seen)] * interval

    turn = now[0] / interval
    part = turn - ctx.floor(turn)
    for w in (0., .25, .5, .75):
        ctx.assume(abs(part - w) > 1e-3)
    ctx.assume(part < .999)
    first = now[0]
    err = ctx.fails((End,), lambda: k.run_klang(Busy()))
    ctx.check(err is not None and len(seen) == steps and len(slept) == steps, 'one sleep before each cycle')
    for i, (t, at) in enumerate(seen):
        ctx.eq(t, at, 'the clock shows the time of the cycle', tol=1e-6)
        beat = t / interval + .5
        ctx.check(abs(beat - ctx.floor(beat) - .5) < 1e-3, 'cycles start on the grid of buffer intervals')
        if i:
            gap = (t - seen[i - 1][0]) / interval
            ctx.check(ctx.And(gap > work[i] - 1e-3, gap < work[i] + 1 + 1e-3), 'the next point of the grid')

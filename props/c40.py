"""C40: sequences."""
from symx.spec import harness, grid

MODULES = ['klang.sequencer', 'klang.note_effects', 'klang.audio.oscillators', 'klang.music.tempo', 'klang.composite', 'klang.execution']
BOUNDS = ('patterns of 1..4 steps with rests and chords, up to 2 channels; symbolic tempo (one step takes one buffer to several), 3 to 4 (thorough 5) buffers '
          'from the beginning; symbolic tempo, beat value and grid for durations; note lengths of half a step or fixed')
OUTSIDE = 'steps shorter than half a buffer; positions within a rounding error of a step border'

PATTERNS = [[60, 62, 64, 65], [60, 0, 64], [[60, 0, 64], 0, [0, 67]], [61, 61], [72]]


def setup(ctx):
    cfg = ctx.mod('klang.config')
    return cfg.BUFFER_SIZE / cfg.SAMPLING_RATE


def entered(ctx, pos, length, last):
    """Absolute step of a position in steps; keeps away from borders."""
    step = ctx.floor(pos)
    ctx.assume(ctx.And(pos - step > 1e-4, pos - step < 1 - 1e-4))
    return step


def pitches(entry):
    return [p for p in (entry if isinstance(entry, list) else [entry]) if p]


@harness('C40', quick=grid(length=[1, 2, 3, 4]))
def durations(ctx, length):
    m = ctx.mod('klang.sequencer')
    F = ctx.mod('fractions').Fraction
    tempo = ctx.real('tempo', 20., 400.)
    beat = ctx.choice('beat', [F(1, 4), F(1, 8), F(3, 8)])
    step = ctx.choice('grid', [F(1, 16), F(1, 4), F(1, 6)])
    seq = m.Sequence(None, list(range(60, 60 + length)), tempo=tempo, beatValue=beat, grid=step)
    ctx.check(seq.length == length, 'length is the number of steps')
    want = length * float(step / beat) * 60 / tempo
    ctx.eq(seq.duration, want, 'duration of all steps', tol=1e-6)
    ctx.eq(seq.phasor.frequency.value * want, 1., 'one turn for each repetition', tol=1e-6)
    ctx.eq(seq.lengthener.duration, want / length / 2, 'notes last half a step', tol=1e-6)


@harness('C40', quick=grid(pattern=[0, 2], steps=[3]) + grid(pattern=[1, 3, 4], steps=[4]),
         thorough=grid(pattern=[0, 1, 2, 3], steps=[4]) + grid(pattern=[3, 4], steps=[5]), timeout=60)
def playing(ctx, pattern, steps):
    """Notes of the pattern at their positions, ended by their length."""
    m = ctx.mod('klang.sequencer')
    sink = ctx.mod('klang.connections').MessageInput()
    dt = setup(ctx)
    clock = ctx.mod('klang.clock').ClockMixin
    F = ctx.mod('fractions').Fraction
    pat = PATTERNS[pattern]
    n = len(pat)
    advance = ctx.real('advance', .2, .95 if n > 1 else .45)       # steps per buffer
    offset = ctx.real('offset', .01, n - .01)
    stepTime = dt / advance
    noteTime = ctx.choice('length', [None, 1.5])
    kw = {} if noteTime is None else {'absNoteLength': noteTime * dt}
    # one step is one beat: 60 / tempo seconds
    seq = m.Sequence(None, pat, tempo=60 / stepTime, beatValue=F(1, 4), grid=F(1, 4), **kw)
    seq.phasor.currentPhase = offset / n * ctx.mod('klang.constants').TAU
    seq.output.connect(sink)
    lasting = noteTime if noteTime is not None else 1 / advance / 2        # in buffers
    last = -1
    sounding = []
    for k in range(steps):
        clock.set_current_time(k * dt)
        seq.update()
        step = entered(ctx, offset + k * advance, n, last)
        ends = []
        while sounding:
            gap = k - (sounding[0][0] + lasting)
            ctx.assume(ctx.Or(gap > 1e-4, gap < -1e-4))
            if gap < 0:
                break
            ends.append(sounding.pop(0)[1])
        got = list(sink.receive())
        starts = [p for s in range(last + 1, int_(ctx, step, n * 8) + 1) for p in pitches(pat[s % n])]
        last = int_(ctx, step, n * 8)
        ctx.check([g.pitch for g in got if g.off] == ends, 'notes end after their length')
        ctx.check([g.pitch for g in got if g.on] == starts, 'notes of the steps which were entered')
        ctx.check(all(g.velocity == 1 for g in got if g.on), 'full velocity')
        sounding.extend((k, p) for p in starts)


def int_(ctx, x, most):
    """Concrete value of an integer."""
    for i in range(most):
        if x == i:
            return i
    ctx.assume(False)


@harness('C40', quick=grid(split=[0, 1], steps=[4]), timeout=60)
def channels(ctx, split, steps):
    """Channels are independent."""
    m = ctx.mod('klang.sequencer')
    MessageInput = ctx.mod('klang.connections').MessageInput
    TAU = ctx.mod('klang.constants').TAU
    F = ctx.mod('fractions').Fraction
    rows = [[10, 11, 12, 13], [20, 0, 22]]
    advance = .7
    dt = setup(ctx)
    block = m.Sequencer(rows[:1] if ctx.flag('later') else rows, splitOutputs=bool(split), tempo=60 * advance / dt, beatValue=F(1, 4), grid=F(1, 4))
    if len(block.sequences) < 2:
        block.add_new_channel(rows[1], tempo=60 * advance / dt, beatValue=F(1, 4), grid=F(1, 4))
    ctx.check(len(block.outputs) == (2 if split else 1), 'outputs')
    ctx.check(block.nChannels == 2, 'number of channels')
    sinks = []
    for o in block.outputs:
        sinks.append(MessageInput())
        o.connect(sinks[-1])
    offsets = [ctx.choice('offset%d' % c, [.2, .8, 1.5, 2.9]) for c in range(2)]
    for c in range(2):
        block.sequences[c].phasor.currentPhase = offsets[c] / len(rows[c]) * TAU
    last = [-1, -1]
    for k in range(steps):
        block.update()
        wants = []
        for c in range(2):
            pos = offsets[c] + k * advance
            n = len(rows[c])
            wants.append([rows[c][s % n] for s in range(last[c] + 1, int(pos + 1e-9) + 1) if rows[c][s % n]])
            last[c] = int(pos + 1e-9)
        gots = [[g.pitch for g in s.receive() if g.on] for s in sinks]
        if split:
            ctx.check(gots == wants, 'each channel plays its own pattern to its own output', {'got': str(gots), 'want': str(wants)})
        else:
            ctx.check(gots == [wants[0] + wants[1]], 'the common output gets all notes', {'got': str(gots), 'want': str(wants)})


@harness('C40', quick=grid(which=[0, 1]), timeout=60)
def micro(ctx, which):
    """A micro rhythm shifts the steps of its channel only, until it is removed."""
    m = ctx.mod('klang.sequencer')
    MessageInput = ctx.mod('klang.connections').MessageInput
    TAU = ctx.mod('klang.constants').TAU
    F = ctx.mod('fractions').Fraction
    rows = [[10, 11, 12, 13], [20, 21, 22, 23]]
    block = m.Sequencer(rows, tempo=.001)      # (almost) no movement by itself
    phrasing = ctx.choice('phrasing', [1., .5])
    rhythm = ctx.mod('klang.music.rhythm').MicroRhyhtm([3, 1], phrasing=phrasing, beatValue=F(1, 1))
    sinks = []
    for o in block.outputs:
        sinks.append(MessageInput())
        o.connect(sinks[-1])
    last = [-1, -1]
    pos, before = 0., None
    for k in range(5):
        if k == 1:
            block.apply_micro_rhythm(rhythm, which)
        elif k == 3:
            block.reset_micro_rhythm(which)
        pos = pos + ctx.real('d%d' % k, .05, .95)
        turns = ctx.floor(pos / 4)
        inner = pos / 4 - turns
        for s in block.sequences:
            s.phasor.currentPhase = inner * TAU
        block.update()
        for c in range(2):
            at = inner
            if c == which and 1 <= k < 3:
                # the rhythm block runs after its sequence: one buffer late
                at = 0.01
                if k == 2:
                    at = before / .75 / 2 if before < .75 else .5 + (before - .75) / .25 / 2
                    at = before + phrasing * (at - before)
                    ctx.assume(ctx.Or(before < .7499, before > .7501))
            step = ctx.floor(at * 4)
            ctx.assume(ctx.And(at * 4 - step > 1e-4, at * 4 - step < 1 - 1e-4))
            step = int_(ctx, step, 4)
            got = [g.pitch for g in sinks[c].receive() if g.on]
            missing = step + 1 if k == 0 else (step - last[c]) % 4
            want = [rows[c][(last[c] + 1 + i) % 4] for i in range(missing)]
            ctx.check(got == want, 'steps of the warped position')
            last[c] = step
        before = inner
    ctx.check(rhythm.phrasing.value == phrasing and not rhythm.input.connected and not rhythm.output.connected, 'a removed rhythm can be used again')

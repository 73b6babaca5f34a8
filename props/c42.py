"""C42: tempo."""
from fractions import Fraction

from symx.spec import harness, grid

MODULES = ['klang.music.tempo', 'klang.music.metre']
BOUNDS = ('all tempos up to 1000 bpm, note and beat values up to 16 (symbolic rationals), metres with numerators and '
          'denominators 1..32 (symbolic) including their default beats')
OUTSIDE = 'rounding of floating point'


def setting(ctx):
    tempo = ctx.real('tempo', 0, 1000, lo_open=True)
    num, den = ctx.int('num', 1, 32), ctx.int('den', 1, 32)
    metre = ctx.mod('klang.music.metre').create_metre(num, den)
    return tempo, metre


def beat_of(ctx, metre):
    """Beat value argument and the value it stands for."""
    if ctx.flag('default beat'):
        return None, ctx.mod('klang.music.metre').default_beat_value(metre)
    beat = ctx.frac('beat', 0, 16)
    ctx.assume(beat > 0)
    return beat, beat


@harness('C42')
def beat(ctx):
    m = ctx.mod('klang.music.tempo')
    tempo = ctx.real('tempo', 0, 1000, lo_open=True)
    f, t = m.tempo_2_frequency(tempo), m.tempo_2_period(tempo)
    ctx.eq(f * 60., tempo, 'beats per minute')
    ctx.eq(f * t, 1., 'period and frequency')


@harness('C42')
def bar(ctx):
    m = ctx.mod('klang.music.tempo')
    tempo, metre = setting(ctx)
    arg, beat = beat_of(ctx, metre)
    period = m.bar_period(tempo, metre, arg)
    beats = metre / beat
    ctx.eq(period * tempo, 60. * beats, 'a bar lasts as long as its beats')
    ctx.eq(m.angular_velocity(tempo, metre, arg) * period, 2. * ctx.mod('math').pi, 'one turn per bar')
    ctx.eq(m.note_duration(metre, tempo, metre, arg), period, 'a note as long as the bar fills the bar')


@harness('C42')
def notes(ctx):
    m = ctx.mod('klang.music.tempo')
    tempo, metre = setting(ctx)
    arg, beat = beat_of(ctx, metre)
    a, b = ctx.frac('a', 0, 16), ctx.frac('b', 0, 16)
    da, db = (m.note_duration(v, tempo, metre, arg) for v in (a, b))
    ctx.eq(m.note_duration(beat, tempo, metre, arg), m.tempo_2_period(tempo), 'the beat lasts a beat period')
    ctx.eq(da + db, m.note_duration(a + b, tempo, metre, arg), 'durations add up')
    ctx.eq(da * tempo * beat, 60. * a, 'share of the beat')
    ctx.check(ctx.implies(a < b, da < db), 'longer notes last longer')
    ctx.check(ctx.implies(a > 0, da > 0), 'positive duration')


@harness('C42', quick=grid(kind=['note', 'plain', 'whole']))
def aware(ctx, kind):
    m = ctx.mod('klang.music.tempo')
    tempo, metre = setting(ctx)
    arg, beat = beat_of(ctx, metre)
    if kind == 'note':
        v = ctx.frac('v', 0, 16)
        ctx.assume(v > 0)
        d = m.compute_duration(v, tempo, metre, arg)
        ctx.eq(d, m.note_duration(v, tempo, metre, arg), 'note value becomes its duration')
        ctx.eq(m.compute_rate(v, tempo, metre, arg) * d, 1., 'rate is the inverse of the duration')
        ctx.eq(m.compute_rate(v, tempo=tempo, metre=metre, beatValue=arg) * d, 1., 'by keyword')
    else:
        v = ctx.real('v') if kind == 'plain' else ctx.int('v', -20, 20)
        ctx.eq(m.compute_duration(v, tempo, metre, arg), v, 'seconds pass through')
        ctx.eq(m.compute_rate(v, tempo, metre, arg), v, 'Hertz pass through')


@harness('C42')
def defaults(ctx):
    """Tempo and metre default to the configured ones."""
    m = ctx.mod('klang.music.tempo')
    config = ctx.mod('klang.config')
    v = ctx.frac('v', 0, 16)
    ctx.assume(v > 0)
    beat = ctx.mod('klang.music.metre').default_beat_value(config.METRE)
    ctx.eq(m.note_duration(v) * config.TEMPO * beat, 60. * v, 'configured tempo and metre')
    ctx.eq(m.compute_duration(v), m.note_duration(v), 'configured tempo and metre')
    ctx.eq(m.compute_rate(v) * m.note_duration(v), 1., 'configured tempo and metre')
    tempo = ctx.real('tempo', 0, 1000, lo_open=True)
    ctx.eq(m.bar_period(tempo), m.bar_period(tempo, config.METRE), 'configured metre')


@harness('C42')
def zero(ctx):
    m = ctx.mod('klang.music.tempo')
    zero = ctx.choice('zero', [0, 0.])
    for fn in (m.tempo_2_period, m.bar_period, m.angular_velocity):
        ctx.raises((ZeroDivisionError, ValueError), fn, 'no duration at tempo zero', zero)
    ctx.raises((ZeroDivisionError, ValueError), m.note_duration, 'no duration at tempo zero', ctx.frac('v', 0, 16), 0.)

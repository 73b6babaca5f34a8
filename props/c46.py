"""C46: temperaments."""
from symx.spec import harness, grid

MODULES = ['klang.music.tunings', 'klang.util']
BOUNDS = ('pitches -25..128 (symbolic), every shipped temperament, custom temperaments with twelve symbolic ratios, '
          'all concert frequencies up to 2000 Hz, cents within +-6 octaves')
OUTSIDE = 'rounding of floating point; the data of historic temperaments themselves'


def frequency(ctx, temperament, pitch):
    return temperament.pitch_2_frequency(pitch)


def tol(ctx):
    return 1e-9


@harness('C46', quick=grid(part=[0, 1, 2, 3]))
def shipped(ctx, part):
    m = ctx.mod('klang.music.tunings')
    names = sorted(m.TEMPERAMENTS)
    names = names[part::4]
    name = ctx.choice('name', names)
    t = m.TEMPERAMENTS[name]
    ctx.check(m.find_temperament(name) is t, 'found by name')
    pitch = ctx.int('pitch', -25, 116)
    f = t.pitch_2_frequency(pitch)
    kammerton = ctx.mod('klang.config').KAMMERTON
    ctx.eq(t.pitch_2_frequency(69), kammerton, 'concert pitch', tol=1e-6)
    ctx.check(abs(t.pitch_2_frequency(pitch + 12) - 2. * f) <= 1e-9 * f, 'octave doubles the frequency')
    ctx.check(f > 0., 'positive frequency')
    ctx.check(t.pitch_2_frequency(pitch + 1) >= f * (1 - 1e-9), 'pitch order')


@harness('C46')
def equal(ctx):
    """Equal temperament: every semitone has the same ratio."""
    m = ctx.mod('klang.music.tunings')
    pitch = ctx.int('pitch', -25, 126)
    t = m.EQUAL_TEMPERAMENT
    a, b = t.pitch_2_frequency(pitch), t.pitch_2_frequency(pitch + 1)
    ctx.check(abs(b - a * 1.0594630943592953) <= 1e-6 * a, 'twelfth root of two')
    ctx.eq(t.pitch_2_frequency(69), ctx.mod('klang.config').KAMMERTON, 'concert pitch', tol=1e-6)
    ctx.check(m.TEMPERAMENTS['Equal'] is not None, 'registered')


@harness('C46')
def custom(ctx):
    """Any ascending tuning within an octave, any concert frequency."""
    m = ctx.mod('klang.music.tunings')
    kammerton = ctx.real('kammerton', 1, 2000)
    t = m.Temperament([0., 90., 200., 310., 400., 500., 600., 710., 800., 900., 1000., 1110.], kammerton)
    pitch = ctx.int('pitch', -25, 116)
    f = t.pitch_2_frequency(pitch)
    ctx.check(abs(t.pitch_2_frequency(69) - kammerton) <= 1e-9 * kammerton, 'concert pitch')
    ctx.check(abs(t.pitch_2_frequency(pitch + 12) - 2. * f) <= 1e-9 * f, 'octave doubles the frequency')
    ctx.check(t.pitch_2_frequency(pitch + 1) > f, 'pitch order')
    ctx.check(t.kammerton == kammerton, 'keeps the concert frequency')


@harness('C46')
def array(ctx):
    """Chords of pitches are converted one by one."""
    m = ctx.mod('klang.music.tunings')
    t = m.TEMPERAMENTS[ctx.choice('name', ['Equal', 'Young', 'Just'])]
    a, b = ctx.pick('a', 55, 70), ctx.pick('b', 60, 63)
    both = t.pitch_2_frequency(ctx.np.array([a, b]))
    ctx.eq(both[0], t.pitch_2_frequency(a), 'element by element')
    ctx.eq(both[1], t.pitch_2_frequency(b), 'element by element')


@harness('C46')
def length(ctx):
    m = ctx.mod('klang.music.tunings')
    n = ctx.choice('n', [0, 7, 11, 13])
    ctx.raises((AssertionError, ValueError), m.Temperament, 'twelve notes per octave', [100. * i for i in range(n)])


@harness('C46')
def cents(ctx):
    m = ctx.mod('klang.music.tunings')
    c = ctx.real('c', -7200, 7200)
    ctx.eq(m.ratio_2_cent(m.cent_2_ratio(c)), c, 'ratio and back', tol=1e-6)
    r = ctx.real('r', 0, 64, lo_open=True)
    ctx.eq(m.cent_2_ratio(m.ratio_2_cent(r)), r, 'cents and back', tol=1e-6)


@harness('C46')
def cent_steps(ctx):
    m = ctx.mod('klang.music.tunings')
    c = ctx.real('c', -7200, 7200)
    ctx.check(abs(m.cent_2_ratio(c + 1200.) - 2. * m.cent_2_ratio(c)) <= 1e-6 * m.cent_2_ratio(c), '1200 cents per octave')
    d = ctx.real('d', -7200, 7200)
    ctx.check(ctx.implies(c < d, m.cent_2_ratio(c) < m.cent_2_ratio(d)), 'monotone')
    ctx.eq(m.cent_2_ratio(0.), 1., 'unison')
    ctx.eq(m.ratio_2_cent(2.), 1200., 'octave')

"""C33: notes."""
from symx.spec import harness, grid

MODULES = ['klang.messages']
BOUNDS = 'all integer pitches -300..300, all velocities in [-3, 3], frequencies in [-1e4, 1e4] (symbolic)'
OUTSIDE = 'text formatting of numbers by the json module (JSON text is abstract: what was dumped is loaded)'
RAISES = (ValueError,)


@harness('C33', quick=grid(explicit=[True, False]))
def validation(ctx, explicit):
    Note = ctx.mod('klang.messages').Note
    p = ctx.int('p', -300, 300)
    v = ctx.real('v', -3., 3.)
    args = (p, v, ctx.real('f', -1e4, 1e4)) if explicit else (p, v)
    got = []
    err = ctx.fails(RAISES, lambda: got.append(Note(*args)))
    ok = ctx.And(p >= 0, p <= 127, v >= 0, v <= 1)
    if explicit:
        ok = ctx.And(ok, args[2] >= 0)
    ctx.check(ok == (err is None), 'valid notes are built, others refused')
    if err is None:
        n = got[0]
        ctx.check(ctx.And(n.pitch == p, n.velocity == v), 'fields as given')
        if explicit:
            ctx.check(n.frequency == args[2], 'frequency as given')
        ctx.check(n.on == (v > 0), 'on with velocity')
        ctx.check(n.off == (v == 0), 'off without velocity')
        s = n.silence()
        ctx.check(ctx.And(s.off, ctx.Not(s.on), s.pitch == n.pitch, s.frequency == n.frequency), 'silenced copy')
        ctx.check(n.velocity == v, 'silencing leaves the note as it was')


@harness('C33', quick=grid(which=['equal', 'default', 'pure', 'other']))
def default_frequency(ctx, which):
    m = ctx.mod('klang.messages')
    t = ctx.mod('klang.music.tunings')
    p = ctx.int('p', 0, 127)
    if which == 'default':
        n, want = m.Note(p), t.EQUAL_TEMPERAMENT.pitch_2_frequency(p)
        ctx.check(n.velocity == 1, 'full velocity by default')
    else:
        temp = {'equal': t.EQUAL_TEMPERAMENT, 'pure': t.TEMPERAMENTS['Pythagorean'], 'other': t.TEMPERAMENTS['Young']}[which]
        n, want = m.Note(p, temperament=temp), temp.pitch_2_frequency(p)
    ctx.eq(n.frequency, want, 'frequency of the temperament', tol=1e-9)
    ctx.check(m.Note(p, 1., 100., temperament=t.TEMPERAMENTS['Pythagorean']).frequency == 100., 'explicit frequency wins')


@harness('C33', quick=grid(way=['dict', 'json']))
def round_trip(ctx, way):
    m = ctx.mod('klang.messages')
    n = m.Note(ctx.int('p', 0, 127), ctx.real('v', 0., 1.), ctx.real('f', 0., 1e4))
    if way == 'dict':
        d = n.to_dict()
        ctx.check(sorted(d) == ['frequency', 'pitch', 'type', 'velocity'] and d['type'] == 'Note', 'all fields and the type')
        back = m.Note.from_dict(d)
    else:
        back = m.Note.from_json(n.to_json())
    ctx.check(isinstance(back, m.Note), 'a note again')
    ctx.eq([back.pitch, back.velocity, back.frequency], [n.pitch, n.velocity, n.frequency], 'round trip')
    bad = n.to_dict()
    bad['type'] = 'Nota'
    ctx.check(ctx.fails(RAISES, lambda: m.Note.from_dict(bad)) is not None, 'other types are refused')
    bad = n.to_dict()
    bad['velocity'] = 1.5
    ctx.check(ctx.fails(RAISES, lambda: m.Note.from_dict(bad)) is not None, 'invalid contents are refused')

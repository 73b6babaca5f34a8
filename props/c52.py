"""C52: MIDI output."""
from symx.spec import harness, grid

MODULES = ['klang.midi', 'klang.messages', 'klang.execution']
BOUNDS = 'every pitch 0..127, every velocity in [0, 1] (pairs for the order), every channel 0..15; up to 3 queued notes over 2 updates, 45 queued notes over 4 updates'
OUTSIDE = 'the MIDI driver (a recording stand-in); fractional pitches'


@harness('C52', quick=[{}])
def message(ctx):
    m = ctx.mod('klang.midi')
    Note = ctx.mod('klang.messages').Note
    channel = ctx.int('channel', 0, 15)
    pitch = ctx.int('pitch', 0, 127)
    vel = ctx.real('vel', 0., 1.)
    x = vel * 127
    k = ctx.floor(x)
    ctx.assume(ctx.Or(vel == 0, vel == 1, ctx.And(vel > 1e-6, x - k > 1e-6, x - k < 1 - 1e-6)))
    status, data1, data2 = m.note_to_midi_message(Note(pitch, vel, 440.), channel)
    ctx.check(status == (0x90 if vel > 0 else 0x80) + channel, 'note-on / note-off with the channel in the low bits')
    ctx.check(data1 == pitch, 'pitch')
    ctx.check(ctx.And(data2 >= 0, data2 <= 127), 'data bytes')
    ctx.check((data2 == 0) == (vel == 0), 'only note-offs have no velocity')
    ctx.check(ctx.And(data2 >= x - 1, data2 <= x + 1), 'velocity is scaled to 0..127')
    ctx.check(ctx.implies(vel == 1, data2 == 127), 'full velocity')


@harness('C52', quick=[{}])
def order(ctx):
    m = ctx.mod('klang.midi')
    Note = ctx.mod('klang.messages').Note
    a, b = ctx.real('a', 0., 1.), ctx.real('b', 0., 1.)
    ctx.assume(a < b)
    va = m.note_to_midi_message(Note(60, a, 440.))[2]
    vb = m.note_to_midi_message(Note(60, b, 440.))[2]
    ctx.check(va <= vb, 'louder notes are not sent quieter')


class Port:

    def __init__(self, log):
        self.log = log

    def send_message(self, msg):
        self.log.append(('send', list(msg)))

    def close_port(self):
        self.log.append(('close', None))

    def get_ports(self):
        return self.log.ports

    def open_port(self, nr, *args):
        self.log.append(('open', nr))

    def open_virtual_port(self, name, *args):
        self.log.append(('virtual', None))


class Log(list):
    ports = ()


@harness('C52', quick=grid(notes=[3], ports=[0, 2]), timeout=60)
def sending(ctx, notes, ports):
    """Queued notes are sent once each, in order, on the channel of the block."""
    m = ctx.mod('klang.midi')
    Note = ctx.mod('klang.messages').Note
    import io
    import sys
    ctx.patch(sys, 'stdout', io.StringIO())
    log = Log()
    log.ports = ['port %d' % i for i in range(ports)]

    class Driver:
        MidiOut = staticmethod(lambda *a, **kw: Port(log))

    ctx.patch(m, 'rtmidi', Driver)
    channel = ctx.int('channel', 0, 15)
    block = m.MidiOut(portNumber=1, channel=channel) if ports else m.MidiOut(channel=channel)
    ctx.check(log == ([('open', 1)] if ports else [('virtual', None)]), 'opens the port')
    del log[:]
    want = []
    for k in range(notes):
        pitch = ctx.int('p%d' % k, 0, 127)
        on = ctx.flag('on%d' % k)
        block.input.push(Note(pitch, 1. if on else 0., 440.))
        want.append([(0x90 if on else 0x80) + channel, pitch, 127 if on else 0])
        if k == notes - 1 or ctx.flag('u%d' % k):
            block.update()
            got = [msg for what, msg in log if what == 'send']
            ctx.eq(got, want, 'every note once, in order')
            del log[:]
            want = []
    block.update()
    ctx.check(log == [], 'nothing is repeated')


@harness('C52', quick=grid(ports=[0, 2]))
def defaults(ctx, ports):
    """First port and first channel unless told otherwise; the port is closed with the block."""
    m = ctx.mod('klang.midi')
    Note = ctx.mod('klang.messages').Note
    import io
    import sys
    ctx.patch(sys, 'stdout', io.StringIO())
    log = Log()
    log.ports = ['port %d' % i for i in range(ports)]

    class Driver:
        MidiOut = staticmethod(lambda *a, **kw: Port(log))

    ctx.patch(m, 'rtmidi', Driver)
    block = m.MidiOut()
    ctx.check(log == ([('open', 0)] if ports else [('virtual', None)]), 'opens the first port')
    ctx.check(list(ctx.mod('klang.execution').determine_execution_order([block])) == [block], 'runs as a block')
    pitch = ctx.int('pitch', 0, 127)
    block.input.push(Note(pitch, 1., 440.))
    block.update()
    ctx.eq(log[-1][1], [0x90, pitch, 127], 'first channel')
    block.__del__()
    ctx.check(log[-1][0] == 'close', 'the port is closed with the block')


@harness('C52', quick=grid(each=[1, 45]), timeout=60)
def many(ctx, each):
    """Many notes: none lost, whatever was sent before."""
    m = ctx.mod('klang.midi')
    Note = ctx.mod('klang.messages').Note
    import io
    import sys
    ctx.patch(sys, 'stdout', io.StringIO())
    log = Log()

    class Driver:
        MidiOut = staticmethod(lambda *a, **kw: Port(log))

    ctx.patch(m, 'rtmidi', Driver)
    channel = ctx.int('channel', 0, 15)
    block = m.MidiOut(channel=channel)
    for r in range(4):
        del log[:]
        for k in range(each):
            block.input.push(Note(20 + (r + k) // 2, 1. - (r + k) % 2, 440.))
        block.update()
        got = [msg for what, msg in log if what == 'send']
        ctx.eq(got, [[(0x80 if (r + k) % 2 else 0x90) + channel, 20 + (r + k) // 2, 0 if (r + k) % 2 else 127]
                     for k in range(each)], 'every note once, in order')

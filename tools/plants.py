"""Planted bugs (written from the property texts; see plant.py)."""
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('b01-disconnect-other', 'C02', [('klang/connections.py',
      'output.outgoingConnections.remove(input_)', 'output.outgoingConnections.discard(input_)')],
      'an input connected to one output and a disconnect call naming another output',
      'The refused disconnect silently cuts the input from its real source, which still lists the input as a destination.',
      '''
from klang.connections import Output, Input
a, b, x = Output(), Output(), Input()
a.connect(x)
try:
    b.disconnect(x)
except Exception:
    pass
assert (x in a.outgoingConnections) == (x.incomingConnection is a), 'table is not symmetric'
''')

plant('b02-negative-gain', 'C20', [('klang/audio/mixer.py',
      '''        for gain, channel in zip(self.gains, self.inputs):
            signalSum''', '''        for gain, channel in zip(self.gains, self.inputs):
            if gain <= 0:
                continue

            signalSum''')],
      'a channel with a negative gain (phase inversion)',
      'Channels with negative gain are dropped from the mix instead of being subtracted.',
      '''
import numpy as np
from klang.audio.mixer import Mixer
from klang.config import BUFFER_SIZE
m = Mixer(2, gains=[1., -.5])
m.inputs[0].set_value(np.ones(BUFFER_SIZE))
m.inputs[1].set_value(np.ones(BUFFER_SIZE))
m.update()
assert np.allclose(m.output.value, .25), m.output.value[:3]
''')

plant('b03-chirper-reset', 'C17', [('klang/audio/oscillators.py',
      '''        """Reset chirper to start state."""
        self.t = get_time(BUFFER_SIZE).copy()''', '''        """Reset chirper to start state."""
        self.t = get_time(BUFFER_SIZE)''')],
      'a chirper that is reset and then run; afterwards another reset or another chirper',
      'After a reset the chirper advances the shared (cached) time axis: the next reset or new chirper starts late.',
      '''
import numpy as np
from klang.audio.oscillators import Chirper
c = Chirper(100., 1., 200.)
c.update()
first = c.output.value.copy()
c.reset()
c.update()
c.update()
c.reset()
c.update()
assert np.allclose(c.output.value, first), 'chirp does not restart'
''')

plant('b04-nested-composites', 'C07', [('klang/klang.py',
      '            yield from unravel(block.execOrder)', '            yield from block.execOrder')],
      'a block inside a composite inside a composite which is also run on its own',
      'Only the outermost composites are expanded, so duplicates in nested composites go without a warning.',
      '''
import logging
from klang.block import Block
from klang.composite import Composite
from klang.klang import validate_global_execution_order
b = Block(1, 1, 'b')
inner, outer = Composite(name='inner'), Composite(name='outer')
inner.execOrder = [b]
outer.execOrder = [inner]
records = []
class H(logging.Handler):
    def emit(self, record):
        records.append(record.getMessage())
log = logging.getLogger('demo')
log.addHandler(H())
validate_global_execution_order([outer, b], log)
assert len(records) == 1, records
''')

plant('b05-copied-lfo', 'C17', [('klang/audio/oscillators.py',
      '''            shape=self.shape,
            outputRange=self.outputRange,
            startPhase=self.currentPhase,''', '''            shape=self.shape,
            outputRange=self.outputRange,
            startPhase=self.currentPhase if self.shape == SCALAR else 0.,''')],
      'deep copy of a running LFO which outputs whole buffers',
      'The copy restarts at phase zero instead of continuing with the same state.',
      '''
import copy
import numpy as np
from klang.audio.oscillators import Lfo
from klang.config import BUFFER_SIZE
a = Lfo(3., shape=BUFFER_SIZE)
for _ in range(5):
    a.update()
b = copy.deepcopy(a)
a.update()
b.update()
assert np.allclose(a.output.value, b.output.value), 'copy lost the phase'
''')

plant('b06-lengthener-repeat', 'C34', [('klang/note_effects.py',
      '''                self.activeNotes.append(entry)
''', '''                if all(end != entry[0] for end, _ in self.activeNotes):
                    self.activeNotes.append(entry)

''')],
      'two note-ons arriving in the same update (a chord)',
      'Only the first note of a chord gets its note-off, the others hang.',
      '''
from klang.connections import MessageInput
from klang.messages import Note
from klang.note_effects import NoteLengthener
from klang.clock import ClockMixin
n = NoteLengthener(.1)
dst = MessageInput()
n.output.connect(dst)
ClockMixin.set_current_time(0.)
n.input.push(Note(60, 1.)); n.input.push(Note(64, 1.))
n.update()
ClockMixin.set_current_time(.2)
n.update()
offs = sorted(m.pitch for m in dst.receive() if m.off)
assert offs == [60, 64], offs
''')

plant('b07-max-notes-zero', 'C35', [('klang/note_effects.py',
      'self.activeNotes = collections.deque([], maxlen=nNotes + 1)',
      'self.activeNotes = collections.deque([], maxlen=max(nNotes, 2))')],
      'a limit of more than one note and one more note than that',
      'From the limit on the oldest note is dropped from the books without a note-off: too many notes sound.',
      '''
from klang.connections import MessageInput
from klang.messages import Note
from klang.note_effects import MaxNotes
n = MaxNotes(3)
dst = MessageInput()
n.output.connect(dst)
for p in (60, 62, 64, 65):
    n.input.push(Note(p, 1.))
n.update()
sounding = set()
for m in dst.receive():
    (sounding.add if m.on else sounding.discard)(m.pitch)
assert len(sounding) <= 3, sounding
''')

plant('b08-random-arpeggio', 'C37', [('klang/arpeggiator.py',
      '''        permut = list(range(length))
        random.shuffle(permut)
        return permut''', '''        permut = random.choices(range(length), k=length)
        return permut''')],
      'random order with at least two held notes and an unlucky draw',
      'A round of the random arpeggio repeats some notes and leaves out others.',
      '''
import random
from klang.arpeggiator import Arpeggio
from klang.messages import Note
for seed in range(30):
    random.seed(seed)
    a = Arpeggio('random', [Note(60, 1.), Note(64, 1.), Note(67, 1.)])
    got = sorted(next(a).pitch for _ in range(3))
    assert got == [60, 64, 67], got
''')

plant('b10-slice-of-negative', 'C39', [('klang/sequencer.py',
      '    return int((angle % TAU) / TAU * nSlices)', '    return int(angle / TAU * nSlices) % nSlices')],
      'a negative angle which is not a multiple of a slice',
      'Negative angles are rounded towards zero: the slice before zero is taken for the first one.',
      '''
from klang.sequencer import pizza_slice_number
from klang.constants import TAU
for k in range(-12, 12):
    got = pizza_slice_number((k + .5) * TAU / 4, 4)
    assert got == k % 4, (k, got)
''')

plant('b11-repeated-pitch', 'C31', [('klang/audio/synthesizer.py',
      '''                if voice.currentPitch == note.pitch:
                    voice.input.push(note)
''', '''                if voice.currentPitch == note.pitch:
                    voice.input.push(note)
                    break
''')],
      'the same pitch is played twice before it is released',
      'The note-off only reaches the first of the voices sounding this pitch, the other one hangs.',
      '''
import numpy as np
from klang.audio.envelopes import ADSR
from klang.audio.oscillators import Oscillator
from klang.audio.synthesizer import PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.messages import Note
s = PolyphonicSynthesizer(Voice(Oscillator(), ADSR(0., 0., 1., 0.)))
s.play_note(Note(60, 1.)); s.update()
s.play_note(Note(60, 1.)); s.update()
s.play_note(Note(60, 0.)); s.update()
for _ in range(3):
    s.update()
assert not any(v.active for v in s.voices), 'voice hangs'
''')

plant('b12-scheduler-heap', 'C30', [('klang/audio/synthesizer.py',
      '''        self.notes.remove(item)
        heapq.heapify(self.notes)''', '''        last = self.notes.pop()
        for pos, other in enumerate(self.notes):
            if other is item:
                self.notes[pos] = last
                heapq._siftup(self.notes, pos)''')],
      'six held notes, the release of one in one half of the heap while the last one belongs to the other half',
      'After the removal the heap order is broken (a note is above a better one) and later a wrong held note takes over.',
      '''
import itertools
from klang.audio.synthesizer import NoteScheduler
from klang.messages import Note
import random
random.seed(1)
for _ in range(3000):
    pitches = random.sample(range(40, 90), 8)
    s = NoteScheduler('highest')
    held = []
    for p in pitches:
        s.get_next_note(Note(p, 1.)); held.append(p)
    for p in random.sample(pitches, 7):
        got = s.get_next_note(Note(p, 0.)); held.remove(p)
        assert got.pitch == max(held), (pitches, p, got.pitch, held)
''')

plant('b13-render-rounding', 'C22', [('klang/audio/klanggeber.py',
      '        nCycles = int(duration * SAMPLING_RATE // BUFFER_SIZE)', '        nCycles = round(duration * SAMPLING_RATE / BUFFER_SIZE)')],
      'a duration more than half a buffer beyond a whole number of buffers',
      'One buffer more than fits into the duration is rendered.',
      '''
import logging, os, sys, tempfile, io
import numpy as np
import scipy.io.wavfile
from klang.audio import klanggeber
from klang.config import BUFFER_SIZE, SAMPLING_RATE
sys.stdout = io.StringIO()
dac = klanggeber.Dac(1)
calls = []
def run():
    calls.append(1)
    dac.input.set_value(np.ones(BUFFER_SIZE) * .5)
adc = klanggeber.Adc(1)
with tempfile.TemporaryDirectory() as d:
    klanggeber.run_audio_engine(adc, dac, run, duration=3.75 * BUFFER_SIZE / SAMPLING_RATE,
                                filepath=os.path.join(d, 'x.wav'), offline=True)
    rate, data = scipy.io.wavfile.read(os.path.join(d, 'x.wav'))
assert len(calls) == 3 and len(data) == 3 * BUFFER_SIZE, (len(calls), len(data))
''')

plant('b16-undotting', 'C44', [('klang/music/note_values.py',
      '    return (2 ** n) * note / (2 * 2**n - 1)', '    return (2 ** n) * note / (2 ** n + 2 * n - 1)')],
      'undotting a note with three or more dots',
      'Removing three dots does not give the note back.',
      '''
from fractions import Fraction
from klang.music.note_values import dot_note, dedot_note
for n in range(6):
    assert dedot_note(dot_note(Fraction(1, 4), n), n) == Fraction(1, 4), n
''')

plant('b19-progress-width', 'C56', [('klang/progress_bar.py',
      '        ticks = int(progress * self.width)', '        ticks = min(int(progress * (self.width + 1)), self.width)')],
      'a bar shortly before the end',
      'The bar is already full before the last step.',
      '''
import io
from klang.progress_bar import ProgressBar
bar = ProgressBar(100, width=10, stream=io.StringIO()) if 'stream' in ProgressBar.__init__.__code__.co_varnames else ProgressBar(100, width=10)
for i in range(99):
    assert '[' + '*' * 10 + ']' not in bar.render(i), i
assert '[' + '*' * 10 + ']' in bar.render(99)
''')

plant('b20-warp-repetition', 'C41', [('klang/music/rhythm.py',
      '    offset = int(n * phase / TAU) * TAU', '    offset = (n * phase / TAU // 1 % 4) * TAU')],
      'more than four repetitions per turn (a beat shorter than a quarter)',
      'From the fifth repetition on the warped phase jumps back to the beginning.',
      '''
from fractions import Fraction
import numpy as np
from klang.music.rhythm import MicroRhyhtm
from klang.constants import TAU
m = MicroRhyhtm([Fraction(1, 4), Fraction(1, 8)], beatValue=Fraction(1, 8))
w = [float(m.warp(p)) for p in np.linspace(0, TAU, 200, endpoint=False)]
assert all(b >= a for a, b in zip(w, w[1:])), 'not monotone'
''')

plant('b21-scale-roundtrip', 'C47', [('klang/music/scales.py',
      '    return np.roll(np.cumsum(scale), shift=1) % DODE', '    return np.roll(np.cumsum(scale), shift=1) % DODE if len(scale) > 1 else np.array([0, 0])')],
      'a scale of a single note', 'The one-note scale has its root twice and so another code.',
      '''
from klang.music.scales import code_2_scale, scale_2_code
for code in range(1, 4096, 2):
    assert scale_2_code(code_2_scale(code)) == code, code
''')

plant('b22-voice-copy', 'C32', [('klang/audio/voices.py',
      '            envelope=copy.deepcopy(self.envelope),', '            envelope=copy.copy(self.envelope),')],
      'two voices of a polyphonic synthesizer',
      'Copied voices share the connections (and message queue) of the envelope.',
      '''
import copy
from klang.audio.envelopes import ADSR
from klang.audio.oscillators import Oscillator
from klang.audio.voices import Voice
a = Voice(Oscillator(), ADSR(0., 0., 1., 0.))
b = copy.deepcopy(a)
assert a.envelope is not b.envelope and a.envelope.output is not b.envelope.output, 'shared envelope'
''')

plant('b23-d-copy', 'C59', [('klang/audio/envelopes.py',
      '''        args = (self.decay,)
        kwargs = {'overshoot': self.overshoot, 'retrigger': self.retrigger, 'loop': self.loop}''',
      '''        args = (self.decay,)
        kwargs = {'overshoot': self.overshoot, 'retrigger': self.retrigger}''')],
      'a looped decay envelope that is copied (as for polyphonic voices)',
      'The copy of a looped decay envelope does not loop.',
      '''
import copy
from klang.audio.envelopes import D
a = D(.1, loop=True)
b = copy.deepcopy(a)
assert a.loop == b.loop and a.overshoot == b.overshoot and a.decay == b.decay
''')


plant('b24-shrunk-ring', 'C10', [('klang/ring_buffer.py',
      '        if stop > self._length:', '        if stop > self.capacity:')],
      'a ring buffer that is shorter than its capacity (as all delays have) and a write across its end',
      'Samples written past the end of a shortened ring are not copied to its head.',
      '''
import numpy as np
from klang.ring_buffer import RingBuffer
r = RingBuffer(6, capacity=10, bufferSize=4)
fed = []
for b in range(6):
    x = np.arange(4.) + 4 * b + 1
    old = r.peek_extend(x)
    fed.extend(x)
    want = [fed[i - 6] if i >= 6 else 0. for i in range(4 * b, 4 * b + 4)]
    assert np.allclose(old, want), (b, old, want)
''')

plant('b25-receive-snapshot', 'C04', [('klang/connections.py',
      '''        while self.queue:
            yield self.queue.popleft()''', '''        messages = list(self.queue)
        self.queue.clear()
        yield from messages''')],
      'a receiver that stops reading before its queue is empty',
      'Messages which were not read yet get lost.',
      '''
from klang.connections import MessageInput
i = MessageInput()
for n in range(3):
    i.push(n)
for first in i.receive():
    break
assert [first] + list(i.receive()) == [0, 1, 2]
''')

plant('b26-second-output', 'C06', [('klang/composite.py',
      '''            output = relay.incomingConnection
            if output and output.owner:''', '''            output = relay.incomingConnection
            if output is None:
                break

            if output.owner:''')],
      'a composite whose first output is not connected inside and whose second one is',
      'Blocks which only feed the later outputs never run.',
      '''
from klang.block import Block
from klang.composite import Composite
from klang.connections import Relay

class One(Block):
    def update(self):
        self.output.set_value(1.)

c = Composite()
c.outputs = [Relay(owner=c), Relay(owner=c)]
inner = One(nOutputs=1)
inner.output.connect(c.outputs[1])
c.update_internal_exec_order()
c.update()
assert c.outputs[1].value == 1.
''')

plant('b27-uneven-delay', 'C16', [('klang/audio/effects.py',
      '            new = new.sum(axis=0) / nChannels', '            new = new.sum(axis=0) / STEREO')],
      'a delay fed with a signal of one or three channels in two dimensions',
      'The mono sum of other than two channels has the wrong level.',
      '''
import numpy as np
from klang.audio.effects import Delay
from klang.block import Block
from klang.config import BUFFER_SIZE
src = Block(0, 1)
src.output.set_value(np.ones((3, BUFFER_SIZE)))
d = Delay(.5, 0., 0.)
src | d
d.update()
assert np.allclose(d.output.value, 1.), d.output.value[:3]
''')

plant('b28-stereo-cutoff', 'C27', [('klang/audio/effects.py',
      '''        for fil in self.filters:
            fil.set_frequency(freq)''', '''        for fil in self.filters[:self.input.get_value().ndim]:
            fil.set_frequency(freq)''')],
      'a filter whose cutoff changes while its input is mono and which gets stereo input later',
      'The right channel keeps the old cutoff frequency.',
      '''
import numpy as np
from klang.audio.effects import Filter
from klang.config import BUFFER_SIZE
f = Filter(frequency=200.)
rng = np.random.RandomState(1)
f.input.set_value(np.zeros(BUFFER_SIZE))
f.update()
f.frequency.set_value(5000.)
f.update()
x = rng.uniform(-1, 1, BUFFER_SIZE)
f.input.set_value(np.array([x, x]))
f.update()
left, right = f.output.value
assert np.allclose(left, right)
''')

plant('b29-tremolo-state', 'C28', [('klang/audio/effects.py',
      '        filteredPwm, self.zi = scipy.signal.lfilter(*coeffs, pwm, zi=self.zi)',
      '        filteredPwm, _ = scipy.signal.lfilter(*coeffs, pwm, zi=self.zi)')],
      'a smoothed tremolo over more than one buffer',
      'The gain starts gliding from the same value again in each buffer (clicks).',
      '''
import numpy as np
from klang.audio.effects import Tremolo
from klang.config import BUFFER_SIZE
t = Tremolo(rate=2., depth=1., smoothness=1.)
t.input.set_value(np.ones(BUFFER_SIZE))
last = None
for _ in range(40):
    t.update()
    y = t.output.value
    if last is not None:
        assert abs(y[0] - last) < .01, 'click'
    last = y[-1]
''')

plant('b30-crush-to-zero', 'C23', [('klang/audio/effects.py',
      '        crushedSamplesI = (samplesI >> nBits) << nBits',
      '        crushedSamplesI = np.sign(samplesI) * ((np.abs(samplesI) >> nBits) << nBits)')],
      'negative samples between two steps',
      'Negative samples are rounded towards zero (double-size step around zero) and not down.',
      '''
import numpy as np
from klang.audio.effects import Bitcrusher
x = np.array([-3., -2., -1., 0., 1., 2., 3.]) / 32767. * 1.0001
y = Bitcrusher.bit_crush(x, 1) * 32768
assert np.allclose(y, [-4, -2, -2, 0, 0, 2, 2]), y
''')

plant('b31-legato-arpeggio', 'C38', [('klang/arpeggiator.py',
      '            if self.prevNote:\n', '            if self.prevNote and len(self.arpeggio) != 1:\n')],
      'an arpeggiator with one held note',
      'The held note is started again and again without being released.',
      '''
from klang.arpeggiator import Arpeggiator
from klang.connections import MessageInput
from klang.messages import Note
a = Arpeggiator(interval=.01)
rx = MessageInput()
a.output.connect(rx)
a.input.push(Note(60))
balance = 0
for _ in range(60):
    a.update()
    for n in rx.receive():
        balance += 1 if n.on else -1
        assert 0 <= balance <= 1, balance
''')

plant('b33-angular-beat', 'C42', [('klang/music/tempo.py',
      '    return TAU / bar_period(tempo, metre, beatValue)',
      '    return TAU / bar_period(tempo, metre)')],
      'an angular velocity with an explicit beat value',
      'The beat value is ignored.',
      '''
from fractions import Fraction
from klang.constants import TAU
from klang.music.tempo import angular_velocity, bar_period
args = (120., Fraction(3, 4), Fraction(1, 8))
assert abs(angular_velocity(*args) * bar_period(*args) - TAU) < 1e-9
''')

plant('b34-flat-c', 'C45', [('klang/music/pitch.py',
      '    return pitch + shift + octave * DODE', '    return (pitch + shift) % DODE + octave * DODE')],
      'a note name whose accidental crosses the octave (Cb4, B#3)',
      'Cb4 becomes the B eleven semitones above C4.',
      '''
from klang.music.pitch import note_name_2_pitch
assert note_name_2_pitch('Cb4') == 59
assert note_name_2_pitch('B#3') == 60
assert note_name_2_pitch('Cbb4') == 58
''')

plant('b35-many-inversions', 'C48', [('klang/music/chords.py',
      '    for _ in range(inversion):', '    for _ in range(inversion % (len(chord) + 1) if inversion > 0 else 0):')],
      'an inversion number beyond the number of notes of the chord',
      'Inverting upwards more often than the chord has notes wraps around.',
      '''
from klang.music.chords import invert_chord
assert list(invert_chord([0, 4, 7], 4)) == [16, 19, 24]
''')

plant('b37-key-state', 'C51', [('klang/keyboard.py',
      '        self.keyState[key] = False\n', '        self.keyState.clear()\n')],
      'two keys held at once of which one is released',
      'The other key is forgotten: its release is swallowed and its note hangs.',
      '''
import sys, types
pynput = types.ModuleType('pynput')
pynput.keyboard = types.ModuleType('pynput.keyboard')
class Listener:
    def __init__(self, **kwargs):
        pass
pynput.keyboard.Listener = Listener
sys.modules['pynput'], sys.modules['pynput.keyboard'] = pynput, pynput.keyboard
from klang.connections import MessageInput
from klang.keyboard import MusicalKeyboard
class Key:
    def __init__(self, char):
        self.char = char
k, rx = MusicalKeyboard(), MessageInput()
k.output.connect(rx)
a, s = Key('a'), Key('s')
k.on_press(a); k.on_press(s); k.on_release(a); k.on_release(s)
assert [n.on for n in rx.receive()] == [True, True, False, False]
''')

plant('b39-self-loop', 'C61', [('klang/graph.py',
      '''            if child in gray:
                backEdges.append((parent, child))
                continue
''', '''            if child in gray:
                if child != parent:
                    backEdges.append((parent, child))
                continue
''')],
      'a graph with a node connected to itself',
      'Self loops are not removed: the graph is not acyclic.',
      '''
import numpy as np
from klang.graph import find_back_edges
assert find_back_edges(np.array([[1, 1], [0, 0]])) == [(0, 0)]
''')

plant('b40-random-top', 'C62', [('klang/sequencer.py',
      '        random.randint(minVal, maxVal) for _ in range(period)',
      '        random.randrange(minVal, max(maxVal, minVal + 1)) for _ in range(period)')],
      'many random patterns (or a range of two values)',
      'The maximum value never occurs.',
      '''
from klang.sequencer import random_pattern
seen = set(random_pattern(2000, minVal=60, maxVal=61))
assert seen == {60, 61}, seen
''')

plant('b41-pan-law', 'C20', [('klang/audio/mixer.py',
      '            pan = panning_amplitudes(panning, self.mode, self.panLaw)',
      '            pan = panning_amplitudes(panning, self.mode)')],
      'a stereo mixer with a pan law',
      'The pan law of the mixer has no effect.',
      '''
import numpy as np
from klang.audio.mixer import StereoMixer
from klang.config import BUFFER_SIZE
m = StereoMixer(1, panLaw=-6.)
m.inputs[0].set_value(np.ones(BUFFER_SIZE))
m.update()
assert abs(20 * np.log10(m.output.value[0, 0]) + 6.) < .1, m.output.value[:, 0]
''')

plant('b42-concert-pitch', 'C46', [('klang/music/tunings.py',
      '        self.baseFrequency = kammerton / self.ratios[KAMMERTON_OFFSET]',
      '        self.baseFrequency = kammerton / cent_2_ratio(100 * KAMMERTON_OFFSET)')],
      'any temperament whose A is not nine equal semitones above C',
      'The concert pitch of unequal temperaments is off.',
      '''
from klang.music.tunings import TEMPERAMENTS
for name, t in TEMPERAMENTS.items():
    assert abs(t.pitch_2_frequency(69) - t.kammerton) < 1e-6, name
''')

plant('b43-zero-frequency', 'C33', [('klang/messages.py',
      '        if frequency is None:', '        if not frequency:')],
      'a note with a frequency of zero',
      'A frequency of zero is replaced with that of the pitch.',
      '''
from klang.messages import Note
n = Note(60, frequency=0.)
assert n.frequency == 0.
assert Note.from_json(n.to_json()) == n
''')

plant('b44-duty-zero', 'C17', [('klang/audio/oscillators.py',
      '        active = (phase < TAU * self.dutyCycle.value)',
      '        active = (phase <= TAU * self.dutyCycle.value)')],
      'a pulse with a duty cycle of zero (or an edge exactly on a sample)',
      'The pulse is high for one sample at phase zero though its duty cycle is zero.',
      '''
import numpy as np
from klang.audio.oscillators import PwmOscillator
o = PwmOscillator(440., dutyCycle=0.)
o.update()
assert np.all(o.output.value == -1.), o.output.value[:3]
''')

plant('b46-trim-position', 'C25', [('klang/audio/sampling.py',
      '        self.currentIndex = clip(self.currentIndex, start, stop)',
      '        self.currentIndex = start')],
      'a sample that gets trimmed while it plays',
      'Trimming jumps back to the start although the position is still inside.',
      '''
import numpy as np
from klang.audio.sampling import Sample
s = Sample(44100, np.arange(8.).reshape(8, 1), mode='crude')
s.callback(4)
s.trim(0, 6)
assert list(s.callback(4)[:, 0]) == [4., 5.]
''')

plant('b48-adc-view', 'C21', [('klang/audio/klanggeber.py',
      '        for signal, output in zip(samples.T, self.outputs):',
      '        for signal, output in zip(samples.T[:self.nChannels // 2 * 2 or 1], self.outputs):')],
      'an input with three (an odd number of) channels',
      'The last channel stays silent.',
      '''
import numpy as np
from klang.audio.klanggeber import Adc
from klang.config import BUFFER_SIZE
a = Adc(3)
a.inject_samples(np.ones((BUFFER_SIZE, 3)))
for out in a.outputs:
    assert np.all(out.value == 1.)
''')

plant('b49-oldest-policy', 'C30', [('klang/audio/synthesizer.py',
      '''        elif self.policy == 'lowest':
            key = -note.pitch''', '''        elif self.policy == 'lowest':
            key = -note.frequency''')],
      'notes with a custom frequency (other temperament) and the lowest-note policy',
      'The policy selects the lowest frequency and not the lowest pitch.',
      '''
from klang.audio.synthesizer import NoteScheduler
from klang.messages import Note
s = NoteScheduler('lowest')
s.get_next_note(Note(60, frequency=500.))
assert s.get_next_note(Note(62, frequency=400.)).pitch == 60
''')

plant('b50-mixed-latest', 'C36', [('klang/note_effects.py',
      '''            for msg in input_.receive():
                self.output.send(msg)''', '''            msg = input_.receive_latest()
            if msg is not None:
                self.output.send(msg)''')],
      'several messages on one channel within one buffer',
      'Only the newest message of each channel is forwarded.',
      '''
from klang.connections import MessageInput
from klang.note_effects import MessageMixer
m, rx = MessageMixer(2), MessageInput()
m.output.connect(rx)
m.inputs[0].push(1)
m.inputs[0].push(2)
m.update()
assert list(rx.receive()) == [1, 2]
''')


# Third round


plant('c02-loop-reopen', 'C13', [('klang/audio/_envelope.c',
      'if (self->retrigger || self->stage == OFF || self->stage == RELEASING) {',
      'if (self->retrigger || self->stage == OFF || (self->stage == RELEASING && !self->loop)) {')],
      'a looping envelope without retrigger whose gate is closed and opened again while it releases',
      'The attack waits for the end of the release.',
      """
from klang.audio._envelope import Envelope
e = Envelope(.01, .01, .5, 10., 1. / 1000., 1e-3, False, True)
e.gate(True)
e.sample(5)
e.gate(False)
e.sample(2)
e.gate(True)
a, b = e.sample(2)
assert b > a, (a, b)
""")

plant('c03-zero-decay', 'C14', [('klang/audio/_envelope.c', """    self->decay = decay;
    Envelope_compute_base_values_and_coefficients(self);
    return 0;""", """    self->decay = decay;
    if (decay > 0.)
        Envelope_compute_base_values_and_coefficients(self);

    return 0;""")],
      'setting the decay of an existing envelope to zero',
      'The new value is read back but has no effect: the old decay goes on.',
      """
from klang.audio._envelope import Envelope
e = Envelope(0., 1., .5, .1, .01)
e.decay = 0.
e.gate(True)
assert e.sample(3)[-1] == .5
""")

plant('c04-python-retrigger-loop', 'C15', [('klang/audio/envelope.py',
      "            if self.retrigger or self.stage in {Stage.OFF, Stage.RELEASING}:",
      "            if self.stage in {Stage.OFF, Stage.RELEASING} or self.retrigger and not self.loop:")],
      'a looping envelope with retrigger whose gate is opened again during the decay',
      'The second trigger is ignored.',
      """
from klang.audio.envelope import Envelope, Stage
e = Envelope(.0001, 10., .5, 1., retrigger=True, loop=True)
e.gate(True)
e.sample()
e.sample()
assert e.stage is Stage.DECAYING
e.gate(True)
assert e.stage is Stage.ATTACKING
""")

plant('c05-mixture-law', 'C19', [('klang/audio/panning.py', 'centerValue = np.sqrt(.5 * np.cos(TAU / 8))',
      'centerValue = .5 * np.sqrt(np.cos(TAU / 8))')],
      'mixture panning with a pan law',
      'The level at the centre is not the one of the pan law.',
      """
import math
from klang.audio.panning import panning_amplitudes
l, r = panning_amplitudes(0., 'mixture', -3.).ravel()
assert math.isclose(l * l + r * r, 10 ** (-3 / 20), rel_tol=1e-9), l * l + r * r
""")

plant('c06-stop-paused', 'C26', [('klang/audio/sampling.py', '''        """Stop playback."""
        self.pause()
        self.rewind()''', '''        """Stop playback."""
        if self.playing:
            self.pause()
            self.rewind()''')],
      'stopping a file which is paused in the middle, then playing it again',
      'Playback continues in the middle and not from the beginning.',
      """
import os
import tempfile
import wave
import numpy as np
from klang.audio.sampling import AudioFile
from klang.config import BUFFER_SIZE, SAMPLING_RATE
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'a.wav')
    with wave.open(path, 'wb') as f:
        f.setnchannels(1)
        f.setsampwidth(2)
        f.setframerate(SAMPLING_RATE)
        f.writeframes(np.arange(4 * BUFFER_SIZE).astype(np.int16).tobytes())
    a = AudioFile(path)
a.play()
a.update()
first = a.output.value.copy()
a.pause()
a.stop()
a.play()
a.update()
assert np.allclose(a.output.value, first)
""")

plant('c07-early-tap', 'C29', [('klang/audio/effects.py', 'find_next_primes(nEchos, int(preDelay * SAMPLING_RATE))',
      'find_next_primes(nEchos, int(preDelay * SAMPLING_RATE) - 1)')],
      'a pre-delay one sample longer than a prime number',
      'The first tap comes before the end of the pre-delay.',
      """
from klang.audio.effects import Reverb
from klang.config import SAMPLING_RATE
r = Reverb(preDelay=1322.5 / SAMPLING_RATE)
assert min(f.length for f in r.filters) >= 1322, min(f.length for f in r.filters)
""".replace('1322.5', '1022.5').replace('1322', '1022'))

plant('c08-rest-in-chord', 'C40', [('klang/sequencer.py', '''                if pitch:
                    note = Note(pitch=pitch, velocity=1.)
                    self.output.send(note)''', '''                if not pitch:
                    break

                note = Note(pitch=pitch, velocity=1.)
                self.output.send(note)''')],
      'a pattern entry with several pitches one of which (not the last) is zero',
      'The pitches after the empty place are left out.',
      """
from klang.sequencer import PatternLookup
from klang.connections import MessageInput
p = PatternLookup([[60, 0, 67]])
i = MessageInput()
p.output.connect(i)
p.input.push(0)
p.update()
assert [n.pitch for n in i.receive()] == [60, 67]
""")

plant('c10-far-prime', 'C49', [('klang/primes.py', '    while number > PRIMES[-1]:\n        _increase_cache(PRIMES)',
      '    if number > PRIMES[-1]:\n        _increase_cache(PRIMES)')],
      'a number more than one prime beyond the cached ones',
      'An error is raised and not the next prime returned.',
      """
from klang.primes import find_next_prime, PRIMES
assert find_next_prime(PRIMES[-1] + 200) > 0
""")

plant('c11-shortest-candidate', 'C50', [('klang/util.py', '''        msg = 'Ambiguous name %r! Did you mean: %s?' % (name, _listify(candidates))
        raise ValueError(msg)''', '''        shortest = min(map(len, candidates))
        candidates = [key for key in candidates if len(key) == shortest]
        if len(candidates) > 1:
            msg = 'Ambiguous name %r! Did you mean: %s?' % (name, _listify(candidates))
            raise ValueError(msg)''')],
      'an abbreviation of two names of different lengths',
      'The shorter one is taken silently.',
      """
from klang.util import find_item
try:
    find_item({'lydian': 1, 'lydian_dominant': 2}, 'lyd')
except ValueError:
    pass
else:
    raise SystemExit('ambiguous name was accepted')
""")

plant('c12-soft-note', 'C52', [('klang/midi.py', '    if note.on:\n        statusByte = MIDI_NOTE_ON', '    if velocity:\n        statusByte = MIDI_NOTE_ON')],
      'a note-on softer than 1/127',
      'It is sent as a note-off.',
      """
import sys
import types
sys.modules.setdefault('rtmidi', types.ModuleType('rtmidi'))
from klang.midi import note_to_midi_message
from klang.messages import Note
assert note_to_midi_message(Note(pitch=60, velocity=.005))[0] == 0x90
""")

plant('c14-beam-border', 'C58', [('klang/music/note_formatting.py', '        if start < crossing <= end:', '        if start < crossing < end:')],
      'eighth notes ending exactly on the border of a group inside the bar',
      'The beam goes on across the group border.',
      """
from fractions import Fraction as F
from klang.music.note_formatting import format_notes
row = format_notes(8 * [F(1, 8)], timeSignature=False).splitlines()[0]
assert row.count('\\u2510') == 4, row
""")

plant('c15-silent-source', 'C01', [('klang/execution.py', '''                edges.add((predecessor, block))
                queue.append(predecessor)''', '''                edges.add((predecessor, block))
                if predecessor.inputs:
                    queue.append(predecessor)''')],
      'a source block without inputs which is only reachable against the direction of the connections',
      'It is missing in the execution order.',
      """
from klang.block import Block
from klang.execution import determine_execution_order
a, b, c = Block(0, 1), Block(2, 1), Block(1, 1)
a.output.connect(b.inputs[1])
b | c
try:
    order = determine_execution_order([b])
except Exception as err:
    raise SystemExit(repr(err))
assert a in order
""")

plant('c17-get-value-chain', 'C03', [('klang/connections.py', '''        """Try to fetch value from connected output."""
        if self.connected:
            return self.incomingConnection.value

        return self._value


class Output''', '''        """Try to fetch value from connected output."""
        if self.connected:
            return self.incomingConnection._value

        return self._value


class Output''')],
      'reading an input behind a relay with get_value()',
      'The own value of the relay is read and not the one of the source.',
      """
from klang.connections import Output, Relay, Input
o, r, i = Output(), Relay(), Input()
o.connect(r)
r.connect(i)
o.set_value(5.)
assert i.get_value() == 5.
""")

plant('c18-negative-sawtooth', 'C18', [('klang/audio/waves.py', '2. * np.mod(phase, TAU) / TAU - 1.', '2. * np.fmod(phase, TAU) / TAU - 1.')],
      'negative phases (negative frequency, phase modulation)',
      'The sawtooth leaves [-1, 1] down to -3.',
      """
import numpy as np
from klang.audio.waves import sawtooth
assert abs(sawtooth(np.array([-1.])))[0] <= 1.
""")

plant('c19-stereo-subsample', 'C24', [('klang/audio/effects.py', 'return np.repeat(array[..., ::skip], skip, axis=-1)',
      'return np.repeat(array[..., ::skip], skip).reshape(array.shape[::-1]).T if array.ndim > 1 else np.repeat(array[::skip], skip)')],
      'a stereo signal',
      'The channels get mixed up.',
      """
import numpy as np
from klang.audio.effects import Subsampler
x = np.arange(16.).reshape((2, 8))
y = Subsampler.sub_sample(x, 2)
assert (y == np.repeat(x[:, ::2], 2, axis=1)).all()
""")

plant('c21-kick-order', 'C60', [('klang/audio/synthesizer.py', '''        frequency, _ = sample_pitch_decay(self.frequency, self.pitchDecay, self.intensity, self.currentTime)
        env, self.currentTime = sample_exponential_decay(self.decay, self.currentTime)''', '''        env, self.currentTime = sample_exponential_decay(self.decay, self.currentTime)
        frequency, _ = sample_pitch_decay(self.frequency, self.pitchDecay, self.intensity, self.currentTime)''')],
      'comparing the pitch curve of the kick with its definition',
      'The pitch curve is one buffer ahead of the hit.',
      """
import math
import numpy as np
from klang.audio.synthesizer import Kick
from klang.config import SAMPLING_RATE, BUFFER_SIZE
from klang.messages import Note
k = Kick(frequency=50., decay=1., intensity=4., pitchDecay=.01)
k.input.push(Note(pitch=60, velocity=1.))
k.update()
want = math.sin(2 * math.pi * 50. * 5. / SAMPLING_RATE)
got = k.output.value[1] / math.exp(-math.pi / SAMPLING_RATE)
assert abs(got - want) < 1e-3, (got, want)
""")

plant('c23-two-pulses', 'C53', [('klang/music/rhythm.py', '    while remainder[level] > 1:', '    while remainder[level] > 2:')],
      'rhythms for which the algorithm ends with a remainder of two (e.g. 2 in 8, 5 in 7)',
      'The pulses are not evenly spread (or missing).',
      """
from klang.music.rhythm import euclidian_rhythm
for n in range(1, 17):
    for k in range(1, n + 1):
        r = euclidian_rhythm(k, n)
        assert len(r) == n and sum(r) == k, (k, n, r)
        p = [i for i, v in enumerate(r) if v]
        d = [((p[(i + 1) % k] - p[i] - 1) % n) + 1 for i in range(k)]
        assert max(d) - min(d) <= 1, (k, n, r)
""")

# ----------------------------------------------------------------- fourth round

plant('d01-silent-chunk', 'C11', [('klang/audio/filters.py', '''        y = x + self.alpha * self.ring.peek(len(x))
        self.ring.extend(x)
        return y''', '''        y = x + self.alpha * self.ring.peek(len(x))
        if np.any(x):
            self.ring.extend(x)

        return y''')],
      'a buffer of pure silence in the middle of the stream',
      'The forward comb filter stands still during silence.',
      """
import numpy as np
from klang.audio.filters import PyForwardCombFilter
f = PyForwardCombFilter(4, .5)
f.filter(np.array([1., 0.]))
f.filter(np.zeros(2))
y = f.filter(np.zeros(2))
assert y[0] == .5 and y[1] == 0., y
y = f.filter(np.zeros(2))
y = f.filter(np.zeros(2))
assert not y.any()
""")

plant('d02-dirty-ring', 'C12', [('klang/audio/_filters.c', 'memset(self->data, 0., length * sizeof(double));', 'memset(self->data, 0., length);')],
      'memory which got used before (recycled by malloc)',
      'The delay line of a fresh filter starts with garbage.',
      """
import gc
from klang.audio._filters import EchoFilter
import numpy as np
for _ in range(20):
    fs = [EchoFilter(64, 0.) for _ in range(10)]
    for f in fs:
        f.filter(np.ones(64))
    del f, fs
    gc.collect()
    f = EchoFilter(64, 0.)
    y = f.filter(np.zeros(64))
    assert not y.any(), y
""")

plant('d03-clamped-coefficient', 'C12', [('klang/audio/_filters.c', '''        y[i] = x[i] + self->alpha * RingBuffer_peek(self->ringBuffer);
        RingBuffer_append(self->ringBuffer, y[i]);''', '''        double tail = RingBuffer_peek(self->ringBuffer);
        if (tail < 1e-300 && tail > -1e-300 && i + 1 == dims[0])
            tail = self->alpha;
        y[i] = x[i] + self->alpha * tail;
        RingBuffer_append(self->ringBuffer, y[i]);''')],
      'a delay line which holds silence at the last sample of a chunk',
      'The backward comb filter injects its own coefficient.',
      """
import numpy as np
from klang.audio._filters import BackwardCombFilter
y = BackwardCombFilter(300, .5).filter(np.zeros(8))
assert not y.any(), y
""")

plant('d04-odd-composite', 'C43', [('klang/music/metre.py', '''    if is_divisible(metre.numerator, TRIPLE):
        return False

    return True''', '''    if is_divisible(metre.numerator, TRIPLE):
        return False

    return metre.numerator < 25 or not is_divisible(metre.numerator, 5)''')],
      'metres with 25, 35, ... beats',
      'They no longer count as complex.',
      """
from klang.music.metre import create_metre, is_complex
assert is_complex(create_metre(25, 16))
assert is_complex(create_metre(23, 16))
""")

plant('d05-slow-compound', 'C43', [('klang/music/metre.py', '''    if is_compound(metre):
        return create_metre(3, metre.denominator)''', '''    if is_compound(metre) and metre.denominator > 4:
        return create_metre(3, metre.denominator)''')],
      'compound metres in quarters or halves (6/4, 9/4)',
      'Their beat is a single quarter note instead of three.',
      """
from fractions import Fraction
from klang.music.metre import create_metre, default_beat_value
assert default_beat_value(create_metre(6, 4)) == Fraction(3, 4)
""")

plant('d06-byte-order', 'C54', [('klang/network.py', "'dtype': str(arr.dtype),", "'dtype': arr.dtype.name,")],
      'arrays in non native byte order',
      'The values get garbled.',
      """
import numpy as np
from klang.network import array_to_dict, array_from_dict
a = np.arange(3).astype('>i4')
b = array_from_dict(array_to_dict(a))
assert (a == b).all(), b
""")

plant('d07-full-datagram', 'C54', [('klang/network.py', '''                LOGGER.warning(fmt, bufsize)

            yield data
''', '''                LOGGER.warning(fmt, bufsize)
            else:
                yield data

''')],
      'a datagram as long as the buffer',
      'It gets dropped.',
      """
from klang.network import receive_all_from
class Sock:
    def __init__(self): self.data = [b'abcd', b'ab']
    def recv(self, n):
        if not self.data: raise BlockingIOError
        return self.data.pop(0)
assert list(receive_all_from(Sock(), 4)) == [b'abcd', b'ab']
""")

plant('d08-falling-duty', 'C55', [('klang/audio/sync.py', 'active = (phase > self.duty)', 'active = (phase > TAU - self.duty)')],
      'falling edges with a duty cycle other than one half',
      'The output is high for the wrong part of the period.',
      """
from klang.audio.sync import Clock
from klang.config import SAMPLING_RATE, BUFFER_SIZE
c = Clock(SAMPLING_RATE / BUFFER_SIZE, dutyCycle=.25, edge='falling')
c.update()
n = int(c.output.value.sum())
assert abs(n - .75 * BUFFER_SIZE) <= 2, n
""")

plant('d09-wrap-half', 'C57', [('klang/math.py', 'return (phase + PI) % TAU - PI', 'return phase - TAU * np.round(phase / TAU)')],
      'odd multiples of pi',
      'They may map to +pi.',
      """
import math
from klang.math import wrap
assert -math.pi <= wrap(math.pi) < math.pi, wrap(math.pi)
assert abs(wrap(4.) - (4. - 2 * math.pi)) < 1e-12
""")

plant('d10-negative-lcm', 'C57', [('klang/math.py', 'return abs(a*b) // math.gcd(a, b)', 'return abs(a) * b // math.gcd(a, b)')],
      'a negative second number',
      'The least common multiple gets negative.',
      """
from klang.math import lcm
assert lcm(4, -6) == 12 and lcm(-4, 6) == 12
""")

plant('d11-keep-oldest', 'C04', [('klang/connections.py', '''        self.queue.append(message)''', '''        if len(self.queue) < self.MAX_MESSAGES:
            self.queue.append(message)''')],
      'more than fifty waiting messages',
      'The newest ones get lost instead of the oldest.',
      """
from klang.connections import MessageInput
i = MessageInput()
for k in range(60):
    i.push(k)
assert list(i.receive()) == list(range(10, 60))
""")

plant('d13-note-frequency', 'C33', [('klang/messages.py', 'return cls(**dct)', "return cls(dct['pitch'], dct['velocity'])")],
      'a note with a frequency of its own',
      'The frequency gets lost on the way.',
      """
from klang.messages import Note
n = Note(60, .5, frequency=123.)
assert Note.from_dict(n.to_dict()) == n
""")

plant('d14-negative-octave', 'C45', [('klang/music/pitch.py', 'octave, note = divmod(pitch, DODE)\n    noteName', 'octave, note = int(pitch / DODE), pitch % DODE\n    noteName')],
      'pitches below zero',
      'They get the name of the octave above.',
      """
from klang.music.pitch import pitch_2_note_name, note_name_2_pitch
for p in range(-30, 130):
    assert note_name_2_pitch(pitch_2_note_name(p)) == p, p
""")

plant('d15-wide-pitches', 'C47', [('klang/music/scales.py', 'np.sort(np.mod(pitches, DODE))', 'np.mod(np.sort(pitches), DODE)')],
      'pitches in more than one octave',
      'The intervals are no longer sorted / may be negative.',
      """
from klang.music.scales import pitches_2_scale
assert list(pitches_2_scale([0, 14, 4, 5, 7, 9, 11])) == [2, 2, 1, 2, 2, 2, 1]
""")

plant('d16-clock-after', 'C22', [('klang/audio/klanggeber.py', '''        ClockMixin.set_current_time(playTime)
        execute_all_blocks()''', '''        execute_all_blocks()
        ClockMixin.set_current_time(playTime + INTERVAL)''')],
      'the very first cycle of a second rendering',
      'The clock still shows the end of the previous run.',
      """
from klang.audio.klanggeber import run_audio_engine, Adc, Dac
from klang.audio.helpers import INTERVAL
from klang.clock import ClockMixin
import io
from klang.progress_bar import ProgressBar
ProgressBar.stream = io.StringIO()
times = []
for _ in range(2):
    run_audio_engine(Adc(0), Dac(1), lambda: times.append(ClockMixin.clock()), duration=3.5 * INTERVAL, offline=True)
assert times[3] == 0., times
""")

plant('d17-fade-start', 'C22', [('klang/audio/klanggeber.py', 'if playTime >= fadeOutStart:', 'if playTime > fadeOutStart:')],
      'a fade out which starts together with a buffer (e.g. over the whole duration)',
      'The first buffer of the fade out is not faded.',
      """
import io
import numpy as np
from klang.audio import klanggeber
from klang.audio.helpers import INTERVAL
from klang.progress_bar import ProgressBar
ProgressBar.stream = io.StringIO()
got = []
klanggeber.write_wave = lambda samples, path: got.append(samples)
dac = klanggeber.Dac(1)
dac.input.set_value(np.ones(klanggeber.BUFFER_SIZE))
klanggeber.run_audio_engine(klanggeber.Adc(0), dac, lambda: None, duration=2.5 * INTERVAL, fadeout=2.5 * INTERVAL, filepath='x', offline=True)
s = got[0][:, 0]
assert s[1] < 1. and (np.diff(s) < 0).all()
""")

plant('d18-beat-of-three', 'C41', [('klang/music/rhythm.py', 'n = n or 1 // self.beatValue', 'n = n or self.beatValue.denominator')],
      'a beat value like 3/8',
      'The pattern is applied eight times per turn instead of twice.',
      """
from fractions import Fraction as F
from klang.constants import TAU
from klang.music.rhythm import MicroRhyhtm
m = MicroRhyhtm([F(1, 4), F(1, 8)], beatValue=F(3, 8))
want = MicroRhyhtm([F(1, 4), F(1, 8)]).warp(1., n=2)
assert abs(m.warp(1.) - want) < 1e-9, (m.warp(1.), want)
""")

plant('d19-stale-warp', 'C40', [('klang/sequencer.py', '''        if self.phaseIn.connected:
            src = self.phaseIn.incomingConnection
            src.disconnect(self.phaseIn)''', '''        if self.phaseIn.connected and self.phaseIn.incomingConnection.owner.inputs:
            src = self.phaseIn.incomingConnection
            src.owner.input.disconnect(src.owner.input.incomingConnection) if src.owner.input.connected else None
            src.disconnect(self.phaseIn)
            if src.owner.nInputs > 1:
                src.owner.inputs[1].set_value(0.)''')],
      'reusing a micro rhythm which was taken off',
      'A removed micro rhythm loses its phrasing.',
      """
from fractions import Fraction as F
from klang.sequencer import Sequencer
from klang.music.rhythm import MicroRhyhtm
s = Sequencer([[60, 61]])
m = MicroRhyhtm([F(1, 4), F(1, 8)])
s.apply_micro_rhythm(m, 0)
s.reset_micro_rhythm(0)
s.apply_micro_rhythm(m, 0)
assert m.phrasing.value == 1.
""")

plant('d22-arpeggiator-empty', 'C38', [('klang/arpeggiator.py', '''            if self.prevNote:
                noteOff = self.prevNote.silence()
                self.output.send(noteOff)
                self.prevNote = None

            if self.arpeggio:''', '''            if self.prevNote and self.prevNote.velocity > .05:
                noteOff = self.prevNote.silence()
                self.output.send(noteOff)
                self.prevNote = None

            if self.arpeggio:''')],
      'a very soft note',
      'It is never released.',
      """
from klang.arpeggiator import Arpeggiator
from klang.connections import MessageInput
from klang.audio.helpers import INTERVAL
from klang.messages import Note
a = Arpeggiator(INTERVAL)
i = MessageInput()
a.output.connect(i)
a.input.push(Note(60, .01))
for _ in range(4):
    a.update()
got = list(i.receive())
assert any(n.off for n in got), got
""")

plant('d24-fm-copy', 'C32', [('klang/audio/oscillators.py', '''            intensity=self.intensity,
            modFrequency=self.modulator.frequency.value,''', '''            intensity=self.intensity,
            modFrequency=self.modulator.output.value if self.frequency.value < 0 else self.frequency.value,''')],
      'copying a frequency modulation oscillator (polyphony)',
      'The copies get the carrier frequency as modulator frequency.',
      """
import copy
from klang.audio.oscillators import FmOscillator
o = FmOscillator(440., modFrequency=7.)
assert copy.deepcopy(o).modulator.frequency.value == 7.
""")

plant('d25-envelope-voice-skip', 'C31', [('klang/audio/synthesizer.py', '''            for voice in self.voices:
                if voice.currentPitch == note.pitch:
                    voice.input.push(note)''', '''            for voice in self.voices:
                if voice.currentPitch == note.pitch and not voice.input.queue:
                    voice.input.push(note)''')],
      'note-on and note-off within the same buffer',
      'The note-off gets lost and the note hangs.',
      """
from klang.audio.synthesizer import PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.audio.oscillators import Oscillator
from klang.audio.envelopes import ADSR
from klang.messages import Note
s = PolyphonicSynthesizer(Voice(Oscillator(), ADSR(0., 0., 1., 0.)))
s.input.push(Note(60, 1.))
s.input.push(Note(60, 0.))
for _ in range(3):
    s.update()
assert not any(v.active for v in s.voices)
""")

plant('d26-tied-scheduler', 'C30', [('klang/audio/synthesizer.py', 'self.counter = itertools.count()', 'self.counter = itertools.cycle(range(64))')],
      'more than 64 notes',
      'The notes are no longer ordered by age.',
      """
from klang.audio.synthesizer import NoteScheduler
from klang.messages import Note
s = NoteScheduler('newest')
for i in range(63):
    s.get_next_note(Note(60, 1.))
    s.get_next_note(Note(60, 0.))
s.get_next_note(Note(61, 1.))
n = s.get_next_note(Note(62, 1.))
assert n.pitch == 62, n
""")

plant('d27-sample-silence', 'C26', [('klang/audio/sampling.py', '''    ret = np.zeros(shape[:-1] + (BUFFER_SIZE,))
    ret[..., :length] = array''', '''    ret = np.zeros(shape[:-1] + (BUFFER_SIZE,))
    ret[..., BUFFER_SIZE - length:] = array''')],
      'the last, partly filled buffer',
      'The silence comes before the samples.',
      """
import numpy as np
from klang.audio.sampling import extend_with_silence
y = extend_with_silence(np.ones((2, 3)))
assert (y[:, :3] == 1).all() and not y[:, 3:].any()
""")

plant('d29-tempo-rate', 'C42', [('klang/music/tempo.py', 'return 1. / note_duration(frequency, *args, **kwargs)', 'return 1. / note_duration(frequency)')],
      'a rate given as a note value at a tempo other than the default',
      'The tempo gets ignored.',
      """
from fractions import Fraction
from klang.music.tempo import compute_rate, compute_duration
assert abs(compute_rate(Fraction(1, 8), 90.) * compute_duration(Fraction(1, 8), 90.) - 1.) < 1e-12
""")


# Fifth batch

plant('e01-edge-order', 'C61', [('klang/graph.py', 'order = edges.max() + 1', 'order = len(np.unique(edges))')],
      'A list of edges that leaves out a node number, without a given order.',
      'Building the matrix from the edges fails or lacks nodes.',
      """
import numpy as np
from klang.graph import graph_matrix
g = graph_matrix([(0, 3), (1, 3)])
assert g.shape == (4, 4) and g[0, 3] == 1 and g.sum() == 2
""")

plant('e02-named-duplicates', 'C07', [('klang/klang.py', 'counter = collections.Counter(flattenedExecOrder)',
                                       'counter = collections.Counter(map(str, flattenedExecOrder))')],
      'Two blocks of the same name (or with the same textual form).',
      'A warning is issued though no block runs twice.',
      """
from klang.block import Block
from klang.klang import validate_global_execution_order
class L:
    n = 0
    def warning(self, *a):
        self.n += 1
class B(Block):
    def __str__(self):
        return self.name
l = L()
validate_global_execution_order([B(name='x'), B(name='x')], l)
assert l.n == 0
""")

plant('e03-same-message', 'C04', [('klang/connections.py', '''        self.queue.append(message)''',
                                   '''        if not self.queue or self.queue[-1] is not message:
            self.queue.append(message)''')],
      'The same message object sent twice before the input is read.',
      'The second one is lost.',
      """
from klang.connections import MessageOutput, MessageInput
o, i = MessageOutput(), MessageInput()
o.connect(i)
m = (1, 2)
o.send(m)
o.send(m)
assert list(i.receive()) == [m, m]
""")

plant('e05-mixed-twice', 'C05', [('klang/audio/mixer.py', '''        output.connect(self.inputs[-1])''', '''        if all(input_.incomingConnection is not output for input_ in self.inputs):
            output.connect(self.inputs[-1])''')],
      'Mixing the same output twice.',
      'The second operand is dropped: the mean is wrong.',
      """
import numpy as np
from klang.block import Block
class B(Block):
    def __init__(self, v):
        super().__init__(nOutputs=1)
        self.output.set_value(np.full(256, v))
from klang.block import mix_operator
from klang.config import BUFFER_SIZE
class B(Block):
    def __init__(self, v):
        super().__init__(nOutputs=1)
        self.output.set_value(np.full(BUFFER_SIZE, v))
a, b = B(1.), B(4.)
m = mix_operator(a, a)
m += b
m.update()
assert np.allclose(m.output.value, 2.), m.output.value
""")

plant('e13-released-loop', 'C13', [('klang/audio/_envelope.c', '''        self->enabled = false;
        if (self->stage == ATTACKING || self->stage == DECAYING || self->stage == SUSTAINING) {
''', '''        if (self->stage == ATTACKING || self->stage == DECAYING || self->stage == SUSTAINING) {
            self->enabled = false;
''')],
      'A looping envelope whose gate closes while the loop is in its release.',
      'It keeps on looping.',
      """
from klang.audio._envelope import Envelope
e = Envelope(.001, .001, .5, .01, 1/1000., loop=True)
e.gate(True)
e.sample(4)
e.gate(False)
e.sample(60)
assert not e.active
""")

plant('e14-kept-sustain', 'C14', [('klang/audio/_envelope.c', '''    if (!(LOWER <= sustain && sustain <= UPPER)) {
        PyErr_SetString(PyExc_ValueError, "sustain not within bounds!");
        return -1;
    }

    self->sustain = sustain;
    Envelope_compute_base_values_and_coefficients(self);''', '''    self->sustain = clip(sustain, LOWER, UPPER);
    Envelope_compute_base_values_and_coefficients(self);

    if (!(LOWER <= sustain && sustain <= UPPER)) {
        PyErr_SetString(PyExc_ValueError, "sustain not within bounds!");
        return -1;
    }
''')],
      'A refused sustain level.',
      'The envelope changes though the setting was refused.',
      """
from klang.audio._envelope import Envelope
e = Envelope(.1, .1, .5, .1, .01)
try:
    e.sustain = 2.
except ValueError:
    pass
assert e.sustain == .5
""")

plant('e16-many-channels', 'C16', [('klang/audio/effects.py', 'new = new.sum(axis=0) / nChannels', 'new = new.sum(axis=0) / STEREO')],
      'Input of three channels or one channel as a 2-D array.',
      'The mix down is not the mean.',
      """
import numpy as np
from klang.audio.effects import Delay
from klang.config import BUFFER_SIZE
d = Delay(1., drywet=0.)
d.input.set_value(np.ones((3, BUFFER_SIZE)))
d.update()
assert np.allclose(d.output.value, 1.)
""")

plant('e19-exact-frequency', 'C27', [('klang/audio/effects.py', 'i = np.searchsorted(self.frequencies, frequency)', "i = np.searchsorted(self.frequencies, frequency, side='right')")],
      'A frequency that is in the table.',
      'The design of the next one is taken.',
      """
from klang.audio.effects import FilterCoefficients
c = FilterCoefficients(lambda Wn: ([Wn], [1.]))
for i in (0, 3, 500):
    assert c.get_coefficients(c.frequencies[i]) is c.coefficients[i]
""")

plant('e22-short-decay', 'C29', [('klang/audio/effects.py', '''        if decay <= 0:
            return 0.''', '''        if decay <= 1e-3:
            return 0.''')],
      'A decay of less than a millisecond.',
      'The feedback is zero instead of exp(-pi * delay / decay).',
      """
import math
from klang.audio.effects import Reverb
assert abs(Reverb.compute_alpha(1e-4, 5e-4) - math.exp(-math.pi / 5)) < 1e-12
""")

plant('e23-thirtytwo-notes', 'C34', [('klang/note_effects.py', 'self.activeNotes: Deque[Tuple[float, Note]] = collections.deque()',
                                      'self.activeNotes: Deque[Tuple[float, Note]] = collections.deque(maxlen=32)')],
      'More than 32 notes sounding at once.',
      'The oldest of them never end.',
      """
from klang.note_effects import NoteLengthener
from klang.connections import MessageInput
from klang.clock import ClockMixin
from klang.messages import Note
l, i = NoteLengthener(1.), MessageInput()
l.output.connect(i)
ClockMixin.set_current_time(0.)
for k in range(40):
    l.input.push(Note(k, 1.))
l.update()
assert len(list(i.receive())) == 40
ClockMixin.set_current_time(2.)
l.update()
assert len(list(i.receive())) == 40
""")

plant('e34-negative-phase', 'C18', [('klang/audio/waves.py', 'np.mod(phase, TAU) / TAU', 'np.fmod(phase, TAU) / TAU')],
      'A negative phase.',
      'The sawtooth leaves [-1, 1].',
      """
import numpy as np
from klang.audio.waves import sawtooth
y = sawtooth(np.array([-1., -4.]))
assert np.all(np.abs(y) <= 1.), y
""")

plant('f01-two-back-edges', 'C61', [('klang/graph.py', '''                backEdges.append((parent, child))
                continue''', '''                backEdges.append((parent, child))
                break''')],
      'A node with an edge back and further edges after it.',
      'The further children are not looked at, and their cycles are not broken up.',
      """
import numpy as np
from klang.graph import find_back_edges
g = np.zeros((3, 3), dtype=int)
g[0, 1] = g[1, 2] = g[2, 0] = g[2, 1] = 1
assert sorted(find_back_edges(g)) == [(2, 0), (2, 1)]
""")

plant('f02-refused-connection', 'C02', [('klang/connections.py', '''    if input_.connected:
        msg = '%s is already connected to another output!' % input_
        raise InputAlreadyConnected(msg)

    # Make the actual connection
    output.outgoingConnections.add(input_)
''', '''    # Make the actual connection
    output.outgoingConnections.add(input_)
    if input_.connected:
        msg = '%s is already connected to another output!' % input_
        raise InputAlreadyConnected(msg)

''')],
      'An input which is already connected.',
      'The refused connection remains half made: messages of both outputs arrive.',
      """
from klang.connections import MessageOutput, MessageInput, InputAlreadyConnected
a, b, i = MessageOutput(), MessageOutput(), MessageInput()
a.connect(i)
try:
    b.connect(i)
    assert False
except InputAlreadyConnected:
    pass
b.send(1)
assert not i.queue and not b.connected
""")

plant('f05-sieve-limit', 'C49', [('klang/primes.py', 'half = int((limit - 1) / 2)', 'half = int(limit / 2)')],
      'An even limit one below a prime.',
      'The sieve yields a prime above the limit.',
      """
from klang.primes import sieve_of_sundaram
assert list(sieve_of_sundaram(10)) == [2, 3, 5, 7]
""")

plant('f06-off-channel', 'C52', [('klang/midi.py', 'statusByte = MIDI_NOTE_OFF + channel', 'statusByte = MIDI_NOTE_OFF')],
      'Another channel than the first.',
      'The notes never end: their note-offs are sent on the first channel.',
      """
import sys, types
sys.modules.setdefault('rtmidi', types.ModuleType('rtmidi'))
from klang.midi import note_to_midi_message
from klang.messages import Note
assert note_to_midi_message(Note(60, 0.), channel=3)[0] == 0x83
""")

plant('f10-negative-pitch', 'C46', [('klang/music/tunings.py', 'octave, note = np.divmod(pitch, DODE)', 'octave, note = np.trunc(pitch / DODE), pitch % DODE')],
      'A negative pitch.',
      'It is an octave too high.',
      """
from klang.music.tunings import EQUAL_TEMPERAMENT as t
assert abs(t.pitch_2_frequency(-1) * 2 - t.pitch_2_frequency(11)) < 1e-9
""")

plant('f13-whole-buffers', 'C15', [('klang/audio/envelope.py', '''    if remainder > 0:
        samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
        yield samples, target
    else:
        yield SENTINEL_ARRAY, target
''', '''    samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
    if remainder > 0:
        yield samples, target
''')],
      'A stage which ends with the buffer.',
      'The envelope raises StopIteration.',
      """
from klang.audio.envelope import Envelope
from klang.config import BUFFER_SIZE, SAMPLING_RATE
for n in (0, 1, 2):
    e = Envelope(attack=(n * BUFFER_SIZE + .5) / SAMPLING_RATE, decay=0., sustain=1., release=0.)
    e.gate(True)
    for _ in range(4):
        assert len(e.sample()) == BUFFER_SIZE
""")

plant('f17-stereo-channel-gain', 'C20', [('klang/audio/mixer.py', 'super().add_new_channel(gain)', 'super().add_new_channel()')],
      'A stereo channel added with a gain.',
      'The gain is dropped.',
      """
from klang.audio.mixer import StereoMixer
m = StereoMixer()
m.add_new_channel(.5, -1.)
assert m.gains == [.5] and m.pannings == [-1.]
""")


plant('f26-alternative-names', 'C63', [('klang/scraping.py', '''            if i > 0:
                nam += ' %d' % i
''', '''            if i > 1:
                nam += ' %d' % i
''')],
      'An entry of the page with two alternatives.',
      'The second overwrites the first under the same name.',
      """
import sys, types
for n in ('requests', 'bs4'):
    try:
        __import__(n)
    except ImportError:
        sys.modules[n] = types.ModuleType(n)
from klang.scraping import spawn_jobs
assert len({n for n, _ in spawn_jobs('a', '1 / 2')}) == 2
""")

plant('f27-natural-sign', 'C63', [('klang/scraping.py', "    '♮': 0,", "    '♮': 1,")],
      'A degree with a natural sign.',
      'The scale is off by a semitone.',
      """
import sys, types
for n in ('requests', 'bs4'):
    try:
        __import__(n)
    except ImportError:
        sys.modules[n] = types.ModuleType(n)
from klang.scraping import parse_degrees
assert list(parse_degrees('1 \\u266e3 5')) == [4, 3, 5]
""")

plant('f28-plot-shape', 'C64', [('klang/plotting.py', '''    while nRows * nCols < n:
        nCols += 1

''', '')],
      'A number of subplots a bit above the product of rows and columns (e.g. 3).',
      'There is no room for the last ones.',
      """
from klang.plotting import nice_plotting_shape
for n in range(1, 50):
    r, c = nice_plotting_shape(n)
    assert r * c >= n, n
""")

plant('f29-whole-label', 'C64', [('klang/plotting.py', '        if frac.numerator == 1:\n', '        if frac.denominator == 1:\n            return r\'$%d%s$\' % (frac.numerator, symbol)\n\n        if abs(frac.numerator) == 1:\n')],
      'A tick at a negative unit fraction.',
      'The label lacks its sign.',
      """
from klang.plotting import fraction_ticks
assert '-' in fraction_ticks([-.5], 1., 'x')[0]
""")

plant('g03-byte-order', 'C54', [('klang/network.py', "'dtype': str(arr.dtype),", "'dtype': arr.dtype.name,")],
      'An array of the other byte order.',
      'The bytes are taken in the wrong order: garbage.',
      """
import numpy as np
from klang.network import array_to_dict, array_from_dict
a = np.array([1., 2.], dtype='>f8')
assert (array_from_dict(array_to_dict(a)) == a).all()
""")

plant('g04-rounded-buffers', 'C22', [('klang/audio/klanggeber.py', 'nCycles = int(duration * SAMPLING_RATE // BUFFER_SIZE)', 'nCycles = round(duration * SAMPLING_RATE / BUFFER_SIZE)')],
      'A duration which ends past the middle of a buffer.',
      'One buffer more than fits into the duration.',
      """
from klang.audio.klanggeber import Adc, Dac, run_audio_engine
from klang.config import BUFFER_SIZE, SAMPLING_RATE
n = [0]
def count():
    n[0] += 1
run_audio_engine(Adc(0), Dac(1), count, duration=2.75 * BUFFER_SIZE / SAMPLING_RATE, offline=True)
assert n[0] == 2, n
""")

plant('g10-second-filter', 'C27', [('klang/audio/effects.py', '        for fil in self.filters:\n            fil.set_frequency(freq)', '        for fil in self.filters[:1]:\n            fil.set_frequency(freq)')],
      'A stereo signal and another cutoff frequency.',
      'The right channel is filtered at the wrong frequency.',
      """
import numpy as np
from klang.audio.effects import Filter
from klang.config import BUFFER_SIZE
f = Filter(frequency=200.)
f.input.set_value(np.ones((2, BUFFER_SIZE)))
f.update()
a, b = f.output.value
assert np.allclose(a, b)
""")

plant('g14-pan-beyond', 'C19', [('klang/audio/panning.py', '    panLevel = np.clip(panLevel, LEFT, RIGHT)\n', '')],
      'A panning level beyond left or right.',
      'The amplitudes leave [0, 1] (a channel is inverted).',
      """
import numpy as np
from klang.audio.panning import panning_amplitudes
for mode in ('linear', 'constant_power', 'mixture'):
    assert np.allclose(panning_amplitudes(1.5, mode), panning_amplitudes(1., mode)), mode
""")

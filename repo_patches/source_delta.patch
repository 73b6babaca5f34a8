From 6d886f5c43622df0f19adcc4a7cc217a0df3ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 01/40] fix: order inner blocks of a composite by their own
 connections only

The composite itself took part as a node, closing a loop from its output
relays to its input relays. With more than one input branch the wrong
edge got removed as back edge and a block could run before its source.
---
 klang/composite.py |  2 +-
 klang/execution.py | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..3f68e1a 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -70,7 +70,7 @@ class Composite(Block):
             blocks = introspect(self)
 
         with temporarily_unpatch(self):
-            execOrder = determine_execution_order(blocks)
+            execOrder = determine_execution_order(blocks, ignore=self)
 
         while self in execOrder:
             execOrder.remove(self)
diff --git a/klang/execution.py b/klang/execution.py
index 6e7d16a..67087d6 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -34,10 +34,22 @@ def traverse_network(blocks):
     return vertices, edges
 
 
-def determine_execution_order(blocks):
-    """Get appropriate execution order for block network."""
+def determine_execution_order(blocks, ignore=None):
+    """Get appropriate execution order for block network.
+
+    Args:
+        blocks (iterable): Starting blocks.
+
+    Kwargs:
+        ignore (Block): Block whose connections impose no order (e.g. the
+            composite around the network: its relays do not get executed).
+
+    Returns:
+        list: Execution order.
+    """
     blocks = list(blocks)
     vertices, edges = traverse_network(blocks)
+    edges = {(src, dst) for src, dst in edges if ignore not in (src, dst)}
     if not edges:
         return vertices
 
-- 
2.43.0


From 1cbb788439601af4bbd57835b997770a1070f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 02/40] fix: validating an execution order without any block

A network of composites without inner blocks flattens to nothing, which
made max() raise a ValueError.
---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From 5986686ce6f23ffe3cdb64df2d99d948fa7cf720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 03/40] fix: Delay kept a view on the samples it was about to
 overwrite

peek() returns no copy, so the delayed signal was replaced by the new
input before it got blended into the output.
---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..ae7d445 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,7 +169,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From be08850cc393ae3f02a0d484392ce3891fda126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 04/40] fix: validate the delay time of note values in seconds

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index ae7d445..1c802c0 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From 07d030cb9fcc32fda620a408cf4e29e84c393a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 05/40] fix: phase jump one buffer after the end of a chirp

The constant frequency branch for buffers after the chirp dropped the
accumulated phase, and the mixture branch extrapolated the chirp beyond
its end.
---
 klang/audio/oscillators.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..1f2a7bc 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -20,21 +20,26 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if (tEnd <= 0) or (freqStart == freqEnd):
         # Only constant frequency
         return TAU * freqEnd * t
 
-    phase = _chirp_phase(t, f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
-                         vertex_zero=vertex_zero)
+    def chirp(time):
+        return _chirp_phase(time, f0=freqStart, t1=tEnd, f1=freqEnd,
+                            method=method, vertex_zero=vertex_zero)
+
     if t[-1] < tEnd:
         # Only chirping
-        return phase
+        return chirp(t)
+
+    # Constant frequency continues with the phase from the end of the chirp
+    phaseOffset = chirp(np.array([tEnd]))[0] - TAU * freqEnd * tEnd
+    phase = TAU * freqEnd * t + phaseOffset
+    if t[0] < tEnd:
+        # Mixture between chirp and constant frequency
+        chirping = (t < tEnd)
+        phase[chirping] = chirp(t[chirping])
 
-    # Mixture between chirp and constant frequency
-    constFreq = (t >= tEnd)
-    mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
     return phase
 
 
-- 
2.43.0


From 02f1611b8a31a1a553bd5258e91e2d95758a6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 06/40] fix: refuse malformed note names

Mixed accidentals ended in a KeyError and trailing text was ignored.
---
 klang/music/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/music/pitch.py b/klang/music/pitch.py
index 59080c3..dff7961 100644
--- a/klang/music/pitch.py
+++ b/klang/music/pitch.py
@@ -20,7 +20,7 @@ PITCH_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
 CIRCLE_OF_FIFTHS = (7 * PITCH_CLASSES) % DODE
 """array: Pitches of the circle of fifths."""
 
-SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])([#b]{0,2})([-0123456789]+)')
+SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])(##?|bb?|)(-?[0123456789]+)')
 """re.pattern: Regex pattern for scientific note name."""
 
 ACCIDENTAL_SHIFTS = {
@@ -46,7 +46,7 @@ def note_name_2_pitch(noteName: str) -> int:
         >>> note_name_2_pitch('G##4')
         69
     """
-    match = SCIENTIFIC_PITCH_NOTATION_RE.match(noteName.title())
+    match = SCIENTIFIC_PITCH_NOTATION_RE.fullmatch(noteName.title())
     if not match:
         raise ValueError('Can not parse note %r' % noteName)
 
-- 
2.43.0


From e1956ae3783dbf4640366ef514036bd4000b3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 07/40] fix: refuse euclidian rhythms with more pulses than
 slots

They returned a pattern with the wrong number of slots and pulses.
---
 klang/music/rhythm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 00b6fc4..9f99269 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -82,6 +82,9 @@ def _compute_bitmap(num_slots, num_pulses):
 
 def euclidian_rhythm(nPulses, nSlots):
     """Euclidian rhyhtm pattern generator."""
+    if not 0 <= nPulses <= nSlots:
+        raise ValueError('Can not distribute %d pulses over %d slots!' % (nPulses, nSlots))
+
     bitmap = _compute_bitmap(nSlots, nPulses)
     return list(reversed(bitmap))
 
-- 
2.43.0


From f482dddc95fbfa66ed95201094db69b29a180f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 08/40] fix: progress bar with a single step

Rendering divided by zero (also when rendering a single buffer offline).
---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..f637c84 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = 1 if self.is_at_end(i) else max(0, i / (self.length - 1))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From 367a46c05ce809900061c2d7ea67cf4816ad8f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:15 +0000
Subject: [PATCH 09/40] fix: note-offs which share a buffer with their note-on

The pitch of a voice was only known once the voice processed its note-on. A
note-off in the same buffer found no voice (hanging note) and one for a stolen
voice ended the new note instead.
---
 klang/audio/synthesizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..2cb620f 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -201,6 +201,7 @@ class PolyphonicSynthesizer(Synthesizer):
         if note.on:
             #print('Play new note', note)
             voice = next(self.freeVoice)
+            voice.currentPitch = note.pitch
             voice.input.push(note)
         else:
             #print('Kill old note', note)
-- 
2.43.0


From f2dec668be42d34dce91d1fe8e8f5a9c761069e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 10/40] fix: arpeggiator repeated the note-off of its last note
 forever

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From aa6abf304ec9a41ca7e71cdf4a7a13c781f439d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 11/40] fix: looped samples repeated the wrong frames in the
 wrong order

---
 klang/audio/sampling.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..6cd07c6 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -267,22 +267,16 @@ class Sample:
         """Sample callback. Get some new samples for resampler."""
         start = self.currentIndex
         stop = start + nFrames
-        reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
-
+        if self.loop and stop >= self.stop:
+            length = self.stop - self.start
+            indices = self.start + (np.arange(start, stop) - self.start) % length
+            self.currentIndex = self.start + (stop - self.start) % length
+            return self.data[indices]
+
+        # Block for future uses
+        stop = min(stop, self.stop)
         self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        return self.data[start:stop]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 52b2d28ec69866949eb57c8a9b2404fc3bcdc0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 12/40] fix: stereo audio files were output with samples and
 channels swapped

---
 klang/audio/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 6cd07c6..18662f4 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -351,7 +351,7 @@ class AudioFile(Block):
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
         samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
+        samples = samples.squeeze()
         self.output.set_value(samples)
 
     def __str__(self):
-- 
2.43.0


From 15c66688586b1c57dc6746dae77b7e06cab8142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 13/40] fix: pizza slicer never entered the only or the last
 slice first

---
 klang/sequencer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..c6a4913 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -11,7 +11,7 @@ from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.composite import Composite
 from klang.connections import MessageInput, MessageOutput, MessageRelay, Relay
-from klang.constants import TAU
+from klang.constants import PI, TAU
 from klang.messages import Note
 from klang.music.note_values import QUARTER_NOTE, SIXTEENTH_NOTE
 from klang.music.rhythm import MicroRhyhtm
@@ -111,15 +111,21 @@ class PizzaSlicer(Block):
         self.outputs = [MessageOutput(owner=self)]
         self.nSlices = nSlices
         self.currentIdx = -1
+        self.currentPhase = 0.
 
     def increment(self):
         """Increment current index by one."""
         self.currentIdx = (self.currentIdx + 1) % self.nSlices
 
     def update(self):
-        phase = self.input.value
+        phase = self.input.value % TAU
         idx = pizza_slice_number(phase, self.nSlices)
         missing = (idx - self.currentIdx) % self.nSlices
+        if missing == 0 and (self.currentIdx < 0 or self.currentPhase - phase > PI):
+            # First slice ever or back in the only slice after a full turn
+            missing = self.nSlices
+
+        self.currentPhase = phase
         for _ in range(missing):
             self.increment()
             self.output.send(self.currentIdx)
-- 
2.43.0


From 3215f84954aec6aeccb0638c23f21de7dc62af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 14/40] fix: sync clock multiplied with its frequency input
 instead of the value

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..af2d57e 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        frequency = compute_rate(self.frequency.value)
+        phase = (TAU * frequency * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From fdb5024d9178633f53128be1e3c84b82e20eb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 15/40] fix: MIDI output ignored its channel

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..788888f 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -53,7 +53,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From 29da655d1c139ef5f683fc9bc8fc94a4a14d8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 16/40] fix: very quiet notes were sent as MIDI note-offs

---
 klang/midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index 788888f..4b8a1be 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -32,12 +32,13 @@ def open_midiout(portNumber):
 
 def note_to_midi_message(note, channel=0):
     """Convert klang note to midi message."""
+    velocity = int(note.velocity * 127)
     if note.on:
         statusByte = MIDI_NOTE_ON + channel
+        velocity = max(velocity, 1)  # MIDI note-on with zero velocity means note-off
     else:
         statusByte = MIDI_NOTE_OFF + channel
 
-    velocity = int(note.velocity * 127)
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From 10b9b2b0ff1cf3533e5c0103222d3da3ff2bee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 17/40] fix: changing the temperament of the keyboard raised a
 KeyError

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..33ff89a 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -148,8 +148,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From dff2fca2be8223977536c6673e47288b86fddc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 18/40] fix: keyboard released the wrong note after an octave
 change

---
 klang/keyboard.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 33ff89a..df56ccc 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -107,15 +107,24 @@ class MusicalKeyboard(Keyboard):
             self.outputs.append(MessageOutput(self))  # Secondary output
 
         self.octave = REF_OCTAVE
+        self.activeNotes = {}
         self.velocity = 1.
         self.temperament = defaultTemperament
 
     def play_note(self, char, noteOn=True):
         """Play music note (note-on and note-off)."""
+        if not noteOn and char in self.activeNotes:
+            # Octave or temperament could have changed in the meantime
+            note = self.activeNotes.pop(char)
+            return self.output.send(note.silence())
+
         pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
         frequency = self.temperament.pitch_2_frequency(pitch)
         velocity = self.velocity if noteOn else self.SILENT
         note = Note(pitch, velocity=velocity, frequency=frequency)
+        if noteOn:
+            self.activeNotes[char] = note
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From 825d2941b6420648933d05454512357e304aea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 19/40] fix: keyboard octaves beyond the valid pitches raised
 on every key

---
 klang/keyboard.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index df56ccc..1b23d78 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -131,10 +131,13 @@ class MusicalKeyboard(Keyboard):
         """Change current octave up / down."""
         if char == 'y':
             fmt = 'One octave down to %d'
-            self.octave -= 1
+            octave = self.octave - 1
         else:
             fmt = 'One octave up to %d'
-            self.octave += 1
+            octave = self.octave + 1
+
+        # All keys have to stay valid pitches [0, 128)
+        self.octave = clip(octave, 0, 9)
 
         print(fmt % self.octave)
 
-- 
2.43.0


From 3470a8559397909c167aedab94059ffc9f15400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 20/40] fix: transposed and strided arrays were garbled when
 sent over the network

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..28d6293 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From 606fa6c9bf8e32867e11f2d34d6b3a40c1f15ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 21/40] fix: malformed datagrams raised into the audio engine

---
 klang/network.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 28d6293..203980a 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -146,15 +146,16 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
-            while string:
-                try:
+            try:
+                string = data.decode()
+                while string:
                     obj, stop = self.decoder.raw_decode(string)
                     yield obj
                     string = string[stop:]
-                except json.JSONDecodeError as err:
-                    self.logger.error(err, exc_info=True)
-                    break
+            except Exception as err:
+                # Datagrams come from outside. Invalid ones (no text, no JSON,
+                # invalid notes or arrays) get skipped.
+                self.logger.error(err, exc_info=True)
 
     def send_object(self, obj):
         """Send object to address as JSON."""
-- 
2.43.0


From d3640caed5ea88155094ad2b530659f4a71de12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 22/40] fix: samples which are no numbers crashed the C filters

---
 klang/audio/_filters.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..57900c3 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -199,6 +199,10 @@ parse_input_array(PyObject *args)
     }
 
     inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    if (!inArray) {
+        return NULL;
+    }
+
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
-- 
2.43.0


From e6750f4acd009936fad93874b3e37cf9813a8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 23/40] fix: C filters read strided samples as if they were
 contiguous

---
 klang/audio/_filters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 57900c3..0d79514 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -198,7 +198,7 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (!inArray) {
         return NULL;
     }
-- 
2.43.0


From 6df785f7b9bbd59cdbe2a4237d226380b0873289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 24/40] fix: C filters leaked their input samples

---
 klang/audio/_filters.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 0d79514..6d82192 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -205,6 +205,7 @@ parse_input_array(PyObject *args)
 
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -244,6 +245,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -254,6 +256,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -270,6 +273,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -280,6 +284,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -296,6 +301,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -306,6 +312,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From 50ce65145320fd3b5691c70a7d2478f4816bb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 25/40] fix: C filters without any delay accessed memory out of
 bounds

---
 klang/audio/_filters.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 6d82192..da4a97d 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -40,8 +40,8 @@ typedef struct {
  */
 RingBuffer* RingBuffer_create(size_t length)
 {
-    if (length > MAX_RING_BUFFER_CAPACITY) {
-        perror("RingBuffer_create(): length parameter to large!");
+    if (length == 0 || length > MAX_RING_BUFFER_CAPACITY) {
+        perror("RingBuffer_create(): length parameter out of range!");
         return NULL;
     }
 
-- 
2.43.0


From 4c92220755bff49c6e7373740f42cf4c50ad0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 26/40] fix: leak when a C filter could not be created

---
 klang/audio/_filters.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index da4a97d..35bdb9b 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -132,6 +132,7 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
     self->ringBuffer = RingBuffer_create(length);
     if (!self->ringBuffer) {
         PyErr_SetString(PyExc_RuntimeError, "Could not initialize RingBuffer!");
+        Py_DECREF(self);
         return NULL;
     }
 
-- 
2.43.0


From 8f5d8ff15ee6b55680aa6731cfdab3a64795ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 27/40] fix: gate values without truth value triggered the C
 envelope

---
 klang/audio/_envelope.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 03f469f..fe2fb2c 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -549,8 +549,11 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
 static PyObject *
 Envelope_gate(Envelope *self, PyObject *args)
 {
-    bool trigger = PyObject_IsTrue(args);
+    int trigger = PyObject_IsTrue(args);
     if (DEBUG) printf("Envelope_gate(%i)\n", trigger);
+    if (trigger < 0)
+        return NULL;
+
     if (trigger) {
         self->enabled = true;
         if (self->retrigger || self->stage == OFF || self->stage == RELEASING) {
-- 
2.43.0


From 44b4db902609ecb09b263a0e6b04a392800fca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 28/40] fix: deleting an attribute of the C envelope crashed

---
 klang/audio/_envelope.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index fe2fb2c..7b860bf 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -198,6 +198,24 @@ Envelope_compute_base_values_and_coefficients(Envelope *self)
 }
 
 
+/**
+ * Check for attribute deletion (setters get called with NULL).
+ *
+ * @param value New attribute value.
+ * @return If there is a value to set. Otherwise a Python exception is set.
+ */
+static bool
+Envelope_has_value(const PyObject *value)
+{
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "Cannot delete envelope attribute!");
+        return false;
+    }
+
+    return true;
+}
+
+
 // Note: Getters and setters for attack, decay, sustain and release. Via
 // PyGetSetDef because we need to recompute the base values and coefficients.
 
@@ -220,6 +238,9 @@ Envelope_get_attack(Envelope *self, void *closure)
 static int
 Envelope_set_attack(Envelope *self, PyObject *value, void *closure)
 {
+    if (!Envelope_has_value(value))
+        return -1;
+
     double attack = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -255,6 +276,9 @@ Envelope_get_decay(Envelope *self, void *closure)
 static int
 Envelope_set_decay(Envelope *self, PyObject *value, void *closure)
 {
+    if (!Envelope_has_value(value))
+        return -1;
+
     double decay = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -290,6 +314,9 @@ Envelope_get_sustain(Envelope *self, void *closure)
 static int
 Envelope_set_sustain(Envelope *self, PyObject *value, void *closure)
 {
+    if (!Envelope_has_value(value))
+        return -1;
+
     double sustain  = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -325,6 +352,9 @@ Envelope_get_release(Envelope *self, void *closure)
 static int
 Envelope_set_release(Envelope *self, PyObject *value, void *closure)
 {
+    if (!Envelope_has_value(value))
+        return -1;
+
     double release = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
@@ -360,6 +390,9 @@ Envelope_get_overshoot(Envelope *self, void *closure)
 static int
 Envelope_set_overshoot(Envelope *self, PyObject *value, void *closure)
 {
+    if (!Envelope_has_value(value))
+        return -1;
+
     double overshoot = PyFloat_AsDouble(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
-- 
2.43.0


From 7aeded6ecb2b837341d5a2eebe2856d292284242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 29/40] fix: C envelope accepted NaN for its parameters

---
 klang/audio/_envelope.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 7b860bf..01a98d3 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -247,7 +247,7 @@ Envelope_set_attack(Envelope *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (attack < 0) {
+    if (!(attack >= 0)) {
         PyErr_SetString(PyExc_ValueError, "attack must be positive!");
         return -1;
     }
@@ -285,7 +285,7 @@ Envelope_set_decay(Envelope *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (decay < 0) {
+    if (!(decay >= 0)) {
         PyErr_SetString(PyExc_ValueError, "decay must be positive!");
         return -1;
     }
@@ -361,7 +361,7 @@ Envelope_set_release(Envelope *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (release < 0) {
+    if (!(release >= 0)) {
         PyErr_SetString(PyExc_ValueError, "release must be positive!");
         return -1;
     }
@@ -399,7 +399,7 @@ Envelope_set_overshoot(Envelope *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (overshoot < 0) {
+    if (!(overshoot >= 0)) {
         PyErr_SetString(PyExc_ValueError, "overshoot must be positive!");
         return -1;
     }
-- 
2.43.0


From 55ccc823fcd8378ffe3a383a2ef1dd65eb30e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 30/40] fix: C envelope did not validate its initial parameters

---
 klang/audio/_envelope.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 01a98d3..e84c762 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -556,13 +556,38 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
         "attack", "decay", "sustain", "release", "dt", "overshoot", "retrigger",
         "loop", NULL
     };
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ddddd|dpp", kwlist, &self->attack,
-                &self->decay, &self->sustain, &self->release, &self->dt, &self->overshoot,
-                &self->retrigger, &self->loop)
+    double attack, decay, sustain, release, dt;
+    double overshoot = self->overshoot;
+    int retrigger = self->retrigger;
+    int loop = self->loop;
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ddddd|dpp", kwlist, &attack,
+                &decay, &sustain, &release, &dt, &overshoot, &retrigger, &loop)
     )
         return -1;
 
-    self->overshoot = clip(self->overshoot, 1e-9, 1e9);  // Headroom
+    if (!(attack >= 0 && decay >= 0 && release >= 0 && overshoot >= 0)) {
+        PyErr_SetString(PyExc_ValueError, "attack, decay, release and overshoot must be positive!");
+        return -1;
+    }
+
+    if (!(LOWER <= sustain && sustain <= UPPER)) {
+        PyErr_SetString(PyExc_ValueError, "sustain not within bounds!");
+        return -1;
+    }
+
+    if (!(dt > 0)) {
+        PyErr_SetString(PyExc_ValueError, "dt must be positive!");
+        return -1;
+    }
+
+    self->attack = attack;
+    self->decay = decay;
+    self->sustain = sustain;
+    self->release = release;
+    self->dt = dt;
+    self->retrigger = retrigger;
+    self->loop = loop;
+    self->overshoot = clip(overshoot, 1e-9, 1e9);  // Headroom
     Envelope_compute_base_values_and_coefficients(self);
     return 0;
 }
-- 
2.43.0


From 6ed56aaeb4331cd793caa568a26865389ea54f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 31/40] fix: curves of the Python envelope left [0, 1] and
 diverged for short durations

---
 klang/audio/envelope.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 89d8502..2d751e6 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -135,8 +135,9 @@ def calculate_transfer_function(duration, overshoot=DEFAULT_OVERSHOOT):
         tuple: Transfer function coefficients.
     """
     coeff = calculate_coefficient(duration, overshoot)
-    numerator = (coeff, )
-    denominator = (1., coeff - 1.)
+    pole = math.exp(-coeff)
+    numerator = (1. - pole, )
+    denominator = (1., -pole)
     return numerator, denominator
 
 
-- 
2.43.0


From 04d43e9b7395d3c010829244180f3572674cade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 32/40] fix: curves of the Python envelope jumped where one
 stage took over from another

---
 klang/audio/envelope.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 2d751e6..5957ceb 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -174,16 +174,22 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             sample buffer from another sample generator.
 
     Yields:
-        tuple: Samples array and last filter state (or target value if there was
-        no crossover).
+        tuple: Samples array and level which comes next (target value at the end
+        of the curve).
     """
     rate = SAMPLING_RATE * duration
     nSamples = int(time_needed(start, target, rate, overshoot))  # rate -> samples
 
     # Arguments for lfilter
     tf = calculate_transfer_function(rate, overshoot)
-    targetArr = full(BUFFER_SIZE, target + sign(target - start) * overshoot)
-    zi = [start]
+    finalLevel = target + sign(target - start) * overshoot
+    targetArr = full(BUFFER_SIZE, finalLevel)
+
+    # The filter state lacks the share of the next input sample. Chosen such
+    # that the curve begins with the start value itself.
+    (offset, ), _ = tf
+    offset *= finalLevel
+    zi = [start - offset]
 
     # Prepend samples to first output
     if prepend is not None:
@@ -195,7 +201,7 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             yield samples, target
             return
 
-        yield samples, zi[0]
+        yield samples, zi[0] + offset
         nSamples -= available
 
     assert nSamples >= 0
@@ -203,11 +209,11 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     fullCycles, remainder = divmod(nSamples, BUFFER_SIZE)
     for _ in range(fullCycles):
         samples, zi = lfilter(*tf, targetArr, zi=zi)
-        yield samples, zi[0]
+        yield samples, zi[0] + offset
 
     if remainder > 0:
         samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
-        yield samples, zi[0]
+        yield samples, target
     else:
         yield SENTINEL_ARRAY, target
 
-- 
2.43.0


From 74f6682d3369cdc7b09ca348013c7f9f565fc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 33/40] fix: Python envelope dropped the last samples of each
 stage

---
 klang/audio/envelope.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 5957ceb..617a1d3 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -378,10 +378,14 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self):
-        """Advance to next envelope stage."""
+    def go_to_next_stage(self, prepend=None):
+        """Advance to next envelope stage.
+
+        Kwargs:
+            prepend (array): Samples to prepend. Rest of the finished stage.
+        """
         nextStage = self.determine_next_stage()
-        self.switch_stage(nextStage)
+        self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
         """Get next BUFFER_SIZE envelope samples.
@@ -394,7 +398,7 @@ class Envelope:
         """
         samples, self.value = next(self.sampleGenerator)
         while generator_finished(samples):
-            self.go_to_next_stage()
+            self.go_to_next_stage(samples)
             samples, self.value = next(self.sampleGenerator)
 
         return samples
-- 
2.43.0


From 4de3ae3a0338515167fefee096f38ebdcd1e09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 34/40] fix: looping Python envelope without any duration never
 returned

---
 klang/audio/envelope.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 617a1d3..54e2400 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -195,7 +195,10 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     if prepend is not None:
         missing = BUFFER_SIZE - prepend.size
         available = min(nSamples, missing)
-        tail, zi = lfilter(*tf, targetArr[:available], zi=zi)
+        tail = SENTINEL_ARRAY
+        if available > 0:
+            tail, zi = lfilter(*tf, targetArr[:available], zi=zi)
+
         samples = np.concatenate([prepend, tail])
         if generator_finished(samples):
             yield samples, target
@@ -378,13 +381,17 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self, prepend=None):
+    def go_to_next_stage(self, prepend):
         """Advance to next envelope stage.
 
-        Kwargs:
+        Args:
             prepend (array): Samples to prepend. Rest of the finished stage.
         """
         nextStage = self.determine_next_stage()
+        if self.stage is Stage.RELEASING and nextStage is Stage.ATTACKING:
+            # Touch ground. A loop without any duration would never end otherwise
+            prepend = np.append(prepend, LOWER)
+
         self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
-- 
2.43.0


From 66b720d52c17ad701d6b9bd917e767e8f985f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 35/40] fix: Kick did not integrate its falling frequency, so
 that its phase jumped at each buffer

---
 klang/audio/synthesizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 2cb620f..6c5c8de 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -9,7 +9,8 @@ import numpy as np
 
 from klang.audio.envelopes import D
 from klang.audio.helpers import DT, MONO_SILENCE, T
-from klang.audio.waves import sample_wave
+from klang.audio.oscillators import sample_phase
+from klang.audio.waves import sine
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
@@ -280,5 +281,5 @@ class Kick(Block):
 
         frequency, _ = sample_pitch_decay(self.frequency, self.pitchDecay, self.intensity, self.currentTime)
         env, self.currentTime = sample_exponential_decay(self.decay, self.currentTime)
-        signal, self.currentPhase = sample_wave(frequency, startPhase=self.currentPhase)
-        self.output.set_value(env * signal)
+        phase, self.currentPhase = sample_phase(frequency, startPhase=self.currentPhase)
+        self.output.set_value(env * sine(phase))
-- 
2.43.0


From e054f89cc0ccf3d8e4d25869e20f017421651a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 36/40] fix: blocks with a relay as output (e.g. StereoDelay)
 could not be mixed with +

---
 klang/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/block.py b/klang/block.py
index 584ce70..3de1c7a 100644
--- a/klang/block.py
+++ b/klang/block.py
@@ -18,7 +18,7 @@ defined here (for operation overloading).
 """
 import functools
 
-from klang.connections import OutputBase, InputBase, Output, Input
+from klang.connections import OutputBase, InputBase, Output, Input, Relay
 
 
 def input_connections(block):
@@ -145,8 +145,8 @@ def mix_operator(left, right):
     """
     leftOutput = fetch_output(left)
     rightOutput = fetch_output(right)
-    if not isinstance(leftOutput, Output)\
-        or not isinstance(rightOutput, Output):
+    if not isinstance(leftOutput, (Output, Relay))\
+        or not isinstance(rightOutput, (Output, Relay)):
         raise TypeError('Can not mix %s with %s' % (left, right))
 
     from klang.audio.mixer import Mixer  # Circular import for comforts
-- 
2.43.0


From 85dc9cc2101a05cba69661336bfcd31b03c90931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 37/40] fix: a refused operand of + left an additional silent
 channel in the mixer

---
 klang/audio/mixer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..0f12d3c 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -2,7 +2,7 @@
 from klang.audio.helpers import MONO_SILENCE, STEREO_SILENCE
 from klang.audio.panning import CENTER, panning_amplitudes
 from klang.block import fetch_output, Block
-from klang.connections import Input
+from klang.connections import Input, validate_connection
 
 
 __all__ = ['Mixer', 'StereoMixer']
@@ -52,8 +52,9 @@ class Mixer(Block):
         """Inplace add a new block.output or output to the mixer. Return mixer
         for concatenation.
         """
-        self.add_new_channel()
         output = fetch_output(other)
+        validate_connection(output, Input(owner=self))
+        self.add_new_channel()
         output.connect(self.inputs[-1])
         return self
 
-- 
2.43.0


From 68b5b11c09557ec80be00325578685217359a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 38/40] fix: scraped chords with notes beyond two octaves
 counted their octave twice

pitch_classes_2_chord() added the octave to the pitch and once more when
appending it ('0 5 t 3 7' became 0, 5, 10, 15, 31).
---
 klang/scraping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/scraping.py b/klang/scraping.py
index 90205c3..6c8a2c0 100644
--- a/klang/scraping.py
+++ b/klang/scraping.py
@@ -115,8 +115,9 @@ def pitch_classes_2_chord(pitchClasses):
         pitch = base + int(pc)
         if pitch < prev:
             base += SEMITONES_PER_OCTAVE
+            pitch += SEMITONES_PER_OCTAVE
 
-        chord.append(base + pitch)
+        chord.append(pitch)
         prev = pitch
 
     return np.array(chord)
-- 
2.43.0


From 5cae5a9af545305f071ddf72d2f5585baf4a4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 39/40] fix: chords of the database with notes an octave too
 high

The entries were scraped with the octave counted twice, the three augmented
sixth chords were glued to one.
---
 klang/music/data/chords.csv | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/klang/music/data/chords.csv b/klang/music/data/chords.csv
index 955788f..2d03b06 100644
--- a/klang/music/data/chords.csv
+++ b/klang/music/data/chords.csv
@@ -1,52 +1,52 @@
 augmented chord,0,4,8
-augmented eleventh chord,0,4,7,10,14,30
+augmented eleventh chord,0,4,7,10,14,18
 augmented major seventh chord,0,4,8,11
 augmented seventh chord,0,4,8,10
-augmented sixth chord,0,6,100,16,30,124,40,55,58
+augmented sixth chord,0,6,10
 diminished chord,0,3,6
 diminished major seventh chord,0,3,6,11
 diminished seventh chord,0,3,6,9
 dominant,0,4,7
-dominant eleventh chord,0,4,7,10,14,29
+dominant eleventh chord,0,4,7,10,14,17
 dominant minor ninth,0,4,7,10,13
 dominant ninth,0,4,7,10,14
 dominant parallel,0,3,7
 dominant seventh chord,0,4,7,10
 dominant seventh flat five chord,0,4,6,10
 dominant seventh sharp nine,0,4,7,10,15
-dominant thirteenth chord,0,4,7,10,14,29,33
+dominant thirteenth chord,0,4,7,10,14,17,21
 dream chord,0,5,6,7
-elektra chord,0,7,9,13,28
-farben chord,0,8,11,16,33
+elektra chord,0,7,9,13,16
+farben chord,0,8,11,16,21
 half-diminished seventh chord,0,3,6,10
 harmonic seventh chord,0,4,7,10
 hendrix chord,0,4,7,10,15
 leading-tone triad,0,3,6
 lydian chord,0,4,7,11,18
-magic chord,0,1,5,6,10,12,27,29
+magic chord,0,1,5,6,10,12,15,17
 major chord,0,4,7
-major eleventh chord,0,4,7,11,14,29
+major eleventh chord,0,4,7,11,14,17
 major ninth chord,0,4,7,11,14
 major seventh chord,0,4,7,11
 major seventh sharp eleventh chord,0,4,8,11,18
 major sixth chord,0,4,7,9
 major sixth ninth chord,0,4,7,9,14
-major thirteenth chord,0,4,7,11,14,30,33
+major thirteenth chord,0,4,7,11,14,18,21
 mediant,0,3,7
 minor chord,0,3,7
-minor eleventh chord,0,3,7,10,14,29
+minor eleventh chord,0,3,7,10,14,17
 minor major seventh chord,0,3,7,11
 minor ninth chord,0,3,7,10,14
 minor seventh chord,0,3,7,10
 minor sixth chord,0,3,7,9
 minor sixth ninth chord,0,3,7,9,14
-minor thirteenth chord,0,3,7,10,14,29,33
+minor thirteenth chord,0,3,7,10,14,17,21
 mu chord,0,2,4,7
-mystic chord,0,6,10,16,33,38
+mystic chord,0,6,10,16,21,26
 neapolitan chord,1,5,8
 ninth augmented fifth chord,0,4,8,10,14
 ninth flat fifth chord,0,4,6,10,14
-northern lights chord,1,2,8,12,27,30,31,34,35,40,55
+northern lights chord,1,2,8,12,15,18,19,22,23,28,31
 ode-to-napoleon hexachord,0,1,4,5,8,9
 p5,0,7
 petrushka chord,0,1,4,6,7,10
@@ -57,7 +57,7 @@ secondary leading-tone chord,0,3,6
 secondary supertonic chord,0,3,7
 seven six chord,0,4,7,9,10
 seventh suspension four chord,0,5,7,10
-so what chord,0,5,10,15,31
+so what chord,0,5,10,15,19
 subdominant,0,4,7
 subdominant parallel,0,3,7
 submediant,0,3,7
-- 
2.43.0


From b553347dfb900ba8ab53c6bbe399805880cbffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:34 +0000
Subject: [PATCH 40/40] fix: the number of channels of a sequencer left out
 channels added later

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index c6a4913..8e60c07 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -288,7 +288,7 @@ class Sequencer(Composite):
     @property
     def nChannels(self) -> int:
         """Number of channels."""
-        return len(self.pattern)
+        return len(self.sequences)
 
     def apply_micro_rhythm(self, microRhythm, channel):
         """Apply micro rhythm to all or one specific sequence(s)."""
-- 
2.43.0


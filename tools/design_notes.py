"""Per property: what is specified, against which oracle, and what the solver decides that tests cannot."""
NOTES = {
 'C01': 'Adjacency bits / wiring choices are symbolic booleans. Oracle: a set based model of reachability - the order must hold exactly the nodes reachable (in either direction) from the start, each once, with every non-loop edge going forward. One query family covers every graph of the size instead of a few drawn ones.',
 'C02': 'Reference model: a set of (source, sink) pairs. After every step of every call history the two sides of each connector are compared with the model; refused calls must leave all connectors as they were.',
 'C03': 'Reference model: a dict "who is my source" plus the last value set at each output; values are symbolic reals, so equality is a term identity, not a sampled comparison.',
 'C04': 'Reference model: one list of pending messages per input. Messages are symbolic integers; the receive results are compared with the model for every history and fill level around the limit of 50.',
 'C05': 'Oracle: the edges which the operator expression denotes, and for + the arithmetic mean over all operands as a term over symbolic signals and gains.',
 'C06': 'Oracle: the inner wiring alone. The recorded call order of the inner blocks has to be an execution order of the inner graph (as in C01); outer connectors are compared before and after.',
 'C07': 'Oracle: multiset count over the (recursively flattened) execution order; warning iff some count exceeds one. Execution orders are symbolic choices.',
 'C10': 'Oracle: the plain Python list of everything written; position, length and all values symbolic, each output element is compared with the list element the delay line has to hold.',
 'C11': 'Oracle: the recurrence, unrolled over the whole stream by the check itself; all samples and coefficients are symbolic, so equality is polynomial identity (z3 nonlinear real arithmetic) for every chunking.',
 'C12': 'The C source is compiled to LLVM IR (clang -O0) on every run and interpreted symbolically with a byte-accurate, bounds- and lifetime-checked memory, reference counts included. Same recurrences as C11 as oracle, plus: no access outside of an object, no leak, no over-release, every refused call raises and leaves the state. Counterexamples are replayed on the extension compiled from the current tree with the sandbox compiler.',
 'C13': 'Same IR engine. Oracle: a stage automaton (off / attack / decay / sustain / release) plus interval and monotony assertions on the output; per sample factors and levels symbolic, so one step covers every reachable level.',
 'C14': 'Same IR engine. Oracle: the documented validity predicate of every parameter; a refused setting must leave the whole C structure (every field) unchanged, a valid one must make the structure equal to a fresh one with these parameters.',
 'C15': 'Oracle: the same stage automaton as C13 against the Python implementation; lfilter is its documented recurrence over symbolic samples.',
 'C16': 'Oracle: the recurrence of a delay line with feedback over the whole stream, symbolic samples, feedback and mix.',
 'C17': 'Oracle: the phase as exact sum of frequency * dt (mod 2 pi) from the very first sample. Sine is uninterpreted, so outputs agree only if their phase terms agree.',
 'C18': 'Oracle: per shape range, period, symmetry and special points; the phase is one symbolic real. LFO: affine image of the wave.',
 'C19': 'Oracle: the closed law at edges, centre and (linear) everywhere; symmetry l(-x) = r(x); monotony over pairs of symbolic pan levels.',
 'C20': 'Oracle: mean over channels of gain * pan amplitude * signal as a term over symbolic signals.',
 'C21': 'Oracle: frame i, channel c of the interleaved buffer is sample i of input c, for symbolic samples in every mixture of input shapes.',
 'C22': 'Oracle: number of buffers = ceil(duration / buffer) with exact rationals; per-buffer call counts and clock, output concatenation, fade-out as term.',
 'C23': 'Oracle: value / scale within one quantum and the range limits; bit-exact for integers (mathematical integers with the C wrap-around modelled by casts).',
 'C24': 'Oracle: the formula of each effect over symbolic samples; the input array object is compared before and after.',
 'C25': 'Oracle: a list based tape model (region, position, loop flag); region, block sizes and history symbolic.',
 'C26': 'Oracle: tape model over the file frames, play / pause / stop automaton; file frames are symbolic.',
 'C27': 'Oracle: unrolled difference equation of the filter over the concatenated stream; scipy design functions are stand-ins which depend on all their arguments, so a mixed up argument or a filter state lost between buffers changes the term.',
 'C28': 'Oracle: product / blend of the parts (the parts have checks of their own), all signal samples symbolic.',
 'C29': 'Oracle: 0 < coefficient < 1, the -60 dB functional equation through an uninterpreted exp with axioms, and the stream model sum of taps.',
 'C30': 'Oracle: list of held notes with max / min / last / first. Pitches symbolic and distinct; the note which sounds is compared after every message.',
 'C31': 'Oracle: map pitch -> voice; every note-off has to reach the voice which holds the note, also when on and off share a buffer or a pitch repeats.',
 'C32': 'Oracle: one independent model voice per copy; output = amplitude * envelope * oscillator as term.',
 'C33': 'Oracle: the documented predicate (pitch, velocity) and field-wise equality after the round trip.',
 'C34': 'Oracle: list of (end time, note); each note-off is sent exactly at the first update at or after its end, for symbolic clocks.',
 'C35': 'Oracle: list of sounding notes limited to n; every dropped note gets exactly one note-off.',
 'C36': 'Oracle: per update, channels in order, each message once - symbolic payloads.',
 'C37': 'Oracle: sorted list of held pitches walked by the named order; pitches symbolic and distinct, so every ordering case is decided by the solver.',
 'C38': 'Oracle: on/off balance per pitch plus "at most one sounding"; interval positions from exact rationals.',
 'C39': 'Oracle: floor of the angle over the slice, and the list of slices between two phases; both symbolic reals.',
 'C40': 'Oracle: the position of step i in exact rationals of tempo, beat and grid; the messages of each buffer are compared with the list the pattern denotes.',
 'C41': 'Oracle: monotone, piecewise linear warp; two symbolic phases decide monotony for all pairs.',
 'C42': 'Oracle: exact rational identities between the conversions.',
 'C43': 'Oracle: number theoretic definitions written without the helper functions of klang.',
 'C44': 'Oracle: (2 - 1/2^d) * base; inverse function identities for symbolic base values.',
 'C45': 'Oracle: a hand written recogniser of note names over symbolic characters; accepted iff recognised, value by the formula.',
 'C46': 'Oracle: functional equations (octave, concert pitch, monotone) over symbolic pitches and ratios.',
 'C47': 'Oracle: bit set model of a scale with 12 symbolic bits.',
 'C48': 'Oracle: multiset modulo 12 and sortedness for symbolic pitches.',
 'C49': 'Oracle: definition of prime by a symbolic divisor / sieve of the check.',
 'C50': 'Oracle: the recursive definition of the edit distance over symbolic characters, metric axioms.',
 'C51': 'Oracle: map key -> pitch started; every release has to end that note whatever happened to octave, velocity and temperament in between.',
 'C52': 'Oracle: the status byte / 7 bit ranges and monotony in velocity, for symbolic pitch, velocity and channel.',
 'C53': 'Oracle: count of pulses and gap lengths floor/ceil(n/k), for symbolic numbers.',
 'C54': 'Oracle: identity after encode / decode with symbolic elements; datagram sequences against a list model. JSON text is opaque (what was dumped is loaded), malformed kinds are enumerated.',
 'C55': 'Oracle: one edge per period from the exact phase sum with symbolic frequency and duty cycle.',
 'C56': 'Oracle: width, percent = floor(100 i / n), monotony; time is an arbitrary non-decreasing clock.',
 'C57': 'Oracle: the algebraic contract of each helper over all reals / bounded integers.',
 'C58': 'Oracle: a grid model of the row (columns of each note, bars) and exact positions.',
 'C59': 'Oracle: gate events in note order applied to a second, directly driven envelope.',
 'C60': 'Oracle: phase integral and decay of the hit; restart iff a note-on is among the messages.',
 'C61': 'Oracle: set model over symbolic adjacency bits.',
 'C62': 'Random generator = arbitrary values of its contract (symbolic); oracle: length, period and range predicates.',
 'C64': 'Oracle: capacity and squareness of the layout, the number read back from a label, positions of the pitches.',
 'C63': 'Oracle: chords as stacks of pitch classes (next note of its class above the predecessor), degrees against the major scale, page tables given as elements of the parser; entries of the committed chord database.',
}

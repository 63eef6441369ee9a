#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})
U="src/utils/mod.rs"; SF="src/sample_format/mod.rs"; RES="src/utils/mono_resampler.rs"
G="src/generators/"; M="src/modifiers/"; S="src/sounds/"; CH="src/channels/standard_channel.rs"

p("C01","A recording reported as written is completely and exactly on the sink",
 "When saving channels of samples as a WAV stream reports success, the sink has accepted and been asked to flush one complete, well-formed file: 48 kHz, the requested bit depth (8, 16 or 24) and channel count, and every sample of every channel, interleaved in order and rounded to the nearest quantisation step (24-bit: within one step), clamped to [-1,1] first when clipping is requested. This holds however the sink shortens, splits or interrupts the individual writes, and none of that alone makes a request fail. A request that cannot be encoded (no channels, channels of unequal length, an unsupported bit depth, more channels than the format can describe) is refused with an error and nothing is written.",
 ["inputs","fault_sequences"],"every set of channels, bit depth and clip flag, over every sink that may accept fewer bytes than offered or be interrupted at any write",
 "The tests write to a real file with std's File, which accepts every write whole, and never read the file back; no short or interrupted write is ever delivered.",
 [U,SF],[("write_wav: validate, clip, interleave, quantise, hand over to the wav crate",U),("sample_to_u8/i16/i24 quantisers",SF)],
 observe=["the bytes and flushes received by the Write argument","the returned Result"])
p("C02","A recording that cannot be completed is always reported",
 "If the sink fails permanently at any point while a recording is being saved (an I/O error, a full disk, a sink that accepts no more bytes, a failing flush), saving returns an error: it never reports success, panics, or retries without end. An error that the sink reports once is either reported or made good by writing again what was refused. The bytes the sink did accept are an exact prefix of the complete file.",
 ["fault_sequences","crash_points","inputs"],"every position at which the sink starts to fail, every failure kind, combined with short and interrupted writes before it",
 "No test injects a failing writer; success on a healthy file system says nothing about the error paths.",
 [U],[("? propagation from the wav encoder and the sink",U)],observe=["bytes accepted by the Write argument","number of write calls after failure","the returned Result"])
p("C03","Loading returns exactly the stored audio however the stream is delivered",
 "For every well-formed uncompressed 8-, 16- or 24-bit PCM WAV stream, loading returns the stored format description and, for every channel, every stored sample in order, scaled to full scale [-1,1] with its sign. The result does not depend on how the source chops up or interrupts delivery, nor on which additional chunks the file carries or where they stand. No byte after the end of the file is consumed from the source.",
 ["inputs","schedules","fault_sequences"],"every well-formed file (channels, rate, depth, length, extra chunks in any position) times every sequence of read sizes and interruptions",
 "No test reads a WAV at all (test_monowav is empty), so neither chunk layout, channel separation, sign nor short reads are exercised.",
 [U,SF],[("read_wav: parse through the wav crate, de-interleave by channel, scale",U),("sample_from_u8/i16/i24 scalers",SF)],
 observe=["the returned header and tracks","bytes pulled from the Read argument"])
p("C04","Damaged, truncated or failing input is refused cleanly",
 "Loading (read_wav) from a source that ends early, fails, or delivers corrupted, hostile or non-WAV bytes never panics, hangs, exhausts the stack, or reserves memory out of proportion to the bytes actually delivered. A file cut short at any byte, or a source that fails permanently before the file is complete, always yields an error and never partial audio presented as success; after a failure that happens once, success is only reported with the whole audio.",
 ["crash_points","fault_sequences","inputs"],"every truncation point, every read failure point and kind, and every pattern of flipped or hostile bytes in header and chunk fields",
 "No test feeds a malformed or failing source.",
 [U],[("read_wav input handling and error propagation",U)],observe=["the returned Result","panics, allocation volume and termination of the call"])
p("C05","A recording survives save, power cut and reload, or is refused",
 "When a recording with samples in [-1,1] is saved and power is cut at any byte of the file, loading what survived returns an error unless the whole file survived, in which case every channel comes back complete and in order with each sample within one quantisation step of the recorded value, sign included. Saving a reloaded 8- or 16-bit recording again at the same depth reproduces the file byte for byte.",
 ["crash_points","inputs"],"every recording, bit depth and channel count, every surviving prefix length",
 "The tests never reload what they write, so loss, sign or scale errors between the two directions go unseen.",
 [U,SF],[("write_wav / read_wav pair",U),("sample_to_* and sample_from_* pairs",SF)],observe=["surviving bytes of the simulated disk","tracks returned by the reload"])
p("C06","The in-memory byte source is lossless under any read schedule",
 "Reading from the in-memory byte source delivers every byte of its payload exactly once and in order, whatever sequence of buffer sizes (including empty buffers) and readers is used, never touches the buffer beyond the count it reports, and then reports end of data on every later read.",
 ["schedules","inputs"],"every payload and every sequence of read calls and buffer lengths",
 "No test uses this reader.",["src/debug.rs"],[("VecReader::read cursor","src/debug.rs")],[("pos","next byte to deliver","src/debug.rs")],["bytes and counts returned by read"])
p("C07","The binary-to-table tool never reports success for an incomplete table",
 "When the tool that turns a binary file into a source table exits successfully, its output is one table that holds every byte of the input file, in order and with its value, whatever partial reads, partial writes or interruptions the file system delivers. If reading the input or writing the output fails, the tool ends with an unsuccessful status.",
 ["inputs","fault_sequences"],"every input file and every sequence of short, interrupted or failing reads and writes",
 "The utility has no tests.",["utility/bin2str/src/main.rs"],[("convert_file / byte2char formatting, main I/O","utility/bin2str/src/main.rs")],observe=["exit status and output.rs of the real binary"])
p("C08","Clip playback keeps exact time under live speed changes",
 "Playing a non-looping clip yields at every output sample the clip linearly interpolated at the position reached by summing (source rate / 48 kHz) x playback speed, for every source rate and every live schedule of speed changes (speeds of zero and above), and the speed reads back as last set. Timing error does not accumulate with clip length: long clips neither drift nor stall. The last frame is held until the position passes the end, after which the player is silent for ever.",
 ["histories","inputs"],"every clip length and source rate, every history of speed changes at arbitrary samples, arbitrarily long playback",
 "The one test plays four frames at three fixed ratios; long-run accumulation and mid-play speed changes are never reached.",
 [RES,G+"mono_wav.rs"],[("MonoResampler::process position accumulator and interpolation",RES),("MonoWav::from_source/from_track",G+"mono_wav.rs")],[("ind","playback position in source frames",RES),("inc/speed","frames advanced per output sample",RES)],["samples returned by process"])
p("C09","A looping clip stays seamlessly inside its loop for ever",
 "Once playback of a looping clip reaches the loop end it continues from the loop start with the same overshoot, interpolating the last looped frame towards the first, and keeps repeating only frames of the loop: it never panics, leaves the loop or falls silent. This holds for all loop bounds (bounds given in reverse order are exchanged, an end past the clip means the clip's end, bounds that enclose no frame mean no loop), every source rate and every schedule of non-negative speed changes, including steps longer than the loop.",
 ["histories","inputs","configurations"],"every clip, pair of loop bounds, source rate and history of speed changes",
 "Every resampler in the tests is created without a loop.",
 [RES],[("loop wrap and seam interpolation in MonoResampler::process",RES)],[("loop_start/loop_end","loop bounds in frames",RES)],["samples returned by process"])
p("C10","Oscillators stay in tune and in phase through live retuning",
 "For every schedule of frequency changes within (0, 24 kHz), the sine, sawtooth, square and triangle generators output, at every sample, the ideal waveform (starting at phase 0, amplitude within [-1,1]) evaluated at the accumulated phase: a change takes effect from the next step, without a phase jump or change of direction. The frequency always reads back as last set.",
 ["histories","inputs"],"every sequence of frequency changes at arbitrary samples, over long runs",
 "The tests render a single period at 440 Hz and never change the frequency.",
 [G+"sine.rs",G+"sawtooth.rs",G+"square.rs",G+"triangle.rs"],[("phase accumulators and wrap logic",G+"sine.rs"),("set_frequency/get_frequency",G+"triangle.rs")],[("ind/inc","oscillator phase",G+"sine.rs")],["samples returned by process","get_frequency"])
p("C11","Noise is white, bounded and independent for any entropy and interleaving",
 "Every noise generator emits samples in [-1,1] that are uniformly distributed and uncorrelated in time, and generators (including clones, generators on other threads and generators of another process run) emit unrelated sequences, whatever entropy the operating system supplies and however calls to several generators interleave.",
 ["schedules","inputs"],"every entropy supply and every interleaving of calls to any number of generators",
 "test_noise is empty; elsewhere noise only feeds other modules.",[G+"noise.rs"],[("Noise::process over the thread RNG",G+"noise.rs")],observe=["samples returned by process"])
p("C12","An ADSR envelope follows its stages and always ends after release",
 "Whatever the attack, decay and release times (zero included), sustain level (clamped to at most 0 dB, minus infinity allowed) and instant of release, the gain applied to the signal rises linearly to 1 in the attack time, falls linearly to the sustain level in the decay time, holds there, and after release falls without jumps to exactly zero and stays there; it is always a number within [0,1]. From the sustain level the fall takes the release time, and from any other moment it is over no later than the release time; further release requests change nothing.",
 ["histories","schedules","inputs"],"every combination of times and level, every instant (and repetition) of release",
 "One test writes a file for one setting with release during sustain and checks nothing.",
 [M+"adsr.rs"],[("ADSR state machine",M+"adsr.rs")],[("state/g","stage and current gain",M+"adsr.rs")],["ratio of output to input of process"])
p("C13","Filters stay finite and settle under live automation",
 "For cutoffs, corners and follower frequencies of at least 20 Hz (follower frequencies below 24 kHz), and any bounded input and any history of cutoff, resonance, quality and corner changes, the low-pass, high-pass, band-pass, envelope-follower and (feedback below 1) echo outputs are always finite. Once the settings are held, the output returns to the range given by the filter's own gain and the input level, and when the input stops it decays to silence.",
 ["histories","inputs"],"every history of parameter changes between held settings, every bounded input signal",
 "Tests filter one second of noise at a few settings and do not look at the output.",
 [M+"lowpass.rs",M+"highpass.rs",M+"bandpass.rs",M+"envelope.rs",M+"echo.rs"],[("coefficient computation and recursion",M+"lowpass.rs")],[("outs/x*/y*","filter memory",M+"highpass.rs")],["samples returned by process"])
p("C14","Every filter computes its configured response through any retuning history",
 "At every sample the output of the low-pass, high-pass, band-pass, envelope-follower, generic pole/zero (taps in any order), gain and passthrough filters is their defining difference equation applied to the actual input and output history with the coefficients of the current settings (band-pass corners below the Nyquist frequency). Changing a setting changes the coefficients from the next sample and nothing else, and each setting reads back as set, limited to its documented range. Held settings give the response the filter is named for: the low-pass passes DC and rejects far above its cutoff, the high-pass the reverse, the band-pass passes its centre and rejects both sides.",
 ["histories","inputs"],"every history of setting changes at arbitrary samples, every input signal",
 "Filter tests only write files; no output, coefficient or getter is compared with anything.",
 [M+"lowpass.rs",M+"highpass.rs",M+"bandpass.rs",M+"envelope.rs",M+"generic.rs",M+"gain.rs",M+"passthrough.rs"],[("reset(): coefficient derivation",M+"bandpass.rs"),("process(): recursion and history shift",M+"generic.rs")],[("coeff/a*/b*","coefficients",M+"lowpass.rs")],["samples returned by process","getters"])
p("C15","Delay and echo keep exact time for any signal and duration",
 "A delay returns each input sample unchanged exactly its configured time later (rounded to the nearest sample) and silence before that, and reports that time. An echo returns the input plus its gain times its own output one configured time earlier (whole samples, at least one). Neither ever panics, loses or duplicates a sample, or grows with the length of the signal, for any duration including zero.",
 ["histories","inputs"],"every duration and gain, every signal and call history, arbitrarily long",
 "Tests run one half-second delay over noise and write a file; contents, zero durations and memory are not checked.",
 [M+"delay.rs",M+"echo.rs"],[("VecDeque delay line",M+"delay.rs"),("feedback line",M+"echo.rs")],[("delay","samples in flight",M+"delay.rs")],["samples returned by process","allocator"])
p("C16","Blocks and simple sounds combine their parts exactly, sample by sample",
 "A block's output is its combining function applied to its generator's next sample and to its modifier's response to the sum of all input primed since it last ran, each part advancing exactly once per run, and primed input is consumed by the run. A simple sound is exactly output gain x (its modifiers in order of addition applied to its generator block, itself fed input gain x input), for every interleaving of gain changes, modifier additions and processing; the gains read back as set.",
 ["histories","schedules","inputs"],"every interleaving of priming, processing, gain changes and modifier additions",
 "test_blocks compares one unprimed generator block with itself; sound tests only write files.",
 [S+"standard_block.rs",S+"simple_sound.rs"],[("StandardBlock::prime_input/process",S+"standard_block.rs"),("SimpleSound::process chain",S+"simple_sound.rs")],[("input","primed input",S+"standard_block.rs")],["samples returned","calls received by instrumented parts"])
p("C17","Pause freezes and mute silences, at any instant and in any order",
 "While a sound (simple or graph-based) is paused its output is silence and nothing inside it advances; while it is muted its output is silence but everything inside it advances exactly as if audible. After any sequence of toggles the reported states match the parity of the toggles, and the audible output continues exactly where a sound that had only been processed for the non-paused samples would be.",
 ["histories","schedules"],"every interleaving of pause and mute toggles (including duplicated ones) with processing",
 "No test calls pause or mute.",[S+"simple_sound.rs",S+"complex_sound.rs"],[("is_paused/is_muted handling in Sound::process",S+"simple_sound.rs"),("is_paused/is_muted handling in Sound::process",S+"complex_sound.rs")],observe=["samples returned","advance counts of instrumented parts"])
p("C18","A sound graph delivers every signal once, in the same sample",
 "In every sample an unpaused graph-based sound runs each of its blocks exactly once, feeds each block exactly the sum of the outputs of its direct predecessors, applies the input gain to the external input and returns the output gain stage's output. For connections that form no cycle (and do not lead into the input stage or out of the output stage) delivery happens within the same sample, regardless of the order in which blocks and connections were added; a feedback connection delivers exactly once, one sample later at most. Processing terminates for every graph, cycles included.",
 ["inputs","configurations","histories"],"every graph of blocks, every order of adding blocks and connections, every input signal",
 "One test renders a single straight chain and does not look at the output.",
 [S+"complex_sound.rs"],[("process_order computation",S+"complex_sound.rs"),("priming of neighbours during process",S+"complex_sound.rs")],[("process_order","order of block execution",S+"complex_sound.rs")],["runs and inputs seen by instrumented blocks","samples returned"])
p("C19","Editing a sound graph while it plays leaves no residue",
 "Blocks and connections may be added and connections removed between any two samples of a playing graph: from the next sample on, output is that of the graph as it now stands, with every block keeping its own state, adding an existing connection or removing an absent one changing nothing, and no input or signal from before the edit piling up, being replayed or lost. The reported processing order always lists every block once, input stage first and output stage last.",
 ["histories","schedules"],"every interleaving of graph edits (repeated and inverse ones included) with processed samples",
 "The only graph test builds its graph once before processing and never edits it.",
 [S+"complex_sound.rs"],[("add_block/add_connection/remove_connection and recomputation of the order",S+"complex_sound.rs")],[("graph/process_order","graph and derived order must agree",S+"complex_sound.rs")],["samples returned","get_nodes"])
p("C20","A part held elsewhere never brings down the audio thread",
 "While another owner temporarily holds a handle to a block of a simple sound, to a block of a graph-based sound, to a sound registered with a channel, or to the generator, modifier or combining function inside a block, processing never panics and the rest keeps playing: a held generator, graph block or channel sound contributes silence, a held modifier is bypassed, a block whose combining function is held is silent. As soon as the handle is dropped the part takes part again, with the state it had, from the next sample.",
 ["schedules","histories"],"every part and every interval over which another handle is alive, at any point of playback",
 "Tests hand over their only handle and never keep another.",
 [S+"simple_sound.rs",S+"complex_sound.rs",S+"standard_block.rs",CH],[("Arc::get_mut access to shared parts",S+"simple_sound.rs")],observe=["panics","samples returned while and after a handle is held"])
p("C21","A channel mixes exactly its registered sounds into every buffer",
 "Each processing call fills the channel's buffer with exactly as many samples as the configured time holds (truncated; 10 ms initially), each being the channel gain times the sum of the next sample of every registered sound, spread over the sample format's speakers. Nothing from an earlier buffer remains, every sound advances exactly once per sample, and gain, time and membership changes between any two calls take effect with the next call.",
 ["histories","schedules","inputs"],"every interleaving of processing with adding and removing sounds and changing gain and buffer time, in mono and stereo",
 "No test touches channels.",[CH,"src/channels/mod.rs"],[("StandardChannel::process mix loop",CH),("set_process_time",CH)],[("output","buffer of the last call",CH)],["get_output after process","advance counts of instrumented sounds"])
p("C22","Channel registration gives each sound one identity and releases it",
 "Adding a sound to a channel registers it under an identifier that no other sound of that channel ever has or had, and the sound reports it. Removing that identifier unregisters exactly that sound (unless another handle to it is alive at that moment), drops the channel's hold on it and silences it from the next call on, leaving all others playing undisturbed; removing an unknown or already removed identifier changes nothing.",
 ["histories","schedules"],"every sequence of additions and (repeated, late, unknown) removals interleaved with processing",
 "No test touches channels.",[CH,S+"simple_sound.rs",S+"complex_sound.rs"],[("add_sound/remove_sound and id counter",CH)],[("sounds/id_counter","registered sounds and next identifier",CH)],["register/unregister calls and drops seen by instrumented sounds","get_id"])
p("C23","A clone taken at any instant starts fresh and shares nothing",
 "Cloning a generator or modifier at any moment of its life yields an instance with the same settings in its initial state, whose later output is what a newly built instance with these settings would give, at a memory cost comparable with the original's. Neither taking, using nor dropping the clone affects the original, nor does the original affect the clone.",
 ["histories","schedules"],"every type, every instant of cloning, every interleaving of later calls to original and clone",
 "No test clones a generator, modifier or player.",
 [G+"sine.rs",G+"triangle.rs",M+"delay.rs",M+"echo.rs",M+"generic.rs",RES,M+"adsr.rs"],[("Clone implementations",M+"delay.rs")],observe=["samples returned by original and clone","allocator"])
p("C24","Instances do not interfere, whatever the interleaving or thread",
 "Any number of generators, modifiers, players, sounds and channels used side by side, on one or several threads and in any interleaving of their calls, each produce bit for bit the output they produce when used alone.",
 ["schedules"],"every set of instances and every interleaving of their calls over threads",
 "Every test uses its objects one after the other on one thread.",
 [G+"sine.rs","src/lib.rs",S+"complex_sound.rs",CH],[("per-instance state; one lazily built shared table",G+"sine.rs")],[("WAVETABLE","lazily initialised table shared by all sines",G+"sine.rs")],["samples returned by each instance"])
p("C25","Rendering a session is reproducible bit for bit",
 "Rendering the same session (same clips, sounds, graphs and channels, same control events at the same samples, no noise generator) gives bit-identical output every time, whatever entropy the operating system hands to the process, whatever thread it runs on and whatever other work is interleaved.",
 ["schedules","configurations"],"every session, and every pair of executions that differ in OS entropy, thread and unrelated activity",
 "No test renders anything twice, and a test process sees a single draw of the OS entropy.",
 [CH,S+"complex_sound.rs"],[("iteration over registered sounds while mixing",CH)],[("sounds","container whose order decides the rounding of the mix",CH)],["channel buffers"])
p("C26","A session can go on for ever in bounded memory",
 "However long a session runs, what it holds in memory is bounded by what is registered and configured at the moment and not by its history: repeating a cycle of rendering, retuning, pausing, muting, connecting and disconnecting, changing buffer times, adding and removing sounds, cloning and dropping does not accumulate memory, and dropping everything releases everything.",
 ["histories","schedules"],"every cycle of operations on sounds, graphs, channels, generators and modifiers, repeated without end",
 "Tests run each object once for a few seconds and never look at the allocator.",
 [CH,S+"complex_sound.rs",S+"simple_sound.rs",M+"delay.rs",M+"echo.rs",M+"generic.rs"],[("removal of sounds and connections, history buffers of modifiers, output buffer",CH)],[("sounds/output/graph","containers that grow and shrink during a session",CH)],["allocator"])
p("C27","What was rendered can be saved, reloaded and played back",
 "The buffers a channel renders during any session, saved at 8, 16 or 24 bits and reloaded, give back every rendered sample (clamped to [-1,1]) of every speaker, in order, within one quantisation step, at the engine's sample rate; playing the file back through a clip player, sound and channel repeats the reloaded samples exactly and then is silent. This holds for every division into buffers, every live change during the session and every way sink and source split or interrupt the transfers; if power is cut while saving, the remains are refused.",
 ["histories","schedules","fault_sequences","crash_points"],"every session, bit depth, division into buffers, sequence of short or interrupted transfers and point of power loss",
 "The tests only write; nothing is ever reloaded or played back, and nothing rendered by a channel is saved.",
 [U,SF,CH,G+"mono_wav.rs",RES],[("StandardChannel::process -> write_wav -> read_wav -> MonoWav -> StandardChannel::process",CH)],observe=["surviving bytes","reloaded tracks","buffers of the playback channel"])
# --- not applicable to the technique -------------------------------------------------
p("N01","Sample arithmetic and conversions behave component-wise",
 "Mono and stereo samples add, subtract, negate and scale component by component; converting to and from single samples and integer vectors is consistent; conversion from a vector that is too short is refused.",
 ["inputs"],"every pair of samples and scalars","No test touches the arithmetic.",["src/sample_format/mono.rs","src/sample_format/stereo.rs",SF],[("operator and conversion impls","src/sample_format/mono.rs")])
p("N02","Panning places a sample between left and right",
 "Full left and full right panning are silent on the other side, the centre is balanced, positions outside [-1,1] are clamped, and moving right never makes the left louder.",
 ["inputs"],"every sample and position","No test touches panning.",["src/sample_format/stereo.rs"],[("Panner impls","src/sample_format/stereo.rs")])
p("N03","Unit conversions and interpolation helpers are exact inverses",
 "Sample counts and durations, and linear gains and decibels, convert back and forth without loss beyond rounding; linear interpolation passes through its end points and its clamped form never leaves them.",
 ["inputs"],"every value","Tests use one conversion as a helper and never check the inverse.",[U],[("samples_to_seconds, seconds_to_samples, linear_to_db, db_to_linear, lerp, clerp",U)])
p("N04","Normalising sets the requested peak and removes the offset",
 "Normalising any track that is not constant gives it zero mean and exactly the requested peak level; a silent or empty track stays silent and finite.",
 ["inputs"],"every track and level","Tests normalise noise before writing a file and check nothing.",[U],[("normalize",U)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

import json
L="arm-wt-22k/lib_src/"; H="arm-wt-22k/host_src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Any song bytes can be opened, inspected, played and seeked safely",
 "Whatever bytes the host offers as a song file, opening it, preparing it, collecting its metadata, reading its length, seeking in it, rendering it and closing it never accesses memory out of bounds or after release, never divides by zero or overflows a signed computation, and never hangs. Each call returns a documented result code, and the library instance stays usable for the next file.",
 ["inputs"],"every byte string presented as a Standard MIDI File, every interleaving of metadata/prepare/locate/render/close on it",
 "The tests open five well-formed files from test/res; no malformed, truncated or adversarial file is ever presented.",
 [L+"eas_smf.c",L+"eas_public.c",L+"eas_midi.c",H+"eas_hostmm.c",L+"eas_voicemgt.c"],
 [("chunk/track header checks, variable-length reads, end-of-track handling",L+"eas_smf.c SMF_ParseHeader/SMF_GetDeltaTime/SMF_ParseMetaEvent/SMF_ParseSysEx"),("parser-state error latch",L+"eas_public.c EAS_ParseEvents"),("bounded reads",H+"eas_hostmm.c EAS_HWReadFile")],
 ["sanitizer reports","result codes of every public call"])

p("C02","Any sound-bank (DLS) bytes can be loaded and played through safely",
 "Whatever bytes the host offers as a DLS collection, loading it globally or for one stream either succeeds or fails with an error code, and playing any notes on any program and bank afterwards, replacing it or unloading it at shutdown never accesses memory out of bounds or after release, divides by zero, or hangs. A failed load leaves the instance playing with the sounds it had before.",
 ["inputs"],"every byte string presented as a DLS collection, followed by any notes/programs/banks",
 "No test loads a DLS file at all.",
 [L+"eas_mdls.c",L+"eas_dlssynth.c",L+"eas_wtsynth.c",L+"eas_wtengine.c",L+"eas_voicemgt.c",L+"eas_public.c"],
 [("chunk bounds, count limits, two-pass parse with index checks",L+"eas_mdls.c DLSParser"),("region lookup",L+"eas_voicemgt.c VMFindDLSRegion"),("sample-end and loop clamping",L+"eas_wtsynth.c/eas_wtengine.c")],
 ["sanitizer reports","result codes","PCM before/after a failed load"])

p("C03","Any live MIDI byte stream is consumed safely",
 "A live MIDI stream accepts every byte sequence in any chunking, interleaved with rendering in any way: no memory error, no arithmetic fault and no hang results, the call reports success for every non-empty chunk, and afterwards a reset or a fresh stream still produces sound.",
 ["inputs","histories"],"every byte sequence written in every chunking, with rendering between the chunks",
 "No test writes to a live MIDI stream.",
 [L+"eas_midi.c",L+"eas_public.c",L+"eas_voicemgt.c",L+"eas_wtsynth.c"],
 [("byte state machine with running status and sysex states",L+"eas_midi.c EAS_ParseMIDIStream"),("controller/RPN/sysex handling",L+"eas_voicemgt.c VMControlChange/VMUpdateRPNStateMachine, eas_midi.c ProcessSysExMessage")],
 ["sanitizer reports","result codes"])

p("C04","Public calls in any order and with any argument values are answered safely",
 "Any sequence of public calls on live handles, with in-range, boundary and out-of-range argument values and in any stream state, including several streams and several live MIDI streams at once, returns a result code without memory error, arithmetic fault or hang. Calls made in a state or with a value that is not allowed return an error code rather than success.",
 ["programs","inputs","configurations"],"every sequence of public calls on open handles with arbitrary scalar arguments, in each supported build configuration (sample rate, sample width, voice count)",
 "The tests use one fixed call order per scenario with valid arguments in a single build configuration.",
 [L+"eas_public.c",L+"eas_voicemgt.c",L+"eas_reverb.c",L+"eas_chorus.c",H+"eas_config.c"],
 [("argument and state validation in each entry point",L+"eas_public.c"),("stream and synth handle tables",L+"eas_public.c EAS_AllocateStream, "+L+"eas_voicemgt.c VMInitMIDI")],
 ["sanitizer reports","result codes"])

p("C05","Everything acquired is released once songs are closed and the library shut down",
 "After every opened song and live MIDI stream has been closed and the instance shut down, all memory the library obtained has been freed exactly once, whatever happened in between: failed opens, failed sound-bank loads, parse errors, errors half-way through playback. Repeating any open/use/close cycle any number of times never exhausts memory, stream slots, synthesizer slots or file handles.",
 ["histories","inputs"],"every history of open/load/prepare/play/close calls with valid and invalid inputs that ends by closing all handles",
 "The tests run one cycle per process on good files and never look at what was released.",
 [L+"eas_public.c",H+"eas_hostmm.c",L+"eas_smf.c",L+"eas_mdls.c",L+"eas_voicemgt.c"],
 [("close/shutdown paths and reference counts",L+"eas_public.c EAS_CloseFile/EAS_Shutdown, "+L+"eas_voicemgt.c VMMIDIShutdown, "+L+"eas_mdls.c DLSCleanup"),("file-handle table with duplicates",H+"eas_hostmm.c EAS_HWDupHandle/EAS_HWCloseFile")],
 ["allocator event log (malloc/free interposition)"])

p("C06","Running out of memory at any point yields an error and never a crash or leak",
 "If any single memory request made by the library fails, at any point of initialisation, song opening, preparation, sound-bank loading or live-stream creation, the public call in progress returns an error (or degrades without error), nothing crashes, everything is released at shutdown, and the same call succeeds when retried once memory is available again.",
 ["fault_sequences"],"for every scenario, every allocation index k is failed (once, and from k on)",
 "No test injects an allocation failure.",
 [L+"eas_public.c",H+"eas_hostmm.c",L+"eas_smf.c",L+"eas_mdls.c",L+"eas_voicemgt.c",L+"eas_reverb.c",L+"eas_chorus.c",L+"eas_mixer.c"],
 [("NULL checks and error propagation after each allocation",L+"*.c EAS_HWMalloc call sites"),("clean-up on failed initialisation",L+"eas_public.c EAS_Init/EAS_Shutdown")],
 ["injected allocator faults, allocator event log, result codes, sanitizer reports"])

p("C07","Song data is read only through the host callbacks and read faults are survived",
 "Song and sound-bank data is fetched only through the host's read callback with non-negative offsets, lengths that fit the destination, and ranges that lie inside the size the host reported. If the callback fails, returns fewer bytes than asked, or the data changes between reads, the library reports an error or stops the song without memory error or hang, and short-reading callbacks never make it use bytes that were not delivered.",
 ["fault_sequences","inputs"],"every index of the read-callback sequence at which a fault (error, short read, changed content) is injected",
 "The tests' callbacks always deliver everything from an intact file.",
 [H+"eas_hostmm.c",L+"eas_smf.c",L+"eas_mdls.c",L+"eas_public.c"],
 [("clipping of every request to the reported size and conversion of short counts to end-of-file",H+"eas_hostmm.c EAS_HWReadFile"),("error propagation",L+"eas_smf.c, "+L+"eas_mdls.c")],
 ["read-callback log","sanitizer reports"])

p("C08","Playback always makes bounded progress and every finite song stops",
 "Each public call finishes within a bounded amount of work, and every song whose data is finite and readable, and whose length can be expressed in milliseconds, reaches the stopped (or error) state after rendering at most its own duration plus a bounded tail for the release of its last notes. A song with no note left sounding stops within a few buffers of its last event; once stopped or in error, further rendering delivers silence and does not restart it.",
 ["inputs","histories"],"every finite song, including ones with stuck notes, sustained pedal, extreme tempo or delta times, and any playback rate",
 "Five songs are played to the end; pathological lengths, tempos and stuck notes are not exercised.",
 [L+"eas_public.c",L+"eas_smf.c",L+"eas_voicemgt.c"],
 [("event budget per render slice",L+"eas_public.c EAS_ParseEvents"),("release of all voices at end of song and voice-count test",L+"eas_smf.c SMF_State, "+L+"eas_voicemgt.c VMReleaseAllVoices")],
 ["rendered buffer counts, stream state per buffer, read-callback counts"])

p("C09","Rendering is a deterministic function of the song, the settings and nothing else",
 "Two renderings of the same song (or live event sequence) with the same settings produce identical samples in every build of the library, regardless of uninitialised memory, addresses, what the same instance played earlier and closed, how many other instances exist, or how the host's read callback splits the data.",
 ["inputs","histories"],"every song and settings; every prior history of the instance",
 "Tests render each file once and only look at the number of bytes or at the state.",
 [L+"eas_public.c",L+"eas_mixer.c",L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"eas_wtengine.c",L+"eas_reverb.c",L+"eas_chorus.c"],
 [("complete initialisation of synth, voice, channel and effect state",L+"eas_voicemgt.c VMInitializeAllChannels/VMInitializeAllVoices, eas_wtsynth.c WT_Initialize*, eas_reverb.c ReverbInit"),("no mutable globals","all modules")],
 ["PCM compared byte by byte across runs"])

p("C10","Song time follows the file's tempo map and division",
 "The length reported for a song equals the time of its last event under its tempo map and division, accumulated over all tracks; events take effect, and the reported location advances, in real time according to that map, within one render buffer plus the rounding of the tempo to whole tick units; and with playback rate r the song takes 1/r of that time. The reported location never runs backwards except through an explicit seek or repeat.",
 ["inputs","histories"],"every tempo map, division, track layout and playback rate",
 "The tests check a handful of durations and one seek on fixed files at rate 1.",
 [L+"eas_smf.c",L+"eas_public.c",L+"eas_smfdata.c"],
 [("tick conversion and accumulated time",L+"eas_smf.c SMF_UpdateTime/SMF_ParseMetaEvent"),("time advance per buffer and playback rate",L+"eas_public.c EAS_Render/EAS_ParseEvents"),("length pre-scan",L+"eas_public.c EAS_ParseMetaData/EAS_IntSetStrmParam")],
 ["EAS_ParseMetaData length, EAS_GetLocation per buffer, onset times in the PCM, metadata callback times"])

p("C11","A render call fills exactly the requested buffer and reports it",
 "A render call for the configured buffer size succeeds, reports exactly that many frames, writes every sample of the caller's buffer and nothing beyond it, and advances the render clock by exactly one buffer; a call for any other size is refused, reports zero frames and writes nothing. With nothing playing the output is digital silence.",
 ["inputs","histories","configurations"],"every buffer size argument, every playback history, every supported sample rate",
 "Tests only count frames for the correct size and never check the bytes around or in the buffer.",
 [L+"eas_public.c",L+"eas_mixer.c",L+"eas_mixbuf.c"],
 [("size check and mixing",L+"eas_public.c EAS_Render"),("mix-engine prep/post",L+"eas_mixer.c EAS_MixEnginePrep/EAS_MixEnginePost")],
 ["guarded output buffer with canaries and two different fill patterns, EAS_GetRenderTime"])

p("C12","Transport calls and stream states follow one state machine",
 "For any history of prepare, play, pause, resume, seek, repeat, render and state queries on a song, the reported state is the one a simple transport model predicts: open until prepared, ready until first rendered, playing, pausing then paused, resumed from the same place, stopping then stopped at the end; calls not allowed in the current state are refused and change nothing. A paused song stays silent, does not advance, and continues after resume as if never paused.",
 ["histories","programs"],"every interleaving of transport calls and renders, on every song",
 "One pause/resume and one seek scenario is tested, per file.",
 [L+"eas_public.c",L+"eas_smf.c"],
 [("state transitions",L+"eas_public.c EAS_Prepare/EAS_Pause/EAS_Resume/EAS_Render, "+L+"eas_smf.c SMF_State/SMF_Pause/SMF_Resume")],
 ["EAS_State, EAS_GetLocation, result codes, PCM"])

p("C13","Seeking lands where asked and restores the channel state of that point",
 "Seeking to a time inside the song, forwards or backwards, absolute or relative, makes the reported location that time and makes everything after it sound as in uninterrupted playback: programs, banks, controllers, pitch bend, tuning and tempo in force at that point are in force, events before it are not sounded, and events after it are each played once (the song itself goes on with the next rendered buffer). A seek beyond the end succeeds and the song then stops in silence; a seek of a song that is not open or not seekable, or to a negative time, is refused or clamped to the start, and moves nothing else.",
 ["inputs","histories"],"every song and every seek target, from any position, any number of times",
 "Seek is tested to one position per file by checking the reported location only.",
 [L+"eas_public.c",L+"eas_smf.c",L+"eas_midi.c"],
 [("reset and fast-forward in locate mode",L+"eas_public.c EAS_Locate"),("parser reset",L+"eas_smf.c SMF_Reset"),("note suppression while locating",L+"eas_midi.c ProcessMIDIMessage")],
 ["PCM of probe notes after the seek versus uninterrupted playback; EAS_GetLocation"])

p("C14","Voice bookkeeping always balances and polyphony limits are respected",
 "At every buffer boundary the number of voices counted per synthesizer and in total equals the number of voices actually in use, each used voice belongs to a live synthesizer and a valid channel and region, and per-channel/pool counts agree with it. The number of sounding voices of a stream never exceeds the stream's polyphony, nor the instance's, after the first buffer following a change of limit.",
 ["histories","inputs"],"every event sequence on any number of songs and live streams, with polyphony changed at any time",
 "No test inspects voice counts or changes polyphony.",
 [L+"eas_voicemgt.c",L+"eas_synth.h",L+"eas_wtsynth.c"],
 [("active-voice counters, pool counts, stealing",L+"eas_voicemgt.c VMStartNote/VMStealVoice/VMFreeVoice/VMReleaseVoice/VMSetSynthPolyphony/VMSetPolyphony")],
 ["hook that walks the voice table after each render; EAS_GetPolyphony"],
 [("voices[]","voice table",L+"eas_synth.h S_VOICE_MGR"),("numActiveVoices","per-synth count of voices in use",L+"eas_synth.h S_SYNTH")],
 "a guarded function that walks the voice table and reports inconsistencies")

p("C15","Notes start on note-on, last until released, and always end",
 "A note-on with non-zero velocity for a sustaining instrument sounds until its note-off (or velocity-0 note-on), or while the sustain pedal holds it until the pedal is lifted, or until all-notes-off, all-sound-off, reset, or end of song; then it decays to silence and its voice becomes free within a bounded time. No event on one note, channel or stream releases, silences or retriggers a note it does not address, and no note is left hanging after all its releases.",
 ["histories","inputs"],"every sequence of notes, pedals and mode messages on all channels and streams within the polyphony limit",
 "Tests never look at individual notes.",
 [L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"eas_dlssynth.c",L+"eas_midi.c"],
 [("note start/stop and sustain handling",L+"eas_voicemgt.c VMStartNote/VMStopNote/VMReleaseAllDeferredNoteOffs/VMCatchNotesForSustainPedal/VMAllNotesOff/VMMuteAllVoices"),("envelope state machines",L+"eas_wtsynth.c WT_UpdateEG1, "+L+"eas_dlssynth.c DLS_UpdateEnvelope")],
 ["PCM energy per channel by solo renders and linearity; hook exposing the set of keyed voices"],
 None,"guarded read-only snapshot of (synth, channel, note, state) per voice in use")

p("C16","MIDI byte-stream framing does not change meaning",
 "The same MIDI messages produce the same samples whether their bytes arrive in one write or split at any byte within one buffer period, with or without running status, with real-time bytes interleaved anywhere, with unrecognised system-exclusive or system-common messages between them, or with note-offs written as velocity-zero note-ons.",
 ["inputs"],"every message sequence and every equivalent encoding of it",
 "No test writes to a live MIDI stream.",
 [L+"eas_midi.c",L+"eas_public.c"],
 [("byte state machine",L+"eas_midi.c EAS_ParseMIDIStream"),("chunk loop",L+"eas_public.c EAS_WriteMIDIStream")],
 ["PCM compared byte by byte between encodings"])

p("C17","Equivalent song encodings play identically",
 "A song rendered from a multi-track file equals the same events merged into one track (same-time events keep track order), and neither running status, unknown chunks and meta events, text, key and time signatures, redundant tempo events, zero-padding of lengths or trailing bytes after the last track change the samples; playing the events through a live MIDI stream at the same buffers gives the same samples as the file.",
 ["inputs"],"every song and every equivalent re-encoding of it",
 "Tests play fixed files and never compare two encodings.",
 [L+"eas_smf.c",L+"eas_midi.c",L+"eas_public.c"],
 [("track merge by next-event time",L+"eas_smf.c SMF_Event"),("meta/sysex skipping",L+"eas_smf.c SMF_ParseMetaEvent/SMF_ParseSysEx"),("shared message dispatch",L+"eas_midi.c ProcessMIDIMessage")],
 ["PCM compared byte by byte between encodings"])

p("C18","Settings are validated, stored and read back unchanged",
 "For every setting with a getter (volume, master volume, polyphony, priority, repeat count, reverb and chorus parameters), setting a documented in-range value succeeds and reading it returns that value, independently for each stream and instance; setting an out-of-range value of any setting, transposition and playback rate included, is refused and leaves every setting and the sound unchanged. Polyphony counts are documented exceptions: 0 or more than the maximum means the maximum for a stream, and the instance's count is clamped. Choosing another effect preset loads that preset's own parameter values.",
 ["inputs","histories"],"every parameter and value, in every stream state and order of setting",
 "No test sets or reads any parameter.",
 [L+"eas_public.c",L+"eas_reverb.c",L+"eas_chorus.c",L+"eas_voicemgt.c"],
 [("range checks and storage",L+"eas_public.c EAS_SetVolume/EAS_SetTransposition/EAS_SetPlaybackRate/EAS_SetPolyphony/EAS_SetPriority/EAS_SetParameter, "+L+"eas_reverb.c ReverbSetParam, "+L+"eas_chorus.c ChorusSetParam")],
 ["getter results against a reference model; PCM after refused calls"])

p("C19","Loudness controls are monotone, proportional and silence at zero",
 "Raising a loudness control (instance volume, stream volume, channel volume, expression, note velocity, master-volume message) never makes the output quieter and lowering it never makes it louder, a control at zero gives digital silence for what it governs, a control at its maximum leaves full level (host volumes count in decibels below 100, with the lowest ten steps silent), and a control affects only the stream, channel or note it addresses. Pan moves energy between left and right without affecting other channels, centre being balanced.",
 ["inputs","histories"],"every value of each control, on every instrument, set before or while sounding",
 "No test compares levels.",
 [L+"eas_public.c",L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"eas_math.c",L+"eas_pan.c",L+"eas_mixer.c"],
 [("gain computation",L+"eas_wtsynth.c WT_UpdateGain, eas_math.c EAS_VolumeToGain, eas_voicemgt.c VMUpdateStaticChannelParameters, eas_mixer.c EAS_MixEnginePost"),("pan law",L+"eas_pan.c EAS_CalcPanControl")],
 ["RMS/peak levels of matched renders"])

p("C20","Effects are transparent when bypassed and only add their wet signal otherwise",
 "With reverb and chorus bypassed, which is the initial state, the output is exactly the dry mix; switching an effect on changes only the following buffers, its output stays bounded and decays to silence after the input stops, a longer or stronger setting gives a longer or stronger effect, and every documented preset and in-range parameter is accepted and audible while a refused one changes nothing.",
 ["inputs","histories"],"every effect setting and time of change, for every input signal",
 "No test enables an effect.",
 [L+"eas_reverb.c",L+"eas_chorus.c",L+"eas_mixer.c",L+"eas_public.c"],
 [("bypass test and processing",L+"eas_reverb.c ReverbProcess, eas_chorus.c ChorusProcess"),("effect chain",L+"eas_mixer.c EAS_MixEnginePost")],
 ["PCM differences against a dry reference render"])

p("C21","Mixing saturates and is otherwise linear",
 "The output of several channels or streams sounding together is the sum of what each produces alone (within rounding of the final gain) as long as the polyphony limit is not reached and the sum fits the sample range; where it does not fit, the output is clipped at full scale with the right sign and never wraps around.",
 ["inputs"],"every set of simultaneous notes, channels and streams",
 "No test compares mixes or drives the output into saturation.",
 [L+"eas_mixer.c",L+"eas_mixbuf.c",L+"eas_wtengine.c",L+"eas_public.c"],
 [("32-bit accumulation and final saturation",L+"eas_wtengine.c WT_VoiceGain, eas_mixer.c SynthMasterGain")],
 ["PCM of mixes against sums of solo renders"])

p("C22","Instances are independent and may run on different threads",
 "Any number of library instances in one process behave exactly as if each were alone: calls on one never change settings, state or samples of another, and different instances used concurrently from different threads have no data race and produce the same samples as when used sequentially.",
 ["schedules","histories"],"every interleaving of calls on different instances, on one or several threads",
 "The tests use one instance at a time on one thread.",
 [L+"eas_public.c",L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"eas_reverb.c",L+"eas_chorus.c",H+"eas_report.c",H+"eas_hostmm.c"],
 [("all mutable state reachable only from the instance handle","all modules")],
 ["ThreadSanitizer; PCM and getter results against solo runs"])

p("C23","Metadata is delivered completely, in order and within the host's buffer",
 "Each text, copyright, track name, lyric or other supported text event of a song is delivered once per pass over the song to the registered callback, with the right type, in file order per track, at the song time of the event, NUL-terminated and truncated to the registered buffer, never writing outside that buffer; collecting metadata before playback does not change how the song then plays.",
 ["inputs"],"every song with any text events and every buffer size",
 "No test registers a metadata callback.",
 [L+"eas_smf.c",L+"eas_public.c"],
 [("text extraction",L+"eas_smf.c SMF_ParseMetaEvent"),("registration and pre-scan",L+"eas_public.c EAS_RegisterMetaDataCallback/EAS_ParseMetaData")],
 ["callback log against the generated song; guarded buffer"])

p("C24","A loaded sound bank sounds as its regions, waves and articulation say",
 "After a valid DLS collection is loaded, a note on one of its programs plays the wave of the region whose key and velocity range contains the note, at the pitch given by root key and tuning, at the level given by the region or wave attenuation, looping exactly its loop; programs it does not define keep their built-in sound. A collection without any articulation, or whose pieces do not fit together, is refused. A bank loaded for one stream affects only that stream, and a global bank all streams opened afterwards.",
 ["inputs","histories"],"every valid collection (8- and 16-bit waves, loops, multiple regions, layers, drum instruments) and every note on it",
 "No test loads a DLS file.",
 [L+"eas_mdls.c",L+"eas_dlssynth.c",L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"eas_wtengine.c"],
 [("region/wave/articulation conversion",L+"eas_mdls.c"),("program and region lookup",L+"eas_voicemgt.c VMFindProgram/VMFindDLSProgram/VMFindDLSRegion"),("voice start",L+"eas_dlssynth.c DLS_StartVoice")],
 ["PCM frequency, level and presence measured against the generated collection"])

p("C25","Pitch follows note, transposition, bend, tuning and range settings",
 "The fundamental of a note is its equal-tempered pitch shifted by the sum of stream transposition and channel coarse and fine tuning (melodic channels only) and pitch bend times bend range, within a small tolerance; different routes to the same total pitch sound the same, the changes apply only to the addressed channel or stream, and centring a bend restores the original pitch exactly.",
 ["inputs","histories"],"every note, bend value, range, tuning and transposition, in every order",
 "No test measures pitch or uses transposition.",
 [L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"eas_math.c",L+"eas_public.c"],
 [("static channel pitch",L+"eas_voicemgt.c VMUpdateStaticChannelParameters, VMUpdateRPNStateMachine"),("phase increment",L+"eas_wtsynth.c WT_UpdatePhaseInc, eas_math.c EAS_Calculate2toX")],
 ["PCM of equivalent settings; measured frequency"])

p("C26","The command-line renderer writes exactly what the library renders, or fails",
 "For each readable input the command-line program writes to standard output exactly the samples the library renders with the settings the options describe, and exits with success; for a missing, unreadable or unplayable input or bad option it exits with failure and a message, without crashing, and it never modifies its input files. Without -w the reverb amount is the preset's own or none.",
 ["inputs","configurations"],"every input file, option combination and output destination",
 "The program is built but never run by the tests.",
 ["example/sonivoxrender.c"],
 [("option parsing, file callbacks, render loop",
   "example/sonivoxrender.c")],
 ["process exit status, standard output, input file digest"])

p("C27","Songs and live streams played together do not disturb one another",
 "Up to the stream limit, songs and live MIDI streams opened on one instance play independently: opening, configuring, playing, pausing, seeking, stopping or closing one never changes the state, location, settings or sound of another. When the limit is reached a further open fails cleanly, and closing any stream makes its slot available again.",
 ["histories"],"every interleaving of calls on two to four streams of an instance within the polyphony limit",
 "The tests open one stream at a time.",
 [L+"eas_public.c",L+"eas_voicemgt.c"],
 [("stream slots and virtual synthesizers",L+"eas_public.c EAS_AllocateStream, eas_voicemgt.c VMInitMIDI"),("per-synth voice ownership",L+"eas_voicemgt.c GET_VSYNTH uses")],
 ["PCM of one stream alone versus with a silent busy neighbour; state and location of each"])

p("C28","Reset messages return a stream to its power-on sound",
 "After a GM System On message (or a fresh stream), all sound stops and subsequent messages produce the same samples as on a newly opened live stream, whatever was sent before (only the master volume and what the host has set stay as they are); Reset All Controllers returns the addressed channel's controllers, bend, pedal and bend and tuning parameters to defaults without touching program, volume, pan or other channels.",
 ["histories","inputs"],"every message history before the reset",
 "No test sends a reset.",
 [L+"eas_midi.c",L+"eas_voicemgt.c"],
 [("GM reset",L+"eas_midi.c ProcessSysExMessage, eas_voicemgt.c VMReset"),("controller reset",L+"eas_voicemgt.c VMResetControllers/VMInitializeAllChannels")],
 ["PCM of a probe after the reset against a fresh stream"])

p("C29","A song repeats exactly as many times as asked",
 "A song with repeat count n is played n+1 times (forever for a negative count until it is set to 0) and then stops; every pass sounds like the first, starts from the default channel state, and takes the same time (two passes are at most a buffer apart); the remaining count can be read and changed at any time.",
 ["inputs","histories"],"every song and every repeat count, changed at any time",
 "No test uses repeat.",
 [L+"eas_public.c",L+"eas_smf.c"],
 [("repeat countdown and parser reset at end of song",L+"eas_public.c EAS_ParseEvents/EAS_SetRepeat/EAS_GetRepeat")],
 ["PCM per pass, EAS_GetRepeat, EAS_State, EAS_GetLocation"])

p("C30","Program, bank and drum selection pick the right instrument",
 "A program change on a melodic channel selects that General MIDI instrument for following notes on that channel only, the drum channel plays the percussion kit with each key its own sound, an unavailable bank or program falls back to an available one instead of silence, notes already sounding keep their instrument, and mutually exclusive drum keys cut each other within their channel but nothing else.",
 ["inputs","histories"],"every bank/program/channel/key combination in every order",
 "Tests never compare instruments.",
 [L+"eas_voicemgt.c",L+"eas_wtsynth.c",L+"wt_200k_G.c"],
 [("program search and fallback",L+"eas_voicemgt.c VMProgramChange/VMFindProgram"),("drum key-group exclusion",L+"eas_voicemgt.c VMStartNote/VMCheckKeyGroup")],
 ["PCM of matched renders"])

p("C31","Tune formats, XMF and JET play what their files say and survive any bytes",
 "In builds that enable them, a well-formed iMelody, RTTTL or OTA tune plays each of its notes at its pitch and time, repeats what it says it repeats, reports its length, type and title and then stops; an XMF file sounds like the song and the bank inside it; a JET file plays the queued segments in order with their repeats, mutes and transpositions, delivers each event of each pass once with its segment, track, channel, controller and value, and gives back everything it used when it is closed. Any other bytes offered to these readers, and any order of JET calls, end in a result code without memory error, arithmetic fault, leak or hang, and the instance still plays ordinary songs afterwards.",
 ["inputs","histories","configurations"],"every tune, XMF and JET file and every byte string, every history of JET calls, in the configuration that enables the optional parsers",
 "These parsers are not compiled by the tested build at all.",
 [L+"eas_xmf.c",L+"eas_ota.c",L+"eas_imelody.c",L+"eas_rtttl.c",L+"jet.c",L+"eas_public.c"],
 [("format parsers",L+"eas_xmf.c, eas_ota.c, eas_imelody.c, eas_rtttl.c"),("segment queue, event queues, mute flags",L+"jet.c JET_Process/JET_QueueSegment/JET_Event")],
 ["PCM, states, metadata, JET_GetEvent, sanitizer reports, result codes, allocator log"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")

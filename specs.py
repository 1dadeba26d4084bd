"""What each check runs: harness, library build, number of cases per tier."""
import os
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.abspath(__file__))
SPECS = {}
UNCLAIMED = {}


def spec(pid, runs, rule, level="exploration", **kw):
    SPECS[pid] = dict(runs=[dict(src=s, variant=v, quick=q, thorough=t, **x) for s, v, q, t, x in runs], rule=rule, level=level, **kw)


spec("C01", [("c01.cpp", "asan", 12000, 200000, dict(aux=VERIF + "/corpus/smf"))],
     "cases: structure-aware hostile songs and mutated corpus songs driven through open/metadata/prepare/seek/render/close under ASan+UBSan; non-trivial = the library accepted the file and processed it")

spec("C02", [("c02.cpp", "asan", 30000, 400000, {})],
     "cases: generated and mutated DLS collections (8/16-bit waves, loops, multi-region, articulation, cdl) loaded globally, on a live stream or on a song, then played, replaced and unloaded under ASan+UBSan; non-trivial = the loader read past the header")

spec("C14", [("c14.cpp", "hook", 8000, 200000, {}), ("c14.cpp", "hook6", 16000, 400000, {}), ("c14.cpp", "hookasan", 2000, 50000, {})],
     "cases: several live streams and songs with random note storms, polyphony and priority changes, MIP messages, resets, DLS loads, closes; the voice table is snapshotted after every call and buffer and compared with the counts and the limits; non-trivial = notes were sent; distinct = the operation sequence",
     technique="online monitor over hooked voice-table snapshots after every call and buffer of randomized multi-stream executions")

spec("C03", [("c03.cpp", "asan", 4000, 100000, {}), ("c03.cpp", "asan22", 1500, 40000, {}), ("c03.cpp", "asan8", 1500, 40000, {}), ("c03.cpp", "asanv", 2500, 60000, {})],
     "cases: random, structured and mutated MIDI byte streams in random chunkings interleaved with rendering on 1-4 live streams under ASan+UBSan (44.1 kHz, 22 kHz, 8-bit samples, 8-voice builds), then a reset or fresh stream must sound; non-trivial = bytes were consumed",
     technique="AddressSanitizer+UndefinedBehaviorSanitizer execution of generated MIDI byte streams with a liveness oracle")

spec("C04", [("c04.cpp", "asan", 4000, 100000, {}), ("c04.cpp", "asanv", 2500, 60000, {})],
     "cases: random sequences of every public call with boundary and wild values on up to four songs and live streams in every state under ASan+UBSan, with a model of which calls must be refused or accepted; non-trivial = calls were made; distinct = the sequence of calls and results",
     technique="AddressSanitizer+UndefinedBehaviorSanitizer execution of random API call sequences with an online refusal/acceptance monitor")

spec("C09", [("c09.cpp", "opt", 1200, 40000, dict(group="44")), ("c09.cpp", "clang3", 1200, 40000, dict(group="44")), ("c09.cpp", "gcc0", 400, 10000, dict(group="44")), ("c09.cpp", "asan", 300, 8000, dict(group="44")),
             ("c09.cpp", "opt22", 500, 20000, dict(group="22")), ("c09.cpp", "clang22", 500, 20000, dict(group="22"))],
     "cases: random scenarios (songs, live streams, per-stream DLS, settings, transport calls, effects) rendered, then rendered again with other heap contents, after other work on the same instance, and interleaved with other instances; samples, call results, states and locations are compared sample for sample, and between builds (gcc -O2/-O0, clang -O3 with pattern-initialised stack, ASan); non-trivial = the output was not silent",
     technique="differential re-execution with an exact sample/result/state comparator over perturbed memory, history, neighbours and builds")

spec("C05", [("c05.cpp", "asan", 3000, 60000, {})],
     "cases: sequences of different, or many repetitions of the same, complete uses (hostile and good songs, faulting host reads, DLS loads, metadata, shared live streams, up to 140 tracks), all allocations of the library recorded; non-trivial = every case; distinct = the results of all calls",
     technique="allocation ledger (interposed malloc/free) and result comparison over repeated open/use/close cycles under AddressSanitizer")

spec("C06", [("c06.cpp", "asan", 1500, 30000, {})],
     "cases: a random scenario of initialisation, opens, preparation, bank loads, live streams and rendering; every allocation of it is made to fail, once alone and once with all later ones of the call, then the call is retried and results and samples compared with the fault-free run; non-trivial = a fault was injected; distinct = the call results",
     technique="exhaustive single allocation-fault injection per scenario with allocation ledger and differential retry oracle under AddressSanitizer")

spec("C07", [("c07.cpp", "asan", 2500, 60000, {})],
     "cases: a song (and often a bank) played through an instrumented callback that checks each request against the file size and the destination's shadow memory, then repeated with faults (error, short, zero, changing data) at the first and at random reads, twice with different undelivered bytes; non-trivial = the song was read beyond its header",
     technique="monitored host read callback (offset, range and destination shadow checks) with read-fault injection and undelivered-byte differential under AddressSanitizer")

spec("C08", [("c08.cpp", "opt", 4000, 100000, {}), ("c08.cpp", "optv", 6000, 100000, {}), ("c08.cpp", "asan", 800, 20000, {})],
     "cases: hostile songs and well-formed songs of known duration, with seeks near the end, repeats and double speed, rendered until they stop; reads per call are counted against the file size, the time of stopping against the duration plus the notes' tails, then silence and the state are watched; non-trivial = the song was accepted",
     technique="online work counter (host reads per call) and termination monitor over songs rendered to their end and beyond")

spec("C16", [("c16.cpp", "opt", 10000, 200000, {}), ("c16.cpp", "opt22", 2000, 40000, {})],
     "cases: a schedule of messages on a live stream (all channel messages, GM On, master volume, MIP) rendered once plainly and four times reframed (running status, split writes, real-time bytes anywhere, other system messages, velocity-0 note-offs, prefixes of a message delivered a buffer early); samples compared exactly; non-trivial = the output was not silent",
     technique="metamorphic differential execution: exact sample comparison between framings of one message schedule")

spec("C17", [("c17.cpp", "opt", 8000, 200000, {}), ("c17.cpp", "opt22", 1500, 40000, {})],
     "cases: a random well-formed song rendered as written and re-encoded (merged to one track, split by channel, running status, padded lengths, unknown chunks, longer header, trailing bytes, extra meta events at existing times, repeated tempo, metadata read first) and sent to a live stream buffer by buffer; samples compared exactly; non-trivial = the output was not silent",
     technique="metamorphic differential execution: exact sample comparison between encodings of one event list")

spec("C10", [("c10.cpp", "opt", 10000, 200000, {}), ("c10.cpp", "opt22", 2000, 40000, {})],
     "cases: songs with random divisions (1..32767), tempo maps in any track, 1-4 tracks, short notes separated by silence, seconds to hours long, at random playback rates; the reported length, the location after every buffer, the time of every audible onset, the time of stopping and the end after a seek are compared with the times computed independently from the map; non-trivial = the song was played; distinct = the song",
     technique="timing monitor: onsets detected in the output, locations and stop times against an independent tempo-map model")

spec("C11", [("c11.cpp", "opt", 12000, 100000, {}), ("c11.cpp", "opt22", 1000, 20000, {}), ("c11.cpp", "asan", 500, 10000, {})],
     "cases: a random scenario run twice, once into buffers prefilled with 0x5555 and once with 0xAAAA and with renders of refused sizes in between; counts, guard zones (or an exact-size heap block under ASan), the render clock and the equality of both runs are checked per buffer, then silence with nothing open; non-trivial = the output was not silent",
     technique="online per-buffer monitor (guard zones, prefill, clock) and exact twin comparison with injected refused renders")

spec("C12", [("c12.cpp", "opt", 40000, 200000, {}), ("c12.cpp", "opt22", 2500, 40000, {})],
     "cases: random sequences of transport calls (prepare, pause, resume, seek, repeat, rate, metadata, volume) between buffers of a song; acceptance, state and location are compared with a model of the transport after every call and buffer, pauses must fall silent and what follows them must equal uninterrupted playback; non-trivial = the song was accepted",
     technique="online transport-state model monitor compared after every call and buffer; exact comparison of resumed with uninterrupted playback")

spec("C13", [("c13.cpp", "opt", 30000, 200000, {}), ("c13.cpp", "opt22", 1500, 40000, {})],
     "cases: a random song (controllers, RPN, banks, bends, pressure, tempo, GM On, held notes), a random history of playing, seeking, pausing, metadata, then a seek (absolute, relative, paused) to a target; samples, states and locations from there on are compared exactly with the song delayed to a buffer boundary and played from its start without the notes struck before the target; non-trivial = sound after the target",
     technique="metamorphic differential execution: exact comparison of playback after a seek with aligned uninterrupted playback")

spec("C15", [("c15.cpp", "hook", 10000, 80000, {}), ("c15.cpp", "hook6", 8000, 80000, {}), ("c15.cpp", "hookasan", 600, 15000, {})],
     "cases: note, pedal, controller and reset storms on 1-3 live streams beside a song; after every message the voice table must have changed only for what it addresses, after every buffer a model of the held keys must agree with the voices, and after all releases every voice must end within 30 s; non-trivial = more than 20 messages",
     technique="online note-lifecycle model compared with hooked voice-table snapshots after every message and buffer")

spec("C18", [("c18.cpp", "opt", 20000, 200000, {}), ("c18.cpp", "optv", 8000, 100000, {}), ("c18.cpp", "opt22", 3000, 40000, {}), ("c18.cpp", "asan", 500, 10000, {})],
     "cases: 1-4 songs and live streams (also sharing a synthesizer), random valid, boundary and wild settings between buffers; after every call and buffer every getter is compared with a model, a twin gets only the accepted, not superseded, not repeated settings and must give the same results and samples, a third instance gets other settings; reopened slots must read the defaults; non-trivial = the output was not silent",
     technique="online settings-model monitor over all getters after every call and buffer, exact twin comparison without refused, superseded and repeated settings")

spec("C19", [("c19.cpp", "opt", 40000, 300000, {}), ("c19.cpp", "opt22", 8000, 60000, {}), ("c19.cpp", "asan", 500, 10000, {})],
     "cases: pairs of values of one control (instance, stream and channel volume, expression, master-volume message, velocity) with random others, program and note compared sample by sample (never louder, silent at zero, ratio as documented); random histories of controls against their final values; controls of one channel or stream at zero against the others alone; pan pairs; non-trivial = audible",
     technique="metamorphic differential execution: pointwise and exact sample comparison between control settings, against the documented gain law")

spec("C20", [("c20.cpp", "opt", 12000, 150000, {}), ("c20.cpp", "opt22", 3000, 40000, {}), ("c20.cpp", "asan", 250, 5000, {})],
     "cases: random scenarios with effects configured but bypassed, switched on and off, or at wet 0, compared exactly with the dry mix; loud and quiet performances through every reverb preset and wet level (dry + proportional wet, clipped not wrapped, audible, decaying to digital silence) and chorus setting (bounded by level times recent input, audible, preset equal to the same rate/depth/level); non-trivial = audible",
     technique="metamorphic differential execution: sample comparison of wet, dry and re-parameterised twins with pointwise bounds and a decay monitor")

spec("C21", [("c21.cpp", "opt", 16000, 150000, {}), ("c21.cpp", "optv", 6000, 60000, {}), ("c21.cpp", "opt22", 4000, 40000, {}), ("c21.cpp", "asan", 250, 5000, {})],
     "cases: 2-7 parts (channels of live streams, songs) below the polyphony limit, quiet and far above full scale; the ensemble is compared sample by sample with the sum of the parts (each alone, or two groups) within the rounding of the final gain, and with full scale of the right sign where the sum does not fit; non-trivial = audible",
     technique="metamorphic differential execution: per-sample additivity and clipping-sign oracle over ensemble and solo renderings")

spec("C22", [("c22.cpp", "tsan", 1200, 20000, {}), ("c22.cpp", "opt", 6000, 60000, {}), ("c22.cpp", "asan", 300, 6000, {})],
     "cases: 2-6 instances with scenarios of their own (songs, live streams, banks, effects, settings, metadata) run concurrently in threads with random yields, sequentially, and call by call in turns; ThreadSanitizer watches every access, and samples, call results, states and settings are compared with the sequential run; non-trivial = audible; distinct = the scenarios",
     technique="ThreadSanitizer on concurrent instances plus exact comparison with sequential execution")

spec("C23", [("c23.cpp", "opt", 12000, 120000, {}), ("c23.cpp", "opt22", 2000, 30000, {}), ("c23.cpp", "asan", 800, 12000, {})],
     "cases: songs with text events of all types and lengths (also empty, with NULs, at equal times in several tracks), buffers from 1 byte up, metadata collected before and during playback, with repeats, seeks, replaced, removed and useless registrations and a second song; every delivery (type, bytes, buffer number, user pointer, guard bytes) is recorded and matched against the song, samples compared with a song without callback; non-trivial = the song has deliverable texts",
     technique="recorded delivery log checked offline against the song's events (completeness, order, time, truncation), guard bytes, exact playback comparison")

spec("C27", [("c27.cpp", "hook", 20000, 150000, {}), ("c27.cpp", "opt", 6000, 60000, {}), ("c27.cpp", "opt22", 3000, 30000, {}), ("c27.cpp", "asan", 500, 8000, {})],
     "cases: 2-4 songs and live streams (also with banks of their own) opened, configured, played, sought and closed at random times, with silent extra streams opened, refused and closed between; each stream is repeated alone and its call results, states and locations are compared exactly and its samples by addition; handles sharing a synthesizer against one handle; slots available again after closing; non-trivial = audible",
     technique="differential execution of streams together and alone: exact states and call results, additive samples")

spec("C26", [("c26.cpp", "opt", 4000, 40000, {"exe": "sonivoxrender"}), ("c26.cpp", "asan", 1500, 20000, {"exe": "sonivoxrender"}), ("c26.cpp", "opt22", 1000, 10000, {"exe": "sonivoxrender"})],
     "cases: the built program run on 1-4 playable, missing, empty, damaged, zero-length or directory inputs with random valid and invalid options in any order, writing to a file, a pipe, a full device or a closed descriptor; its standard output is compared byte for byte with the library's rendering of the same inputs and settings, its exit status and message with whether that succeeded, its input files before and after; non-trivial = samples or a failure were expected",
     technique="process monitor (exit status, standard output and error, input files; AddressSanitizer) against the library's own rendering")

spec("C28", [("c28.cpp", "opt", 20000, 200000, {}), ("c28.cpp", "opt22", 4000, 40000, {}), ("c28.cpp", "asan", 500, 10000, {})],
     "cases: a random history (notes, controllers, RPN, banks, bends, pedals, MIP; also with a bank or transposition) then GM On, or closing and reopening the stream, then silence and a random probe compared exactly with a fresh stream's; the same inside a song; Reset All Controllers compared exactly with the explicit defaults of the same controllers in any order; non-trivial = the probe sounded",
     technique="metamorphic differential execution: exact sample comparison of a probe after a reset with a fresh stream, and of CC121 with explicit defaults")

spec("C29", [("c29.cpp", "opt", 8000, 80000, {}), ("c29.cpp", "opt22", 2000, 20000, {}), ("c29.cpp", "asan", 300, 6000, {})],
     "cases: random songs (tempo, programs, controllers, RPN, master volume, MIP, GM On, setup bars, notes held past the end) at random rate, transposition, volume and bank, repeated -3..4 times, the count changed at random buffers; after every call the remaining count, the state and the location, every buffer of every pass against a single playback, the length of every pass, and silence and state after the last; non-trivial = audible",
     technique="online pass counter model; exact comparison of every pass with a single playback")

spec("C30", [("c30.cpp", "opt", 16000, 200000, {}), ("c30.cpp", "opt22", 4000, 50000, {}), ("c30.cpp", "hook", 12000, 200000, {}), ("c30.cpp", "hook6", 12000, 200000, {}), ("c30.cpp", "asan", 600, 10000, {})],
     "cases: random bank and program selections on all channels (rhythm and melody switching, resets, notes between) with the built-in and with random sound libraries (banks, single programs, key splits and holes, key groups); the note's samples are compared exactly with those of a library that holds nothing but the region an independent search of the library finds, also with selections during the note; pairs of keys against one alone (exclusive) or the sum (not); non-trivial = audible or no region",
     technique="differential execution against single-region sound libraries chosen by an independent lookup model; exact and additive sample comparison")

spec("C24", [("c24.cpp", "opt", 60000, 600000, {}), ("c24.cpp", "opt22", 20000, 200000, {}), ("c24.cpp", "asan", 1500, 20000, {})],
     "cases: random DLS collections with measurable waves (several instruments, banks, drum kits, layers, overlapping key and velocity ranges, loops and one-shots, gains, pans, tunings, envelopes, vibrato and tremolo, regions' and waves' own wsmp, any chunk order) loaded for one stream or for all; every note is predicted from the collection: silent or sounding, its frequency, its length, its level at the start and along the envelope, its balance, its vibrato and tremolo rate and depth; programs the collection lacks and streams it was not loaded for are compared exactly with the built-in bank; a parameter reached through velocity, key, wheel or pressure sounds exactly like the one set directly, spelt-out defaults exactly like left-out ones, rates beyond the limits like the limits; tones through the filter are attenuated as its cutoff and resonance say; delays and shutdown times last as long as set; non-trivial = something was measured",
     technique="signal measurements on the rendered notes against a model computed from the collection; exact comparison where the collection must not sound")

spec("C34", [("c34.cpp", "opt", 6000, 150000, {}), ("c34.cpp", "optv", 1500, 40000, {}), ("c34.cpp", "asan", 400, 10000, {})],
     "cases: random scenarios (songs, dense and merged chords, live streams, banks, pauses, seeks, repeats, rates, effects) rendered without and with a limit on the parsing work per call, fixed or changing, set at the start or midway; with the limit, calls are made until one delivers the buffer, each of which must deliver a whole buffer or nothing, and the buffers, call results, states and locations must be those of the unlimited run; non-trivial = at least one call was cut short and the scenario sounds",
     technique="differential execution with and without the limit, exact comparison of samples, results, states and locations, with a progress monitor over the render calls")

spec("C35", [("c35.cpp", "opt", 8000, 200000, {}), ("c35.cpp", "opt22", 1500, 40000, {}), ("c35.cpp", "asan", 800, 20000, {})],
     "cases: songs behind foreign bytes that contain beginnings of the song's mark, opened with the search flag set, clear or toggled, then read for metadata, played, repeated and searched next to the song alone (results, types, lengths, samples, states, locations, note counts); files that are no song; live streams and songs whose note count is followed against the notes struck so far; non-trivial = a song sounded, a refusal was made or notes were counted",
     technique="differential execution of a song behind foreign bytes against the song alone; online monitor of the note count against a model")

spec("C25", [("c25.cpp", "opt", 24000, 400000, {}), ("c25.cpp", "opt22", 10000, 100000, {}), ("c25.cpp", "asan", 1500, 20000, {})],
     "cases: sustaining notes on random channels (built-in programs and single-wave sound banks) under random transposition, bend and sensitivity, fine and coarse tuning set in random order, with RPN selections in between that must not matter, before and while the note sounds; the measured frequency is compared with the tempered frequency of the key plus all of these; the same pitch reached by different routes sounds equal; bending and returning leaves the pitch; non-trivial = a frequency was measured",
     technique="frequency measurements on rendered notes against the tempered scale; differential routes to the same pitch")

spec("C31", [("c31.cpp", "android", 4400, 40000, {})],
     "the parsers, JET and OpenJETStream that only the Android configuration of the library compiles; cases: generated iMelody, RTTTL and OTA tunes with an interpreter of each format as the oracle (length, end, notes, metadata, pause, seek), XMF files against their song and bank played apart, JET files with queued segments (order, repeats, events once per pass), the tunes shipped in the tree, and damaged files, failing reads and random API histories; non-trivial = sound was rendered or a hostile history ended cleanly",
     technique="interpreters of the tune formats as oracles; differential playback (XMF, JET); sanitizers over hostile files and API histories")

spec("C32", [("c32.cpp", "opt", 8000, 100000, {}), ("c32.cpp", "opt22", 2000, 20000, {}), ("c32.cpp", "opt8", 1000, 20000, {}), ("c32.cpp", "asan", 500, 10000, {})],
     "cases: random well-formed SP-MIDI messages (1..16 channels, shared and zero values, also cut into several writes), stream and instance limits changed before and after, GM On, held notes, a second stream with messages of its own; and songs with such messages, also sought past them; every channel is played and must sound or be silent as a model of the messages and limits says; non-trivial = a muted channel was played; distinct = the history",
     technique="online model of channel muting compared with the audibility of a note on every channel")

spec("C33", [("c33.cpp", "opt", 12000, 150000, {}), ("c33.cpp", "opt22", 2000, 20000, {}), ("c33.cpp", "asan", 800, 12000, {})],
     "cases: a random sound bank written plainly and written again with random chunk order, unknown chunks, conditions (true and false expressions of an own interpreter, on the bank, instruments' regions and articulations), longer headers, other wave order, numbers and widths, unused waves, articulation split, shuffled, moved and padded, defaults spelled out; both are loaded (for the stream or for all) and the same performance is compared exactly; non-trivial = audible",
     technique="metamorphic differential execution: exact sample comparison of two encodings of one bank; conditions by an independent interpreter")

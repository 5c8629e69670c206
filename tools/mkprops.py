#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
L = "arm-wt-22k/lib_src/"; H = "arm-wt-22k/host_src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = [observe]; a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

TESTS = "The 15 tests open five fixed well-formed files and check return codes, a location and a state; "
p("S01", "Any song-file bytes are handled without memory errors, UB or hangs",
  "For every sequence of bytes offered as a song file, opening, preparing, parsing metadata, seeking, pausing, rendering and closing it never accesses memory outside live objects and never performs overflowing, out-of-range-shift or divide-by-zero arithmetic. Every such call returns in bounded time with a result code, and afterwards the same engine still opens and plays a well-formed song correctly.",
  ["inputs"], "all byte strings (malformed headers, chunk lengths, varlen numbers, running status, truncated tracks, up to 65535 declared tracks, any division) x any order of playback calls",
  TESTS + "no malformed byte is ever parsed and no sanitizer is used.",
  [L+"eas_smf.c", L+"eas_midi.c", H+"eas_hostmm.c", L+"eas_public.c"],
  [("SMF header / track chunk / event parsers", L+"eas_smf.c:SMF_CheckFileType,SMF_ParseHeader,SMF_ParseEvent,SMF_ParseMetaEvent,SMF_ParseSysEx"), ("file abstraction", H+"eas_hostmm.c:EAS_HWReadFile")],
  "return codes of the public API under AddressSanitizer + UndefinedBehaviorSanitizer, and a known song played afterwards")
p("S02", "Any DLS collection bytes are handled without memory errors, UB or hangs",
  "For every sequence of bytes offered as a downloadable-sounds collection, loading it and then playing any notes through it never accesses memory outside live objects, never performs overflowing, out-of-range-shift or divide-by-zero arithmetic, and terminates. Loading returns a result code; after a rejected collection the engine keeps playing its built-in sounds exactly as if the load had not been attempted.",
  ["inputs"], "all byte strings, in particular RIFF trees with arbitrary chunk sizes, pool indices, region/articulator/loop/format values, conditional chunks",
  TESTS + "no DLS collection is ever loaded.",
  [L+"eas_mdls.c", L+"eas_dlssynth.c", L+"eas_wtengine.c", H+"eas_hostmm.c"],
  [("two-pass RIFF/DLS parser", L+"eas_mdls.c:DLSParser,Parse_lins,Parse_rgn,Parse_data,Parse_wsmp,Parse_cdl"), ("DLS voices", L+"eas_dlssynth.c")],
  "public API under sanitizers; PCM after a rejected load")
p("S03", "Any live MIDI bytes and any API call order are handled safely",
  "Any sequence of public calls, with any in-range or out-of-range arguments on handles that are currently open, in any order over up to four simultaneous streams, and any bytes written to a live MIDI stream, never causes invalid memory access, overflowing, out-of-range-shift or divide-by-zero arithmetic, or non-termination. Each call yields a result code, calls made in a wrong state or with out-of-range values are refused, and a refused call has no effect at all: the history without it gives the same results, answers and audio.",
  ["histories", "inputs"], "all finite call histories over the public API with arbitrary arguments and arbitrary MIDI byte content and chunking",
  TESTS + "each makes one short fixed call sequence on one stream; live streams, parameters and multi-stream use are never exercised.",
  [L+"eas_public.c", L+"eas_midi.c", L+"eas_voicemgt.c", L+"eas_wtengine.c", L+"eas_wtsynth.c", L+"eas_chorus.c", L+"eas_reverb.c"],
  [("API guards", L+"eas_public.c"), ("live byte parser", L+"eas_midi.c:EAS_ParseMIDIStream"), ("voice bookkeeping", L+"eas_voicemgt.c")],
  "public API under sanitizers")
p("R01", "Resources are released exactly once and are reusable without limit",
  "After every stream is closed and the engine shut down, every allocation the engine made has been freed exactly once and every file handle returned, whatever mix of successful, failed and repeated opens, prepares, seeks, collection loads and closes preceded it. Closing a stream frees its slot, so at all times up to four streams can be open and a fifth is refused, for any number of open/close cycles.",
  ["histories"], "all histories of open/close/prepare/load/shutdown calls, with valid and invalid content, including shutdown with streams still open",
  TESTS + "each opens and closes once; leaks and slot exhaustion only show over long or failing histories.",
  [L+"eas_public.c", L+"eas_smf.c", L+"eas_voicemgt.c", L+"eas_mdls.c", H+"eas_hostmm.c"],
  [("stream table", L+"eas_public.c:EAS_AllocateStream,EAS_CloseFile,EAS_Shutdown"), ("synth ref counting", L+"eas_voicemgt.c:VMInitMIDI,VMShutdownMIDI"), ("file handle pool", H+"eas_hostmm.c:EAS_HWOpenFile,EAS_HWCloseFile")],
  "interposed malloc/free accounting and stream-open results")
p("R02", "Allocation and file I/O faults are reported cleanly and contained",
  "If any single or repeated memory allocation fails, or the host's file callback returns an error at any point, the call in progress returns a failure (a song interrupted while rendering goes to the error state) without crashing; short data may simply end a track. Other open streams keep producing exactly the audio they would have produced, and the engine can be shut down leaving nothing allocated. Once the fault is gone, the same engine opens and plays a well-formed song correctly.",
  ["fault_sequences"], "every index of the failing allocation / file read (single fault and fail-from-here-on) x operation histories",
  TESTS + "no test injects a fault.",
  [L+"eas_public.c", L+"eas_smf.c", L+"eas_mdls.c", L+"eas_voicemgt.c", H+"eas_hostmm.c", L+"eas_reverb.c", L+"eas_chorus.c", L+"eas_midi.c"],
  [("error paths", L+"eas_public.c:EAS_Init,EAS_OpenFile,EAS_OpenMIDIStream"), ("parser instance data", L+"eas_smf.c:SMF_CheckFileType,SMF_Prepare"), ("DLS two-pass load", L+"eas_mdls.c:DLSParser")],
  "fault-injecting malloc and file callbacks; PCM of bystander streams; allocation balance")
p("D01", "Output is a function of the call history only; instances are independent",
  "Two engine instances given the same sequence of calls produce bit-identical samples, results and query answers, regardless of the previous contents of memory and of what other instances in the process do in between. Nothing one instance is told (notes, controllers, volumes, effect parameters, collections) affects the other.",
  ["histories", "schedules"], "all pairs of histories and all interleavings of them, over varied initial heap contents",
  TESTS + "they never look at samples and never run two instances at once.",
  [L+"eas_public.c", L+"eas_voicemgt.c", L+"eas_wtsynth.c", L+"eas_dlssynth.c", L+"eas_reverb.c", L+"eas_chorus.c"],
  [("per-instance state", L+"eas_data.h"), ("dynamic allocation mode", L+"eas_voicemgt.c:VMInitialize")],
  "PCM and query results of paired runs with poisoned heap")
p("D02", "A recycled engine plays like a fresh one",
  "Once all streams of an engine have been closed, a song or live stream subsequently opened on it produces bit-identical samples, locations, states and lengths to the same calls on a newly created engine with the same master volume, header-search flag, polyphony and global collection (effects never enabled). No earlier notes, controllers, tunings, tempo, seeks, errors or voice usage leave a trace.",
  ["histories"], "all prior histories on an engine followed by close-all, then any later history",
  TESTS + "each uses a fresh engine.",
  [L+"eas_voicemgt.c", L+"eas_wtengine.c", L+"eas_wtsynth.c", L+"eas_dlssynth.c", L+"eas_public.c"],
  [("channel/voice reset", L+"eas_voicemgt.c:VMInitMIDI,VMShutdownMIDI,VMReset,VMInitializeAllVoices"), ("voice start", L+"eas_wtsynth.c:WT_StartVoice"), ("voice start DLS", L+"eas_dlssynth.c:DLS_StartVoice")],
  "PCM and query results, recycled engine vs fresh engine")
p("T01", "Playing a song file equals sending its events live at their times",
  "For every well-formed song (up to about 96 tracks, ticks-per-quarter division), the samples produced by rendering the file are bit-identical to those produced by writing the same channel events to a live MIDI stream at the render blocks given by the file's tempo map. Every event of every track takes effect exactly once, in time order and, at equal times, in a fixed track order.",
  ["inputs", "histories"], "all well-formed songs: any number of tracks up to about 96, any ticks-per-quarter division, tempo changes, delta times, channel events",
  TESTS + "audio is not inspected and the five files fix tempo, division and track count.",
  [L+"eas_smf.c", L+"eas_midi.c", L+"eas_public.c"],
  [("tick to time conversion", L+"eas_smf.c:SMF_GetDeltaTime,SMF_UpdateTime,SMF_Time"), ("track merge", L+"eas_smf.c:SMF_Event"), ("channel dispatch", L+"eas_midi.c:ProcessMIDIMessage")],
  "PCM of file stream vs live stream driven by an independent SMF scheduler")
p("T02", "Equivalent encodings of a song play identically",
  "Re-encoding a song without changing its timed channel events leaves its samples, length and locations unchanged: running status or explicit status, padded variable-length numbers, note-off or note-on with zero velocity, unknown chunks, text and unknown meta events, unknown system-exclusive messages, oversized headers, and format 0 versus the same events split over tracks. With header search enabled, leading foreign bytes do not matter either.",
  ["inputs"], "all songs x all compositions of the listed re-encodings",
  TESTS + "each file has one fixed encoding.",
  [L+"eas_smf.c", L+"eas_midi.c", H+"eas_hostmm.c"],
  [("chunk walk", L+"eas_smf.c:SMF_ParseHeader"), ("running status / meta / sysex", L+"eas_smf.c:SMF_ParseEvent,SMF_ParseMetaEvent,SMF_ParseSysEx"), ("header search", L+"eas_smf.c:SMF_CheckFileType")],
  "PCM, length and location of both encodings")
p("T03", "Song length, location and completion follow the song's tempo map",
  "The reported length of a song (up to 2.3 hours) equals the time of its last event under its tempo map, to within the engine's resolution (1/1024 ms per tick, 1/256 ms per event), and parsing it has no effect on later playback. While playing, the location advances with the rendered time (times the playback rate), and the song, ready until its first event, then playing, then stopping, reaches the stopped state once its events and releases are exhausted; it never stops early or runs forever.",
  ["inputs", "histories"], "all well-formed finite songs, any number of tempo changes, divisions and playback rates",
  TESTS + "they check length and location for five constant files at a few points.",
  [L+"eas_smf.c", L+"eas_public.c", L+"eas_voicemgt.c"],
  [("length computation", L+"eas_public.c:EAS_ParseMetaData,EAS_IntPlay"), ("location", L+"eas_public.c:EAS_GetLocation"), ("end of song", L+"eas_smf.c:SMF_Event,SMF_State; eas_public.c:EAS_State")],
  "ParseMetaData result, GetLocation and State per render block vs an independent tempo-map model")
p("T04", "Seeking reconstructs the state the song would have had",
  "After seeking to a time, forward or backward, the location reported is that time and everything heard afterwards equals playing, from that moment, the remaining events on channels whose programs, controllers, bends and tunings are those set by all events before that time, with no note started earlier sounding. Seeking beyond the end is reported and ends the song; seeking does not depend on where playback was before. (The first block after a seek plays no new event and does not move the location.)",
  ["inputs", "histories"], "all songs x all seek histories (forward, backward, repeated, before start, during pause, past end)",
  TESTS + "one test seeks once in each of five files and checks only the location.",
  [L+"eas_public.c", L+"eas_smf.c", L+"eas_midi.c", L+"eas_voicemgt.c"],
  [("seek", L+"eas_public.c:EAS_Locate,EAS_IntLocate"), ("event chase", L+"eas_smf.c:SMF_Event (locate mode); eas_midi.c:ProcessMIDIMessage"), ("reset", L+"eas_smf.c:SMF_Reset; eas_voicemgt.c:VMReset")],
  "PCM and location after seek vs a reference live rendering")
p("T05", "Repeat count and playback states follow the documented state machine",
  "A song set to repeat n times is played exactly n+1 times (forever for a negative count), each pass producing the same events as the first, and the remaining count is reported correctly. Over every history of open, prepare, render, pause, resume, seek and close, the reported state is the one the documented stream state machine prescribes, and calls not permitted in a state are refused without effect.",
  ["histories"], "all histories of playback-control calls over songs of any length",
  TESTS + "one fixed open-prepare-play-(locate)-close order, no repeats, pauses or refusals.",
  [L+"eas_public.c", L+"eas_smf.c"],
  [("state machine", L+"eas_smf.c:SMF_State,SMF_Pause,SMF_Resume,SMF_Close"), ("repeat", L+"eas_public.c:EAS_Render"), ("pause flags", L+"eas_public.c:EAS_Pause,EAS_Resume")],
  "EAS_State / GetRepeat / result codes / onset counts vs a model")
p("T06", "Pausing freezes a song and resuming continues it",
  "While a stream is paused its location does not move, none of its events take effect and it contributes silence after the notes sounding were cut, while other streams are unaffected. After resuming, each remaining event takes effect at the same song time as without the pause, with the channel settings intact, and pausing any number of times loses or duplicates no event.",
  ["histories"], "all songs x all pause/resume points and durations, with or without other streams",
  TESTS + "pause and resume are never called.",
  [L+"eas_public.c", L+"eas_smf.c", L+"eas_voicemgt.c"],
  [("pause/resume", L+"eas_public.c:EAS_Pause,EAS_Resume,EAS_Render"), ("parser pause", L+"eas_smf.c:SMF_Pause,SMF_Resume"), ("muting", L+"eas_voicemgt.c:VMMuteAllVoices")],
  "PCM and location vs a reference live rendering with the pause cut out")
p("T07", "Playback rate scales time only, within its documented range",
  "At playback rate r (one half to two), every event of a song takes effect at its nominal time divided by r, the location advances r times as fast (to the 1/256 ms resolution of a frame), and the pitch, loudness and order of the events are unchanged; changing the rate mid-song affects only what follows. Rates outside the range are refused and leave the rate as it was.",
  ["inputs", "histories"], "all songs x rates in the permitted range x change points, plus out-of-range rates",
  TESTS + "the rate is never changed.",
  [L+"eas_public.c", L+"eas_smf.c"],
  [("rate", L+"eas_public.c:EAS_SetPlaybackRate,EAS_Render,EAS_ParseEvents")],
  "PCM vs live rendering at scaled times; GetLocation")
p("M01", "Every note ends when told to; silence is exactly silence",
  "A note sounds from its note-on until its note-off (held on by the sustain pedal until that is lifted), an all-notes-off or all-sound-off message, a reset or the stream's end, and then decays to digital silence in bounded time whatever else was played; a note-off silences only its own key on its own channel and a re-struck key needs no extra note-off. With no notes sounding, the output is exactly zero.",
  ["histories"], "all histories of note, pedal, mode and reset messages on up to four streams and sixteen channels",
  TESTS + "samples are never inspected.",
  [L+"eas_voicemgt.c", L+"eas_wtsynth.c", L+"eas_dlssynth.c", L+"eas_midi.c"],
  [("note lifecycle", L+"eas_voicemgt.c:VMStartNote,VMStopNote,VMDeferredStopNote,VMReleaseAllDeferredNoteOffs,VMCatchNotesForSustainPedal,VMAllNotesOff"), ("envelopes", L+"eas_wtsynth.c:WT_UpdateEG1; eas_dlssynth.c:DLS_UpdateEnvelope")],
  "PCM energy against a model of which notes are held")
p("M02", "Pitch follows key, bend, bend range, tuning and transposition",
  "A melodic note sounds at equal-tempered pitch for its key, shifted by exactly the pitch bend times the bend range (default two semitones, settable), plus channel fine and coarse tuning and the stream's transposition, within a few cents; percussion ignores fine tuning and transposition. The shift applies to sounding notes as soon as it is sent and reset-all-controllers returns bend and tuning to their defaults.",
  ["inputs", "histories"], "all keys, 14-bit bends, RPN 0/1/2 values (and NRPN or null selections that must be ignored), transpositions -12..12, in any order",
  TESTS + "pitch is never measured.",
  [L+"eas_wtsynth.c", L+"eas_dlssynth.c", L+"eas_voicemgt.c", L+"eas_math.c", L+"eas_midi.c"],
  [("pitch computation", L+"eas_wtsynth.c:WT_UpdatePhaseInc; eas_dlssynth.c:DLS_UpdatePhaseInc"), ("controllers", L+"eas_voicemgt.c:VMControlChange,VMPitchBend,VMUpdateRPNStateMachine"), ("cents to ratio", L+"eas_math.c:EAS_Calculate2toX")],
  "measured frequency of known waveforms and metamorphic equality of renderings")
p("M03", "Loudness and panning follow velocity, volume, expression and pan laws",
  "Output amplitude is proportional to the square of velocity, of channel volume and of expression (as applicable), zero settings give silence, and equal products give equal loudness; each unit of stream or master volume is one decibel; these settings act on sounding notes without delay beyond one block. Pan moves energy between the channels with constant power, mirror-symmetrically, and the master and stream volumes scale the whole mix, are reported back as set, and are refused outside 0..100.",
  ["inputs"], "all values of velocity, CC7, CC11, CC10, stream volume and master volume, and all orders of sending them",
  TESTS + "samples are never inspected.",
  [L+"eas_voicemgt.c", L+"eas_wtsynth.c", L+"eas_dlssynth.c", L+"eas_pan.c", L+"eas_mixer.c", L+"eas_public.c", L+"eas_math.c"],
  [("channel gain", L+"eas_voicemgt.c:VMUpdateStaticChannelParameters; eas_wtsynth.c:WT_UpdateChannel,WT_UpdateGain"), ("pan law", L+"eas_pan.c:EAS_CalcPanControl"), ("volume table", L+"eas_public.c:EAS_SetVolume,EAS_VolumeToGain")],
  "measured amplitude ratios against the law")
p("M04", "Program and bank changes select the documented instrument",
  "A program change, with the bank select in force when it is sent, determines the instrument of subsequent notes on that channel until the next one: the downloaded collection first, then the built-in sounds, then the default bank, then program zero; percussion channels use drum kits. Notes already sounding keep their instrument, a bank select alone changes nothing, and the selection is independent of other channels and streams.",
  ["inputs", "histories"], "all banks, programs, channels and orders of bank/program/note messages, with and without a collection",
  TESTS + "samples are never inspected.",
  [L+"eas_voicemgt.c", L+"eas_midi.c", L+"eas_mdls.c", L+"eas_dlssynth.c"],
  [("program lookup", L+"eas_voicemgt.c:VMProgramChange,VMFindProgram,VMFindDLSProgram"), ("bank select", L+"eas_voicemgt.c:VMControlChange")],
  "instrument signature in PCM vs a selection model")
p("M05", "Channels are interchangeable and isolated from each other",
  "A message addressed to one channel changes nothing about what any other channel plays, and all non-percussion channels are equivalent: renaming channels consistently leaves the samples unchanged as long as voices are not exhausted.",
  ["inputs", "histories"], "all message histories x all channel permutations fixing the percussion channel, and all pairs of histories on disjoint channels",
  TESTS + "samples are never inspected.",
  [L+"eas_voicemgt.c", L+"eas_midi.c"],
  [("channel state", L+"eas_voicemgt.c:VMControlChange,VMPitchBend,VMUpdateStaticChannelParameters"), ("dispatch", L+"eas_midi.c:ProcessMIDIMessage")],
  "PCM equality and superposition")
p("M06", "The live byte stream is parsed per MIDI, however it is cut up",
  "Splitting a live MIDI byte stream into writes of any sizes, inserting real-time bytes anywhere, using running status, or interleaving unknown system-exclusive and system-common messages does not change what is played. Incomplete messages, stray data bytes and aborted system-exclusive messages are discarded without affecting the complete channel messages around them.",
  ["inputs", "schedules"], "all byte streams x all chunkings x all insertions of transparent bytes",
  TESTS + "live streams are never opened.",
  [L+"eas_midi.c", L+"eas_public.c"],
  [("byte state machine", L+"eas_midi.c:EAS_ParseMIDIStream"), ("write", L+"eas_public.c:EAS_WriteMIDIStream")],
  "PCM vs the canonical encoding from a reference MIDI parser")
p("M07", "Polyphony limits hold and voice stealing spares the important notes",
  "The number of simultaneously sounding notes never exceeds the engine's, nor a stream's, polyphony setting, and as long as demand stays within the limit every note sounds exactly as without the limit. When demand exceeds it, a new note still sounds unless every voice belongs to a more important stream, the notes lost are released, much quieter or less important ones first and the oldest among equals, a less important stream never takes a voice of a more important one, and once demand drops everything plays normally again.",
  ["histories", "configurations"], "all note histories x engine and stream polyphony limits (changed at any time) x priorities",
  TESTS + "limits are never set and no more than a few notes are compared.",
  [L+"eas_voicemgt.c", L+"eas_public.c"],
  [("voice allocation", L+"eas_voicemgt.c:VMFindAvailableVoice,VMStealVoice,VMCheckPolyphonyLimiting,VMSetPolyphony,VMSetSynthPolyphony"), ("accounting", L+"eas_voicemgt.c:VMFreeVoice,VMIncRefCount")],
  "count of sounding notes decomposed from PCM of orthogonal tones")
p("M08", "Streams mix independently",
  "With several streams open, the output is the sample-wise sum (saturating) of what each would produce alone, as long as the total demand for voices fits; opening, closing, pausing, seeking or reconfiguring one stream changes nothing in the contribution of the others.",
  ["histories", "schedules"], "all combinations of up to four file or live streams and interleaved control histories",
  TESTS + "only one stream is ever open.",
  [L+"eas_public.c", L+"eas_voicemgt.c", L+"eas_mixer.c"],
  [("stream loop", L+"eas_public.c:EAS_Render"), ("virtual synths", L+"eas_voicemgt.c:VMInitMIDI,VMAddSamples,VMAllNotesOff,VMReset"), ("mix", L+"eas_mixer.c:EAS_MixEnginePost")],
  "PCM of the combination vs the sum of solo renderings")
p("M09", "Reset and universal messages act fully; unknown exclusives do nothing",
  "A GM reset returns every channel of its stream to power-on defaults and stops its notes, so that what follows plays as on a new stream with the same volume; reset-all-controllers restores exactly the controllers it covers and leaves program, volume and pan; master-volume exclusives scale the stream. Any other exclusive, controller or meta message that the engine does not support changes nothing.",
  ["histories", "inputs"], "all histories before a reset x all that follow; all exclusive message contents and all 128 controllers",
  TESTS + "samples are never inspected.",
  [L+"eas_midi.c", L+"eas_voicemgt.c"],
  [("sysex state machine", L+"eas_midi.c:ProcessSysExMessage"), ("resets", L+"eas_voicemgt.c:VMReset,VMResetControllers,VMInitializeAllChannels")],
  "PCM equality with a fresh stream / without the message")
p("L01", "Downloaded waves are played back faithfully",
  "A note played through a downloaded region reproduces the region's wave, resampled to the pitch given by root key, fine tune, key and sample rate, looped exactly over its loop when it has one and ending with silence otherwise, with the specified attenuation (within about 0.6 dB) and envelope (times within a few percent or blocks), for 8- and 16-bit waves, and each wave of a pool is heard as stored. Overlapping voices, other waves in the pool and their order do not change it.",
  ["inputs"], "all small collections: wave contents, formats, sample rates, loops, root keys, tunings, gains, envelopes; all keys and velocities",
  TESTS + "no collection is loaded.",
  [L+"eas_mdls.c", L+"eas_dlssynth.c", L+"eas_wtengine.c", L+"eas_math.c"],
  [("wave parse", L+"eas_mdls.c:Parse_data,Parse_wsmp,Parse_fmt"), ("interpolation", L+"eas_wtengine.c:WT_Interpolate,WT_InterpolateNoLoop,WT_VoiceGain"), ("pitch/gain", L+"eas_dlssynth.c:DLS_UpdatePhaseInc,DLS_StartVoice")],
  "PCM vs an independent wavetable model")
p("L02", "Keys and velocities select the right downloaded region and instrument",
  "Each note played on a downloaded instrument uses the regions whose key and velocity ranges contain it and no other (at most two layered regions unless they are non-exclusive), and each bank/program pair, melodic or percussion, uses the instrument defined for it wherever it occurs in the collection; notes outside all regions, or programs absent from the collection, never play another region's wave. Exclusive key groups cut only members of the same group on the same channel.",
  ["inputs"], "all collections of instruments x regions with arbitrary ranges, and all notes",
  TESTS + "no collection is loaded.",
  [L+"eas_mdls.c", L+"eas_dlssynth.c", L+"eas_voicemgt.c"],
  [("instrument table", L+"eas_mdls.c:Parse_lins,Parse_ins,Parse_lrgn,Parse_rgn"), ("region lookup", L+"eas_voicemgt.c:VMStartNote,VMFindDLSProgram"), ("key groups", L+"eas_voicemgt.c:VMCheckKeyGroup")],
  "identity of the tone heard vs a selection model")
p("L03", "Collection layout does not matter; conditional and unknown chunks are honoured",
  "Collections that differ only in irrelevant layout (chunk order where free, unknown or informational chunks, odd-length padding, order of the wave pool, extra unused waves or instruments) play identically. Conditional chunks at file, region and articulation level make that part present exactly when their expression is true, and a rejected or replaced collection leaves no residue.",
  ["inputs"], "all collections x all layout rewrites x all conditional expressions",
  TESTS + "no collection is loaded.",
  [L+"eas_mdls.c"],
  [("RIFF walk", L+"eas_mdls.c:NextChunk,Parse_insh,Parse_ptbl"), ("conditions", L+"eas_mdls.c:Parse_cdl")],
  "PCM of both layouts")
p("E01", "Bypassed effects are transparent; effect parameters read back as set",
  "With reverb and chorus bypassed (the initial state) or set to no effect, the output is bit-identical to the dry mix whatever other effect parameters were set. Every effect parameter accepts exactly its documented range, refuses others leaving the effect unchanged, reads back as set, choosing a preset sets the parameters the preset defines, and enabling one effect never alters the parameters of the other.",
  ["histories", "configurations"], "all parameter-setting histories x any music",
  TESTS + "effects are never enabled.",
  [L+"eas_reverb.c", L+"eas_chorus.c", L+"eas_public.c"],
  [("reverb parameters", L+"eas_reverb.c:ReverbSetParam,ReverbGetParam,ReverbProcess"), ("chorus parameters", L+"eas_chorus.c:ChorusSetParam,ChorusGetParam,ChorusProcess"), ("module dispatch", L+"eas_public.c:EAS_SetParameter,EAS_GetParameter")],
  "PCM equality and GetParameter results vs a model")
p("E02", "Effects are stable, decaying, and add wet signal to an intact dry one",
  "With reverb enabled the output is the dry signal plus a wet part that grows with the wet level, vanishes at level zero, saturates rather than wraps, treats signals linearly, and dies away (below about 0.3% of full scale) after the music stops in every preset; the chorus adds a copy some 10 ms late that swings by depth times 0.05 ms at rate times 0.05 Hz, a quarter turn apart left and right. Presets, rates and levels have the same effect however they were reached, and both keep their state across blocks.",
  ["inputs", "configurations"], "all music x presets x wet/level/rate/depth values x enable points",
  TESTS + "effects are never enabled.",
  [L+"eas_reverb.c", L+"eas_chorus.c"],
  [("reverb", L+"eas_reverb.c:Reverb,ReverbUpdateRoom,ReverbCalculateNoise,ReverbReadInPresets"), ("chorus", L+"eas_chorus.c:ChorusProcess,ChorusCalculateLFO")],
  "wet-minus-dry PCM: energy, decay, scaling, impulse response")
p("A01", "Settings accept exactly their documented range and read back as set",
  "Each setting (volume 0..100, transposition -12..12, playback rate 1/2..2, priority 1..15, polyphony, repeat, search flag) accepts exactly its range, reads back as last accepted (engine polyphony pinned to 1..64, stream polyphony 0 or above 64 meaning no limit; repeat counting down while playing), and refuses anything else with an error leaving the previous value and the audio unchanged. Settings persist through playback, are refused on streams that are live or not prepared, and those of one stream never alter those of another.",
  ["histories", "inputs"], "all histories of set/get calls with any integer values over any open streams",
  TESTS + "settings are never changed.",
  [L+"eas_public.c", L+"eas_voicemgt.c"],
  [("setters/getters", L+"eas_public.c:EAS_SetVolume,EAS_SetTransposition,EAS_SetPriority,EAS_SetPolyphony,EAS_SetSynthPolyphony,EAS_SetRepeat"), ("voice manager", L+"eas_voicemgt.c:VMSetPolyphony,VMSetPriority")],
  "results of set/get calls vs a model")
p("A02", "Metadata and note counts report exactly what the file contains",
  "Parsing or playing a song with a metadata callback delivers each title, copyright, lyric and text event of the file (in any track) once per pass with its type and its text, cut to the caller's buffer and never written beyond it, in time order. The reported note count is the number of note-ons played so far, over all repeats, not counting metadata scans and notes skipped by seeks.",
  ["inputs"], "all songs with arbitrary text events (any length, any bytes, any track) and any buffer size",
  TESTS + "no callback is registered.",
  [L+"eas_smf.c", L+"eas_public.c", L+"eas_midi.c"],
  [("metadata", L+"eas_smf.c:SMF_ParseMetaEvent; eas_public.c:EAS_RegisterMetaDataCallback,EAS_ParseMetaData"), ("note count", L+"eas_public.c:EAS_GetNoteCount; eas_midi.c")],
  "callback log vs the generated event list")
p("A03", "Render fills exactly the requested block and keeps exact time",
  "Each render call for the configured block size writes exactly that many stereo frames, reports that number, touches nothing else, and advances render time by exactly the block's duration; any other size is refused, writing nothing. The audio never wraps: on overload it saturates, and doubling up identical music clips rather than changing sign. With a limit on the work per call a block may take several calls, the first ones producing nothing, but the audio, locations and states are the same.",
  ["histories", "inputs"], "all render histories, overloads and argument values",
  TESTS + "the buffer's surroundings and the samples are never inspected.",
  [L+"eas_public.c", L+"eas_mixer.c", L+"eas_mixbuf.c"],
  [("render", L+"eas_public.c:EAS_Render"), ("saturation", L+"eas_mixer.c:SynthMasterGain,EAS_MixEnginePost")],
  "guarded output buffers, GetRenderTime, clipped PCM vs unclipped reference")
p("A04", "The command-line renderer outputs what the library renders",
  "For every song and option combination the command-line renderer writes exactly the raw samples the library produces for that song with that collection, reverb preset and wet level, from the start until the song has stopped. Unreadable or invalid inputs and option values are rejected with a diagnostic and a failing exit status instead of crashing or producing audio for them; files given after one that failed are not rendered.",
  ["inputs", "configurations"], "all songs (valid and not), optional collections, reverb presets and wet levels",
  TESTS + "the program is never run.",
  ["example/sonivoxrender.c", L+"eas_public.c", L+"eas_reverb.c"],
  [("render loop", "example/sonivoxrender.c:renderFile,initializeLibrary,main")],
  "stdout bytes and exit status vs in-process rendering")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))

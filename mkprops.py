"""Writes properties.jsonl (kept here as readable source)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})


G = "gsapi/gspattern.py"
IO = "gsapi/gsio.py"
MI = "gsapi/midiio.py"

prop("C01", "MIDI files written are valid and read back as the same song",
     """Writing any in-memory MIDI song (any resolution, number of tracks, channel, meta and system-exclusive events,
     delta times up to 2^28-1) produces bytes that a strict, independent Standard MIDI File parser accepts and decodes
     to the same header, tracks and events, and reading them back with the library gives an equal song.
     Converting ticks from relative to absolute and back (and the reverse) restores every tick.""",
     ["inputs"], "all songs made of the supported event classes, all tick values, all orders of channels and statuses",
     """The tests write the two or three corpus songs and only through the pattern exporter; running status, variable-length
     quantities at their boundaries, sysex and meta payloads and multi-track files are never varied.""",
     [MI], [("event encoder with running status and variable-length quantities", MI),
            ("absolute/relative tick conversion", MI)],
     ["bytes of the file written", "song read back"])

prop("C02", "Any valid MIDI byte stream is decoded exactly",
     """Reading any well-formed Standard MIDI File, however its encoder used running status, padded variable-length
     numbers, long headers, unknown meta events or several tracks, yields exactly the header and the event sequence
     (tick, kind, channel, data bytes) that the file format prescribes.
     The meaning of the decoded values - pitch wheel, tempo, key signature, time signature, text - equals the format's definition.""",
     ["inputs"], "all byte streams produced by an independent encoder of the file format with all of its freedom",
     """The tests read a handful of corpus files made by one or two sequencers, so encoder freedom (running status,
     padding, unknown metas, header size) is not varied and the decoded events are never compared with an independent decoder.""",
     [MI], [("track parser, running status, variable-length reader, event registry", MI)],
     ["song object returned by the reader"])

prop("C03", "MIDI import yields one event per note with its true time and length",
     """Importing a MIDI file gives exactly one event for every sounding note-on of the imported tracks, whose start and duration in beats are
     the ticks of the note-on and of its matching note-off (note-off message, or note-on with velocity zero) divided by the file's
     resolution, and whose pitch and velocity are the note's; a note that is never released lasts until its track ends.
     The pattern's duration is the latest end of track in beats, and its tempo, time signature, key and resolution are the file's (defaults: 120, 4/4, no key).""",
     ["inputs"], """all files in which the notes of one pitch do not overlap within a track, any resolution, tracks, channels,
     interleaved other events; repeated notes that touch; with overlap removal on or off""",
     """The tests only assert that corpus files give a non-empty pattern; no test compares onsets, durations or meta data with what the file says.""",
     [IO, MI], [("note-on/note-off matching", IO), ("meta event scan", IO)],
     ["pattern returned by the importer"])

prop("C04", "Note-to-tag maps, track selection and filters are applied as documented",
     """On import a note gets every class of the map that lists its pitch, or its (pitch, channel) with '*' as wildcard - the bare
     class if it is one, a tuple of classes if several - or its pitch name in pitch-name mode, unmapped notes are dropped or kept untagged as asked,
     track selection by name or index keeps exactly the notes of the selected named tracks, and track-name tagging tags a track's notes with the classes its name contains.
     The map given by the caller is never modified, and importing a collection of files gives what importing each file would.""",
     ["inputs", "configurations"], "all maps (integers, tuples, wildcards, lists of them), channels, pitches, track names and filter settings",
     "The tests import with pitch names only, apart from one fixed drum map, and never use channels, wildcards, track selection or filtering.",
     [IO], [("map normalisation and lookup", IO), ("track skipping", IO)],
     ["tags of imported events", "caller's map after the call"])

prop("C05", "Exporting a pattern to MIDI and importing it back loses nothing",
     """Exporting any pattern whose same-pitch notes do not overlap to a MIDI file and importing that file gives the same notes
     (pitch, velocity, start and duration to the nearest tick of the pattern's resolution), duration, time signature, key, resolution and
     (to the microsecond per beat) tempo, whatever the order of its events; with a drum map the note written is the one the map gives for the tag.
     A second export and import changes nothing at all, the track is named after the pattern, and the file is complete on disk when the call returns.""",
     ["inputs", "histories"], "all patterns with MIDI-range pitches and velocities, any resolution, meter, key, tempo and event order",
     """One test round-trips the corpus with a tolerance and fails on the current tree; it cannot see event order, drift over repeated exports, keys, or unflushed data.""",
     [IO, MI], [("beat-to-tick conversion and event ordering of the exporter", IO), ("file writer", MI)],
     ["exported file", "re-imported pattern"])

prop("C06", "JSON files give back the pattern that was saved",
     """Saving any pattern to JSON and loading it gives an equal pattern - name, duration, tempo, time signature, key, start time, every event with its
     tag, and its viewpoints, recursively - with and without tag indexing, and with tuple tags kept as tuples.
     Saving leaves the events of the saved pattern as they were, up to their order.""",
     ["inputs", "configurations"], "all patterns with string, tuple or nested tuple tags, numbers and viewpoints, all combinations of the saving options",
     """The stable test saves four corpus patterns with string tags and both options off; tag indexing, tuples, viewpoints, slices and key are not exercised.""",
     [IO, G], [("dictionary form of a pattern", G), ("tuple-preserving encoder and decoder", IO)],
     ["loaded pattern", "JSON text"])

prop("C07", "Copies, derived patterns and pickles are faithful and independent",
     """Copying a pattern or an event, or pickling it to a file and back, gives an equal object with all its fields, and the copy without events keeps every descriptive
     field (duration, tempo, time signature, key, name, file path, start time, resolution).
     Editing a copy, a slice, a split part or a filtered pattern made as a copy never changes the original, and two patterns created independently share no events.""",
     ["inputs", "histories"], "all patterns and all edits applied to the copies",
     "No test mutates a copy and looks at the original, and field-by-field fidelity is not compared.",
     [G, IO], [("deep copies in copying, slicing, splitting and filtering", G), ("pickle export", IO)],
     ["original after edits of the copy"])

prop("C08", "A time slice holds exactly the events that start inside it",
     """The slice of a pattern from a start time for a length contains exactly one copy of each event starting in the half-open interval [start, start+length),
     shifted to the slice's beginning, with everything else about it kept, and nothing else.
     The slice's duration is the length, its start time is the requested start, and with end trimming each event ends no later than the slice but is otherwise not shortened.""",
     ["inputs"], "all patterns, slice positions and lengths, including boundaries exactly on event starts and ends",
     "The tests slice four beats at zero from corpus files and only assert weak validity.",
     [G], [("time slicing", G)], ["slice returned"])

prop("C09", "Splitting into equal lengths conserves everything that sounds",
     """Splitting a pattern into equal lengths and putting the parts back at their start times reproduces, for every tag, pitch and velocity, exactly what sounded
     when in the original: events are cut at boundaries, every piece is in the part it falls in, and nothing is lost, duplicated, stretched or reordered in time.
     Each part lasts the requested length and starts at a multiple of it, empty parts are omitted or kept as placeholders as asked, and splitting with or without copying gives the same parts.""",
     ["inputs", "configurations"], "all patterns that fit their duration, all lengths (shorter than, equal to and longer than events, non-dividing), with or without a name, viewpoints too",
     "The tests split corpus files by four beats and only assert weak validity of the parts.",
     [G], [("recursive cutting of events at boundaries", G)], ["list of parts"])

prop("C10", "Filling with silences leaves no gap and touches no event",
     """After filling with silences every instant of the pattern is covered by an event, silences lie exactly where nothing sounded before (per tag when asked for that), and all original
     events are kept unchanged.
     Silences carry the requested tag, pitch and zero velocity, never overlap anything in their voice, and are no longer than the requested maximum when one is given; the copying variant leaves the source alone.""",
     ["inputs", "configurations"], "all patterns incl. overlapping, unsorted, empty ones, all maximum lengths and tags, per tag or global",
     "The one stable test fills one corpus file and asserts only generic validity, with overlap checks disabled.",
     [G], [("gap filling", G)], ["events afterwards"])

prop("C11", "Removing overlaps leaves each voice monophonic without losing onsets",
     """After removing overlaps no two events of the same tag (or pitch, when asked) sound at the same time, events come in time order, and exactly one event remains for every
     distinct onset of each voice.
     Each remaining event is one of the originals, unchanged except that it is cut at the next onset of its voice if it reached beyond it; other voices are not affected.""",
     ["inputs"], "all patterns with positive durations: duplicates, nested and chained overlaps, any order",
     "No test calls it with known overlaps; corpus imports rarely contain chains or duplicates.",
     [G], [("pairwise overlap scan", G)], ["events afterwards"])

prop("C12", "Grid alignment puts every event on the nearest step, one step long",
     """After aligning to a grid every event starts on the multiple of the step nearest to where it started (halves up), lasts one step, lies inside the pattern's
     duration, and no voice has two events on one step; every voice-step that some event rounds to is occupied and no other is.
     Events with a repeatable tag (silence by default) that span several steps are repeated on each of them.""",
     ["inputs", "configurations"], "all patterns, step sizes and repeatable tags",
     "A test aligns one corpus slice and checks a single start time; it fails on the current tree for another reason.",
     [G], [("grid alignment", G)], ["events afterwards"])

prop("C13", "Quantization snaps to the nearest grid value and is idempotent",
     """Quantizing moves every start time to the nearest multiple of the step (halves down) and every duration to the nearest multiple (halves up, at least one step), as
     selected, and changes nothing else: not the other quantity, the number, order, pitch, velocity or tags of events, nor the duration of the pattern.
     Quantizing twice equals quantizing once.""",
     ["inputs", "configurations"], "all patterns, step sizes (binary, ternary, decimal), both switches",
     "No stable test quantizes anything.",
     [G], [("quantizer", G)], ["events afterwards"])

prop("C14", "Legato and gap filling extend events exactly to the next onset",
     """Applying legato extends each event to the next onset of its voice (same pitch, or same tag when pitches are not used) if there is a gap, and the last event of each voice to the end of the
     pattern, without shortening any event or changing onsets, pitches, velocities or tags, so that no voice keeps an internal silence.
     Filling with the previous event makes every event last until the next distinct onset of the pattern, the last ones until its end, in whatever order the events are stored.""",
     ["inputs", "configurations"], "all patterns incl. unsorted, overlapping and substring-related tags",
     "The legato test only checks generic validity and fails on the current tree.",
     [G], [("per-voice legato", G), ("onset list", G)], ["events afterwards"])

prop("C15", "Filtering by tag or pitch partitions the events",
     """Selecting by a tag, a list of tags, a predicate or a pitch returns exactly the matching events in their order, and excluding by the same criterion returns exactly the others, so that together they are the
     pattern; a tag search that is not exact also matches tuple tags containing the tag.
     The results keep the pattern's descriptive fields, hold copies or the very events as asked, and the sets of all tags and all pitches list each value in use exactly once.""",
     ["inputs", "configurations"], "all patterns, all tag kinds (strings, tuples, numbers for exact search), criteria and copy modes",
     "One test checks an inequality of densities between the pattern and one selection.",
     [G], [("tag predicates", G), ("field copy", G)], ["selected pattern"])

prop("C16", "A pattern's duration always covers its events",
     """After adding events, in any order and of any length, the duration is the larger of its previous value and the latest end of any event, and the events are sorted by start.
     Fitting the duration to the events sets it to the latest event end, or only enlarges it, as asked; fitting it to the bar gives the smallest whole number of bars not shorter than it.""",
     ["inputs", "histories"], "all sequences of additions and fits, including long early events and events added out of order",
     "No test adds events; corpus patterns have their duration set by the importer.",
     [G], [("duration update on addition", G), ("last note-off", G)], ["duration after each step"])

prop("C17", "Removing and comparing events affects exactly the matching ones",
     """Removing an event removes every event equal to it and no other, removing by tags removes every event that carries one of the tags and no other, and the remaining events keep their order and values.
     Searching identical events returns exactly those with an equal tag, or with at least one common tag when asked; event and pattern equality holds exactly when all compared fields are equal.""",
     ["inputs", "histories"], "all patterns with duplicates and neighbours carrying the same tags, all tag lists, sequences of removals",
     "No test removes events or looks for identical ones.",
     [G], [("index collection and deletion", G), ("tag comparison", G)], ["events afterwards", "search results"])

prop("C18", "Transposition and time-stretching are exact and reversible",
     """Transposing adds the interval to every pitch, renames tags to the new pitch names (hashable, as on import) and changes nothing else; intervals add up and cancel out.
     Stretching multiplies every start, every duration and the pattern's duration by the ratio and changes nothing else; ratios multiply and cancel out.""",
     ["inputs", "histories"], "all patterns, intervals staying in the MIDI range, ratios, and sequences of them",
     "No stable test transposes; stretching is checked at one ratio for one start time.",
     [G], [("transpose", G), ("time stretch", G)], ["pattern afterwards"])

prop("C19", "Queries by time return exactly the events sounding or starting there",
     """The events active at a time are exactly those with start <= time < end, the events starting at a time (with tolerance t) exactly those with 0 <= time - start <= t, and an event contains a time on the same terms.
     Cutting an event in steps yields consecutive step-long copies from its start, as many as fit (at least one), and the text grid shows for each tag silence exactly on the steps where no event of it is active.""",
     ["inputs"], "all patterns and times, incl. times equal to starts and ends, tolerances, step sizes",
     "These queries are only used indirectly by tests.",
     [G], [("interval tests", G)], ["returned events", "printed grid"])

prop("C20", "Viewpoints describe exactly the slices of the pattern they were computed on",
     """A viewpoint has one event per non-empty slice, in time order, whose start and duration are the slice's, whose tag is the descriptor's value for that slice, and whose origin is the slice;
     slicing is by equal lengths, per distinct onset (all events active then, until the last of them ends), or the whole pattern.
     The viewpoint is stored under its name, refers to the pattern, and computing it leaves the pattern's events unchanged up to order.""",
     ["inputs", "configurations"], "all patterns, descriptors and slice types",
     "The viewpoint tests fail on the current tree (typos in the tests) and print rather than compare.",
     [G, "gsapi/gsdescriptors.py"], [("viewpoint computation", G)], ["viewpoint pattern", "pattern afterwards"])

prop("C21", "Density and instrument count measure exactly the included events",
     """Density is the total duration of the events whose tag is included and not ignored (silence by default); it is additive over disjoint sets of events, independent of their order, and scales with time-stretching.
     The number of tags is the number of distinct included, non-ignored tags, the drum feature space reports these values for its instrument groups, and computing any of them leaves the pattern unchanged.""",
     ["inputs", "configurations"], "all patterns and tag kinds, lists of included and ignored tags",
     "A test checks bounds of the density on one corpus file.",
     ["gsapi/gsdescriptors.py", "gsapi/gsextractors.py"], [("density sum", "gsapi/gsdescriptors.py"), ("drum space", "gsapi/gsextractors.py")], ["descriptor values"])

prop("C22", "Syncopation follows the metrical weights and has no memory",
     """The syncopation of a pattern is the sum, over steps that sound while the next (cyclically) does not, of the absolute difference of the two steps' metrical weights, where a step weighs one for each level of binary subdivision of the duration it falls on.
     It depends only on the pattern: the same descriptor object gives the same value whatever patterns, of whatever durations, it was used on before.""",
     ["inputs", "histories"], "all patterns of any duration and all sequences of them through one descriptor",
     "The stable test only checks non-negativity on one-beat slices of one file, always with the same duration.",
     ["gsapi/gsdescriptors.py"], [("cached weights", "gsapi/gsdescriptors.py")], ["descriptor value"],
     [("weights", "metrical weights cached for the last duration", "gsapi/gsdescriptors.py")])

prop("C23", "Chord recognition finds the best-fitting chord, wherever it is transposed",
     """For every pattern that sounds, the chord reported is one whose root and type score highest under the documented template score (every type that reaches that score, each with such a root, when duplicates are asked for), and silence is reported when nothing sounds.
     The complete chord of every known type on every root is recognised as such; transposing the pattern transposes the roots, and octave displacement, event order and splitting an event in two change nothing; the restriction to major and minor is respected.""",
     ["inputs", "configurations"], "all patterns, all chord types on all roots and voicings, both options",
     "The chord test logs mismatches on the harmony corpus instead of failing.",
     ["gsapi/gsdescriptors.py", "gsapi/gsdefs.py"], [("template convolution and maximum", "gsapi/gsdescriptors.py"), ("chord tables", "gsapi/gsdefs.py")], ["descriptor value"])

prop("C24", "A Markov style is the table of transition frequencies of its corpus",
     """After learning from patterns, the probability stored for a step, a past (of the chosen order, wrapping around the loop) and a state is the relative frequency of that state after that past at that step over the aligned patterns, where a state is the set of tags starting on the step (silence if none).
     Every stored row sums to one, the state listings and the per-step matrix agree with the table, and the patterns learned from are not modified.""",
     ["inputs", "configurations"], "all corpora of patterns of the loop's duration, orders, step counts and loop durations",
     "The Markov tests fail on the current tree at generation and never look at the table's values.",
     ["gsapi/gsstyles.py", G], [("table building and normalisation", "gsapi/gsstyles.py")], ["transition table", "state and matrix queries"])

prop("C25", "Markov generation follows the learned transitions and is repeatable",
     """Generating from any learned style succeeds and yields a pattern of the loop's duration with one-step events on the step grid, in which every state following a full past is one that was observed after that past at that step.
     The same seed gives the same pattern, different seeds reach every state observed, and the frequencies of generated states approach the learned probabilities.""",
     ["inputs", "configurations"], "all learned styles, orders and seeds; frequencies over large samples of seeds",
     "The generation tests fail on the current tree and only check that something is generated.",
     ["gsapi/gsstyles.py"], [("start state choice and sampling", "gsapi/gsstyles.py")], ["generated patterns"])

prop("C26", "A saved style is restored with the same behaviour",
     """A style restored from its saved internal state, JSON file or pickle file has the same configuration and transition probabilities as the one saved, reports the same built status, and can generate.
     A pattern-database style restored from JSON holds equal patterns and serves them in the configured order (the indexed one, successive ones, or members only).""",
     ["inputs", "histories"], "all styles learned from all corpora, before and after saving and restoring",
     "The style tests never save to a file.",
     ["gsapi/gsstyles.py", G], [("internal state, JSON and pickle persistence", "gsapi/gsstyles.py")], ["restored style"])

prop("C27", "The density transformer moves each voice between empty, original and full",
     """For every sequence of density settings, density 1 of a voice gives the step-aligned original events of that voice, 0 removes them all and 2 gives an event on every step; between them the number of events is the corresponding fraction
     rounded to within one event, below one the events are a subset of the original ones and above one a superset.
     Voices not mentioned stay as they are, also when an equal pattern is given again, no step of a voice ever has two events, the transformation never fails, and the input pattern is not modified.""",
     ["inputs", "histories"], "all patterns, step counts and sequences of per-voice densities in [0, 2]",
     "The one test is broken on the current tree and only ran one fixed sequence.",
     ["gsapi/gstransformers.py"], [("per-voice note and silence bookkeeping", "gsapi/gstransformers.py")], ["transformed pattern after each setting"],
     [("currentState", "per voice lists of steps with notes, silences, added and removed notes", "gsapi/gstransformers.py")])

prop("C28", "Chord slicing lists the sounding notes at every onset",
     """Slicing a pattern vertically gives one chord event per distinct onset, in time order, whose components are exactly the pitches and velocities of the events active at that onset and whose tags are exactly theirs (a tuple tag contributes its elements).
     The result covers the input's duration and the input is not modified beyond ordering.""",
     ["inputs"], "all patterns with untagged, string-tagged and tuple-tagged events",
     "No test uses this transformer.",
     ["gsapi/gstransformers.py"], [("vertical slicing", "gsapi/gstransformers.py")], ["chord events"])

prop("C29", "A dataset is exactly the set of matching files, imported one by one",
     """A dataset over a folder and a file pattern holds one pattern per matching file, each equal to importing that file alone with the dataset's map and overlap setting, whether the pattern is given with or without its extension, and re-importing
     with another pattern replaces them.
     Slicing the dataset gives the concatenation of the slices of its patterns and computing a viewpoint computes it for every pattern; files are never modified.""",
     ["inputs", "configurations", "histories"], "all folders of generated MIDI files, file patterns, maps and settings, and sequences of re-imports",
     "Tests load fixed corpus folders and never compare with single imports.",
     ["gsapi/gsdataset.py", IO], [("glob handling and import loop", "gsapi/gsdataset.py")], ["patterns of the dataset"])

prop("C30", "Bass-line rhythm coding and the learned bass model are exact",
     """Coding onsets into per-beat rhythm codes puts each onset on its nearest sixteenth inside the beat, ignores onsets beyond the length, and decoding a code with the rhythm dictionary gives back exactly those sixteenths.
     The learned model's initial, transition and interlocking probabilities are the normalised counts of first beats, consecutive beats (the last one followed by the first) and coinciding kick and bass beats, each non-empty row sums to one, and the exported tables contain exactly the non-zero entries.""",
     ["inputs"], "all onset lists, lengths and sequences of rhythm codes",
     "No test imports this module at all.",
     ["gsapi/bassmine.py"], [("binarisation and coding", "gsapi/bassmine.py"), ("count matrices", "gsapi/bassmine.py")], ["codes", "model matrices", "exported dictionaries"])

prop("C31", "Generated bass lines respect the learned transitions and constraints",
     """An unconstrained bass line of any length starts with a learned first beat and only uses learned transitions; one constrained by a kick pattern also uses, on each beat, only bass rhythms learned to occur with that kick beat; a variation keeps
     every beat marked to be preserved (and always the first) and joins the others by learned transitions.
     A constrained model lists, for each beat, exactly the learned continuations that satisfy the constraint and can be continued to the end, so it has no dead ends, and gives them their learned probabilities relative to each other; draws follow the listed probabilities.""",
     ["inputs"], "all models learned from cyclic rhythm sequences, all kick targets of two beats or more that admit a solution (unlearned kick beats count as the metronome beat), masks and random draws",
     "No test imports this module at all.",
     ["gsapi/bassmine.py"], [("arc-consistency filtering", "gsapi/bassmine.py"), ("sampling", "gsapi/bassmine.py")], ["generated patterns", "constrained model"])

prop("C32", "Pitch names, chord tables and file matching are mutually consistent",
     """Pitch naming is a bijection between MIDI numbers and name-octave pairs consistent with the note table, pitch-class spelling in sharps or flats denotes the same pitch class as its base-40 code, and the interval-based spelling of a chord names the
     pitch classes its chord type lists.
     Suffix stripping, file matching and file searching return exactly the names that match, each once, sorted where promised.""",
     ["inputs"], "all MIDI numbers, pitch classes, chord types, and generated names, suffixes and directory trees",
     "No test touches these helpers directly.",
     ["gsapi/gsutil.py", "gsapi/gsdefs.py"], [("base-40 arithmetic and tables", "gsapi/gsdefs.py"), ("file helpers", "gsapi/gsutil.py")], ["returned names and lists"])

prop("C33", "Any history of edits keeps a pattern equal to its reference model",
     """After any sequence of edits, queries, copies, slices and saves applied to several patterns, each pattern's events, duration and descriptive fields equal those of a simple reference model that applies the documented meaning of each
     operation to plain values.
     Operations documented as queries or as returning copies change no pattern other than by ordering its events.""",
     ["histories"], "all operation sequences over a set of patterns, with aliasing through copies and shared events excluded",
     "Unit tests apply one or two operations to corpus patterns; interactions between operations are not explored.",
     [G, IO], [("all editing operations of the pattern class", G)], ["pattern state after every step"])

prop("C34", "Using the library has no memory",
     """The result of a call depends only on its arguments and the objects involved: after any history of other calls on other objects (imports, exports, slicing, descriptors, styles, transformers, data sets, calls that
     fail half-way, callers that modify what they were given, changes of the logging level), repeating a call with equal arguments and equal random seed gives an equal result, objects made without arguments
     are made as before, and the library's public tables are unchanged.""",
     ["histories"], "all sequences of public operations on separate objects, including failing ones",
     "Each test is a single short scenario; state left behind in a module, class or default argument shows only in what comes after.",
     [G, IO, MI, "gsapi/gsdefs.py", "gsapi/gsutil.py", "gsapi/gsdescriptors.py", "gsapi/gsstyles.py", "gsapi/gstransformers.py"],
     [("module tables and class-level profiles", "gsapi/gsdefs.py"), ("default arguments and class attributes", G)],
     ["results of repeated calls", "public tables"])

prop("C35", "MIDI event fields, copies and printed forms agree with their bytes",
     """Setting a field of a MIDI event after it was made (tick, channel, pitch, velocity, control, value, pitch wheel, text, tempo, time or key signature) changes exactly that field's bytes and reads back;
     a copy with changes equals the original but for the changes and shares nothing with it; sorting events orders them by tick; and the printed form of an event, track or song evaluates to an equal one.""",
     ["inputs", "histories"], "all event kinds and field values, sequences of settings, copies edited afterwards",
     "The tests only make MIDI events through the exporter's constructor calls.",
     [MI], [("field properties", MI), ("copy and repr", MI)], ["data bytes of events", "events made from printed forms"])

prop("C36", "Printed and listed forms show exactly the content",
     """Printing a pattern shows its descriptive fields and one line per event, in order, with the event's tag, pitch, velocity, start and duration; the list form has one entry per event; a chord prints its components; and the text form of a Markov
     table has, for every step, the same pasts, states and probabilities as the table. Printing changes nothing.""",
     ["inputs"], "all patterns, chord sequences and learned tables with string tags (patterns: tuple and numeric tags too)",
     "No test reads what is printed.",
     [G, "gsapi/gsstyles.py", "gsapi/gstransformers.py"], [("__repr__ and patternToList", G), ("text table", "gsapi/gsstyles.py")], ["printed text", "listed events"])

prop("C37", "Damaged MIDI files are read safely",
     """Reading any bytes as a MIDI file ends, with an exception or with a song, whatever lengths and counts the bytes claim, never changes the file and leaves later reads unaffected.
     From a file cut short only a beginning of each true track is read, a track that is over too soon leaves the others as they are, tracks before the damage are read exactly, and an imported pattern never has an event with a negative start or duration.""",
     ["inputs"], "all valid files with bytes cut, changed, removed or inserted, false lengths, counts and event sizes",
     "The tests only read sound files.",
     [MI, IO], [("chunk and event reader", MI), ("note matching", IO)], ["song or exception of the reader", "imported pattern"])
prop("C38", "Both supported Pythons give the same results and read each other's files",
     """Under Python 2.7 and under Python 3 the same call on the same data - importing, exporting, saving, slicing, splitting, editing, describing, learning a style - gives the same result, up to random choices, choices among equally good answers and the order of simultaneous events.
     A pattern saved to JSON or MIDI and a Markov or database style saved to JSON under one of them is read under the other as the same object.""",
     ["inputs"], "all calls with a determined result, all patterns and styles, in both directions",
     "The tests run under one interpreter at a time, and most need files that are not there.",
     [G, IO, MI, "gsapi/gsstyles.py"], [("MIDI bytes and text", MI), ("JSON reader and writer", IO), ("style state", "gsapi/gsstyles.py")],
     ["observations of the calls under both", "objects read from the other's file"])

prop("C39", "Whole workflows, from MIDI files to new MIDI files, give what the files imply",
     """Importing a folder of MIDI files as a dataset, splitting its patterns, describing the parts, learning a Markov style from them, generating, saving and reloading the style, and exporting and importing the result
     gives at every stage exactly the values that follow from the notes in the files; learning and describing leave the parts unchanged. Likewise importing notes, transposing and editing them in any order and exporting gives a file with the notes the steps prescribe.""",
     ["inputs", "histories"], "all folders of valid files, resolutions, maps, loop lengths, orders and seeds; all sequences of edits between import and export",
     "The tests have no workflow that runs from files to files, and most need files that are not there.",
     ["gsapi/gsdataset.py", G, IO, "gsapi/gsstyles.py"], [("dataset import", "gsapi/gsdataset.py"), ("splitting and editing", G), ("style", "gsapi/gsstyles.py"), ("MIDI import and export", IO)],
     ["values after every stage", "notes of the exported file"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))

# -*- coding: utf-8 -*-
"""Prose of DESIGN.md; tools/mkdesign.py adds the tables that come from the code."""

HEAD = u"""# Deciding gsapi's properties by property-based testing

gsapi is a library for symbolic music: patterns of timed events, MIDI and JSON files in and out, pattern
editing, descriptors (density, syncopation, chords), learned styles (Markov tables, databases, bass lines) and
transformers. Its guarantees are relations between values - "the slice holds exactly the events that start
inside it", "the file reads back as the same notes", "the probability is the relative frequency" - quantified
over every pattern, every file, every corpus and every history of calls. Tests sample a handful of files. What
decides each property here is a search over generated inputs against an explicit oracle; nothing else is used.

## How every check works

`python3 check.py Cnn --tier quick|thorough` runs property Cnn; `--facet NAME`, `--scale X` narrow or stretch
it, `--replay FILE` repeats a stored failure. Everything is a pure function of /repo's tree and `VERIF_SEED`.

1. **Generate.** Hypothesis (CPython 3.12, `python3-vt`) generates plain-data cases: patterns as lists of
   (start, duration, pitch, velocity, tag), MIDI byte streams from an encoder of our own, corpora of rhythms,
   sequences of edits. 10 shards with seeds derived from (property, facet, VERIF_SEED, shard).
2. **Execute.** A persistent worker imports `gsapi` from /repo's *working tree* (no byte code is read or
   written) and runs a *probe* - the calls on the case - and sends the observation back as data.
   gsapi supports Python 2.7 and 3 (`.travis.yml`, the version tests in its code), so every property is decided
   under **both**: six shards drive Jython 2.7, under which its tests run here, four drive CPython 3.12 (the
   worker only puts back the names that 3.10 moved out of `collections`). `bassmine` needs numpy, which does
   not exist for Jython: C30 and C31 run under CPython alone. A replay file names its interpreter.
3. **Judge.** The facet's oracle judges the observation: a reference model over plain values, an independent
   parser or encoder of the file format, a round trip, a metamorphic relation, or an invariant over a
   history. Oracles never import gsapi and never look at its source text.
4. **Shrink and replay.** Hypothesis shrinks a failure (25 s at most). It counts only when a *fresh* worker
   shows it again, alone, or after replaying the worker's whole history of cases, which is then cut down (a
   failure that depends on earlier calls is a violation too, and its replay file holds the history). The
   smallest becomes `evidence/replays/<id>-<hash>.json`, and the check prints the VIOLATION line.
5. **Hangs.** A call that does not return in 60 s is tried twice more in fresh workers with 90 s each; only
   then is it a violation (C37 and every "always ends" clause). Workers die with the check.
6. **Evidence.** Cases generated, *distinct* non-trivial ones by the facet's stated rule, and samples go to
   `evidence/<id>.json`. Too few non-trivial cases is an error (exit 2), not a pass.

A quick check takes 10-90 s on 8 cores; a thorough one multiplies the number of cases by about ten (limit
700 s). If the time limit is reached first, the evidence says so (`truncated_shards`).

Numbers. Times are generated as dyadic rationals wherever the oracle demands exact equality, so that float
arithmetic on them is exact and an equivalent formula cannot differ by rounding; the `inexact` facets use
sevenths, thousandths, tempo-like numbers and judge with tolerances and with *may/must* sets at boundaries.

Files: layout
* `harness/engine.py` runs, shrinks, confirms; `worker.py`, `codec.py` - the worker and its wire format;
  `strat.py`, `midistrat.py` - strategies; `model.py`, `smf.py` (independent Standard MIDI File parser and
  encoder), `markov.py`, `bassref.py` - reference models; `probes/` - the calls; `props/cNN.py` - facets.
* `mkprops.py` writes properties.jsonl, `mkmanifest.py` MANIFEST.json, `tools/mkdesign.py` this file,
  `tools/mutate.py` runs the checks on syntactic mutants of gsapi (see *Mutants*).

## The properties

For each: what is specified and generated, the oracle, the bounds, and what lies out of scope. Sizes are the
numbers of generated cases in the quick and thorough tiers; the last column is what makes a case non-trivial.
"""

WHY = {
"C01": u"""*Generated*: songs made by the library's own classes - resolutions 1-32767, formats 0-2, up to four
tracks, every channel event, the meta events of `midiio` with random fields, system exclusive data, unknown
meta types, deltas up to 2^28-1. *Oracle*: `smf.py`, a strict parser written from the Standard MIDI File
specification (chunk lengths, canonical variable-length numbers up to four bytes, running status, exactly one
end of track); then reading back with gsapi must give the same events, and absolute/relative conversions must
undo each other. *Why tests cannot*: the failures are at particular delta sizes, event kinds that follow each
other (running status after a meta event) and field values.""",
"C02": u"""*Generated*: well-formed files from our own encoder, whose freedoms are drawn separately from the content:
running status on or off per event, padded variable-length numbers, header chunks longer than six bytes,
unknown meta types, F0/F7 events, any text. *Oracle*: the content itself (the encoder's input), plus the
format's meaning of decoded values (14-bit pitch wheel, microseconds per quarter, denominators as powers of
two, signed key byte). System exclusive packets with and without a final F7 are generated. Unknown chunks between tracks are out of scope: the reader documents no support.""",
"C03": u"""*Generated*: files with non-overlapping notes per (channel, pitch), any interleaving across channels and
tracks, note-offs as messages or as velocity 0, stray note-offs, never-released notes, resolutions 1-9600
(shortest note one tick). *Oracle*: tick arithmetic on the generated notes. Overlapping notes of one pitch on
one channel are ambiguous in the format and not generated.""",
"C04": u"""*Generated*: maps with bare pitches, (pitch, channel) pairs, wildcards on either side and several classes
per pitch; pitch-name mode; track names that contain, equal or miss the selected names; collections of files.
*Oracle*: a model of the map's meaning; the caller's map is compared with a deep copy of itself.""",
"C05": u"""*Generated*: patterns in any order without same-pitch overlap, all descriptive fields, drum maps in every
shape the exporter accepts. `own-map`: maps the caller wrote, in dict or tuple form. *Oracle*: round trip to the nearest tick; a second export/import must be exact (a
fixed point); the exported file is also parsed by `smf.py` (track name, end of track, note order). Names are bounded to Latin-1: the format has no encoding for others, and
they raise ValueError.""",
"C06": u"""*Generated*: patterns with nested tuple tags, numbers, viewpoints with origins (of viewpoints too), eventless
and nested ones; saved into new and nested folders, over longer files, and round-tripped as a dictionary in memory.
*Oracle*: round trip on every field the format documents. JSON does not store resolution or file path; an
unnamed pattern cannot be saved without a file name (TypeError) and is not judged.""",
"C07": u"""*Generated*: patterns with metadata and viewpoints; every way to derive one (copy, slice, split, filter,
copy without events, pickle, `saves`: pickle files). *Oracle*: field equality, then each derived object is spoiled in every field and
the original observed again, and the reverse; fresh Patterns and Events have fresh defaults.""",
"C08": u"""*Generated*: patterns in any order, slice bounds drawn from onsets, ends and free times. *Oracle*: the
definition (`start <= t < start+length`) on plain values; inexact times are judged with must/may sets.""",
"C09": u"""*Oracle*: conservation - the parts shifted back and joined must give, per (tag, pitch, velocity), the same
set of sounding instants and the same onsets as the original cut at boundaries; placeholders, names and starts
follow the definition; the copying and in-place variants agree. Both exact and inexact lengths.""",
"C10": u"""*Oracle*: an interval-cover model per voice or over all voices: silences must lie exactly in the gaps.
Bounds: up to 48 events, gaps at start and end, maximal silence lengths that divide and do not divide gaps.""",
"C11": u"""*Oracle*: per voice, exactly one survivor for each distinct onset, one of the originals, cut at the next
onset of its voice. Which of two simultaneous events survives is not prescribed. Voices by tag or by pitch,
crossings of many events ahead are generated on purpose (long chains).""",
"C12": u"""*Oracle*: occupied (voice, step) pairs computed from the definition (halves up), incl. repeatable tags; a
wrapped last step; `align-inexact-steps` uses steps such as 1/3 and judges only what rounding cannot decide.""",
"C13": u"""*Oracle*: nearest multiple (halves down for starts, up for durations, at least one step), and idempotence.
Grids that are no binary fractions are judged to 1e-9 and away from ties.""",
"C14": u"""*Oracle*: next onset in the voice (or in the pattern) on plain values, for unsorted patterns too; no event
may get shorter.""",
"C15": u"""*Generated*: all criterion kinds (tag, list, predicate, pitch), tuple tags, string tags that are substrings
of each other, `exactSearch` given and left out. *Oracle*: partition by a model of "matches".""",
"C16": u"""*Oracle*: running maximum of event ends over any order of additions; whole bars by exact fractions.""",
"C17": u"""*Oracle*: multiset of events that are not equal to the removed one; identical-event search by tag equality
or common elements; equality exactly when all compared fields are equal (one field is changed at a time).""",
"C18": u"""*Oracle*: arithmetic on plain values, composition and inversion laws. Names of pitches below 0 are not
judged (no octave convention is documented).""",
"C19": u"""*Oracle*: the inequalities themselves at times drawn from onsets, ends, their neighbours and tolerances; the
text grid is parsed back and compared step by step.""",
"C20": u"""*Oracle*: our own slicer and a describing function that records what it was given; stored under its name,
refers to the pattern, leaves it unchanged.""",
"C21": u"""*Oracle*: sums by exact fractions, metamorphic laws (split, permutation, stretching), group-by-group values of
the drum space; patterns whose events end after the duration too.""",
"C22": u"""*Oracle*: metrical weights recomputed by counting binary subdivisions; the same descriptor object is used on a
sequence of patterns of different durations (memory between calls is the point), fractional durations too.""",
"C23": u"""*Oracle*: template scores recomputed from `gsdefs.chordTypes` (data, read through the probe) - any maximal
(root, type) is accepted; metamorphic relations (transposition, octaves, order, splitting an event); complete
chords of every type. When duplicates are asked for, every type that reaches the maximum must be listed.""",
"C24": u"""*Generated*: corpora of patterns of the loop's duration, orders 1-3 below the number of steps, loops whole
and fractional, pasts that wrap. *Oracle*: counting in `markov.py`. A state is the set of tags that start on the
step, "silence" if none do. `format`: the pattern on the grid (by the style or its chain) and the look back around
the loop give the same states.""",
"C25": u"""*Oracle*: every generated transition must have been observed; same seed, same pattern; every observed state
is reached over many seeds; `frequencies` compares counts of ≥ 300 draws with the learned probabilities by
bounds that a correct sampler violates with probability below 1e-9 (seeds are fixed, so there is no flicker).""",
"C26": u"""*Oracle*: round trip of configuration and table through internal state, JSON and pickle, built status, and
equal generation from equal seeds; databases keep patterns and serving order.""",
"C27": u"""*Generated*: sequences of settings in [0, 2] (values outside are clamped), per voice (a distinct tag), with
changes of pattern in between: an equal one, a copy with one thing changed, the same object edited, voices that
only an earlier pattern had. *Oracle*: at 0, 1 and 2 exact; in between the fraction
within one event and subset/superset of the aligned originals; random choices are free.""",
"C28": u"""*Oracle*: sets of (pitch, velocity) and of tags active at each onset; tuple tags contribute elements.""",
"C29": u"""*Generated*: folders with files that match and nearly match, sub-folders, other extensions, relative
folders; histories of imports with files written and removed in between; iteration and indexing. *Oracle*: each file
imported alone; concatenation of slices; files compared byte by byte afterwards. Folder names with glob
characters are not generated (the folder may itself be a glob pattern).""",
"C30": u"""*Oracle*: `bassref.py`, counts by dictionary; decode(encode) on the sixteenths; normalisation does not touch
the counts. Transitions include the one from the last beat to the first (as the code and its paper do).""",
"C31": u"""*Oracle*: a solver of our own: the set of states from which the constraint can be met to the end; lines must
use only learned transitions inside that set, constrained models list exactly those with relative
probabilities; draws by frequency bounds as in C25. Bounds: solvable targets, of one beat or more; kick codes
that were not learned count as the metronome's code 8; the first beat of a variation is always kept and
target lines are made of learned transitions.""",
"C32": u"""*Exhaustive where finite*: all 128 pitches, all chords of all roots; generated names, suffixes and folders,
incl. wildcard characters in names. *Oracle*: interval arithmetic modulo 12 and base-40, `fnmatch`-free model of
matching.""",
"C33": u"""*Stateful*: histories of up to a few dozen operations over several patterns, each judged after every step
against a model on plain values; queries must change nothing but order. This finds defects which need two
operations that are each right alone (sharing between derived patterns, caches, stale durations).""",
"C34": u"""*Stateful*: a battery of fixed calls, the `gsdefs` tables and the cases of the other properties' facets
("pins") are repeated before and after histories of other calls, including failing ones, callers that modify
their arguments or results, and changes of the logging level. *Oracle*: equality with the first observation.
Generation without seed is excluded (it reseeds by time by design). `fresh`: the library is loaded twice; the
history runs in one copy only, on objects crossed and changed on purpose, and a last call must give the same in
both.""",
"C35": u"""*Oracle*: bytes written after each assignment through `smf.py`; copies with changes, and independence by
spoiling; neighbouring events compare as their ticks do; `repr` is evaluated in the module's names and must give an equal object. Equality of MIDI events is
by tick in this library and is not judged; meta events other than unknown ones have no copy.""",
"C36": u"""*Oracle*: the printed lines are parsed back into fields and compared with the pattern; text tables of Markov
styles likewise, for alphabetic string tags only (others cannot be parsed back unambiguously). Plots are drawn on a stand-in for
matplotlib that records the matrices and labels. Names are ASCII (Python 2's `repr` cannot hold others).""",
"C37": u"""*Generated*: valid files damaged by truncation, byte changes, inserted and removed pieces, wrong lengths and
counts, and plain bytes. *Oracle*: the call ends; the file is unchanged; a following read of a good file is
right; tracks before the damage are exact and a truncated track is a prefix of the true one; imports have no
negative times; the damaged file is read again after others and must give the same. Memory: workers have 768 MB, and a claimed length must not be allocated.""",
"C38": u"""*Oracle*: none but the other interpreter: each shard holds one Jython and one CPython worker, sends both the same case
and compares what they observe; for the exchange facet, four readings of one object (written under 2 or 3, read under 2 or 3)
must agree. The cases are those of the other properties' facets whose result is determined, so the reference models of those
properties judge the values and this one their agreement (also on values the models leave open). *Not compared*: random
choices, chord names (several fit), order of simultaneous events and of tags, damaged files, times half-way between two ticks.""",
"C39": u"""*Generated*: folders of one to three files (drum notes over a random map, resolutions that are powers of two, so that times
are exact), loop lengths, steps, orders and seeds; and note files with a random order of edits. *Oracle*: the models of the single
stages (C03, C09, C21, C24, C33), each applied to the value that the *model* or the file gave, so an error that two stages share, or that shows only
in what the next stage receives (an alias, a tag or a duration of the wrong kind), is not absorbed. *Not judged*: an
exported pattern with the same pitch twice at a time (MIDI cannot tell the notes apart).""",
}

TAIL = u"""
## What is not covered

* `py3-MIDI`-style code, `examples/`, and `parallelCCompile`: not part of the library's behaviour.
* The wording of log messages (`gslog`); that logging has no effect on results is part of C34.
* Concurrency: gsapi has no threads and no locks; schedules do not apply. Crash points: it writes files in one
  go and documents no atomicity; C05 checks that a file is complete when the call returns.
* `not_applicable` is empty: every listed property is decided by generated-input search.

## Statements corrected while building (false alarms)

These were found because the check alarmed on a tree that was right; the statement or oracle was corrected.
* C24: a state is the set of tags *starting* on a step (not sounding); patterns have the loop's duration.
* C30: a line's transitions include the one from its last beat to its first.
* C31: a variation always keeps its first beat; unlearned kick codes fall back to the metronome's; a
  constraint that cannot be met from any first beat is outside the property.
* C27: voices are distinct tags, an equal pattern keeps the settings, densities are clamped to [0, 2].
* C28: elements of a tuple tag are tags of the chord.
* C23: with duplicates, every *type* that reaches the score is listed (with such a root), not every root.
* C29: slicing a dataset by a descriptor needs a slice type.
* C06: resolution and file path are not part of the JSON form.
* C33, C36: names outside Latin-1 (MIDI) and outside ASCII (Python 2 `repr`) are not generated.
* C02: alien chunks; C18: names below MIDI 0; C36: tables with non-alphabetic tags: not judged.
* C29: a reply of 60 MB once filled the heap of a Jython worker under load and was reported as a failure. The
  probe now compares long dumps itself, and a call that runs out of memory is repeated in a fresh worker with
  4 GB; running out of memory outside gsapi is no verdict.
* C25: orders from 0 to the number of steps are judged (a style of that order could not generate: fixed); larger
  orders have no start to learn and are outside the property.
* C20: "perEvent" and "all" hand out the very events of the pattern; only their content is judged.
* C34: a descriptor's own list of ignored tags belongs to its owner; adding to it is not tried.

## Genuine defects

The checks found the defects below in the original tree; each was repaired by one `fix:` commit in /repo, and
`known_findings.json` lists them as fixed. There is no unrepaired finding: its `findings` list is empty.
"""

SEEDS = u"""
## Planted bugs

`seeded/<id>/` holds changes written from the text of a property and the code, each confirmed to build, pass the
stable tests and fail its own demonstration. The result column says which quick check caught it, and in
how many seconds, when it was last run; "strengthened" marks those the check first missed.
"""

MUT = u"""
## Mutants

`tools/mutate.py` applies syntactic mutants (operators, constants, comparisons, removed statements, swapped
arguments) to copies of gsapi and runs the checks of the properties anchored in that file. Survivors were read
one by one: they were equivalent, in dead code or in code out of scope, or led to a new facet (C34-C37 came from
such survivors: text forms, copies of MIDI events, tables changed by use, damaged files).
"""

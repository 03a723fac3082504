"""The workflows of the README and the notebooks, from MIDI files to a new MIDI file."""
import json

from hypothesis import strategies as st
import markov as K
import smf
from engine import Facet, require
from model import eq_ms, sorted_by_start
from props import c03, c09, c33
from props.c05 import DRUMMAP
from props.c18 import name as pitchname

ID = "C39"
PROBES = "pipe"
RES = [64, 128, 256, 512, 1024]      # powers of two: the times in beats are exact


@st.composite
def tune(draw, pitches, res, cell, beats, maxn=10, channel=9, tutti=()):
    """notes of one channel, [channel, pitch, velocity, on, off, released by velocity 0?]"""
    free, out = {}, []
    for _ in range(draw(st.integers(0, maxn))):
        p = draw(st.sampled_from(pitches))
        on = free.get(p, 0) + draw(st.sampled_from([0, 0, 1, 2, 3, 4, 8, 16])) * cell
        off = on + draw(st.sampled_from([1, 1, 1, 2, 3, 4, 8, 40])) * cell
        if on >= beats * res:
            continue
        free[p] = off
        out.append([channel, p, draw(st.integers(1, 127)), on, off, draw(st.booleans())])
    if tutti and draw(st.integers(0, 3)) == 0:      # everybody at once
        on = -(-max([n[4] for n in out] or [0]) // cell) * cell
        if on < beats * res:
            out += [[channel, p, 100, on, on + cell, False] for p in tutti]
    return out


def midi(notes, res, more=0):
    end = max([n[4] for n in notes] or [0]) + more
    track = {"name": "Drums", "notes": notes, "end": end, "other": []}
    return c03.encode([track], {"ts": (4, 2), "mpqn": 500000}, res), end


@st.composite
def case(draw):
    mp = DRUMMAP
    given_ = draw(st.booleans())
    if given_:
        mp = dict(draw(st.lists(st.tuples(st.sampled_from(["Kick", "Snare", "Conga", "LowConga", "hat", "Perc 1"]), st.integers(30, 60)),
                                min_size=1, max_size=6, unique_by=(lambda x: x[0], lambda x: x[1]))))
    res = draw(st.sampled_from(RES))
    cell = res // draw(st.sampled_from([4, 4, 8, 16, 1]))
    known = sorted(mp.values())
    pitches = draw(st.lists(st.sampled_from(known), min_size=1, max_size=4)) + draw(st.lists(st.integers(30, 60), max_size=1))
    files, notes, ends = [], {}, {}
    for i in range(draw(st.integers(1, 3))):
        name = "tune%d.mid" % i
        ns = draw(tune(pitches, res, cell, draw(st.sampled_from([4, 16, 32])), tutti=known))
        data, ends[name] = midi(ns, res, draw(st.sampled_from([0, cell, 5 * res])))
        files.append([name, data])
        notes[name] = [[n[3] / res, (n[4] - n[3]) / res, n[1], n[2], n[1]] for n in ns]
    n = draw(st.sampled_from([4, 8, 16, 32]))
    return {"map": mp, "given": given_, "files": files, "notes": notes, "ends": {k: v / res for k, v in ends.items()},
            "loop": draw(st.sampled_from([4, 4, 8, 2, 16])), "n": n, "order": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 2 ** 31))}


def check(c, o):
    tag = {v: k for k, v in c["map"].items()}
    loop, n = c["loop"], c["n"]
    require(sorted(o["imported"]) == sorted(c["notes"]), "patterns %s of the files %s", sorted(o["imported"]), sorted(c["notes"]))
    every = []
    for f, ns in c["notes"].items():
        evs = [e[:4] + [tag[e[4]]] for e in ns if e[4] in tag]
        p = o["imported"][f]
        eq_ms(p["ev"], evs, "imported from %s" % f)
        require(p["dur"] == c["ends"][f] or not c["ends"][f], "%s lasts %s, want %s", f, p["dur"], c["ends"][f])
        want = c09.pieces(evs, loop)
        parts = o["parts"][f]
        require(len(parts) == len(want), "%s: %d parts with notes, want %d", f, len(parts), len(want))
        for k, part, dens in zip(sorted(want), parts, o["density"][f]):
            eq_ms(part["ev"], want[k], "part %d of %s" % (k, f))
            require(part["start"] == k * loop and part["dur"] == loop, "part %d of %s: start %s, duration %s", k, f, part["start"], part["dur"])
            sounding = {}
            for e in want[k]:
                sounding[e[4]] = sounding.get(e[4], 0) + e[1]
            require(dens == sounding, "part %d of %s: densities %s, want %s", k, f, dens, sounding)
        view = [[k * loop, loop, sum(e[1] for e in want[k])] for k in sorted(want)]
        require(o["view"][f] == view, "%s: viewpoint %s, want %s", f, o["view"][f], view)
        every += parts
    if not every:
        require("new" not in o, "generated from nothing")
        return
    key = lambda p: json.dumps(p, sort_keys=True)
    require(sorted(o["after"], key=key) == sorted(every, key=key), "learning changed the parts")
    tab = K.table([{"ev": p["ev"], "dur": loop} for p in every], n, loop, c["order"])
    gen = K.gen_states(o["new"], n, loop)
    why = K.follows(tab, c["order"], n, gen)
    require(why is None, "the generated pattern %s", why)
    require(o["reloaded"]["ev"] == o["new"]["ev"] and o["reloaded"]["dur"] == loop, "the saved style generates %s, not %s", o["reloaded"], o["new"])
    wrote = [[e[0], e[1], c["map"][e[4]], e[3], e[4]] for e in o["new"]["ev"]]
    eq_ms(o["back"]["ev"], wrote, "exported and imported")
    require(o["back"]["dur"] == loop, "exported and imported: duration %s, want %s", o["back"]["dur"], loop)
    require(len(o["again"]) == 1, "%d files exported", len(o["again"]))
    eq_ms(o["again"][0]["ev"], wrote, "exported and imported as a dataset")


@st.composite
def harmony(draw):
    res = draw(st.sampled_from(RES))
    cell = max(1, res // draw(st.sampled_from([4, 8, 16, 3])))
    ns = draw(tune(draw(st.lists(st.integers(48, 72), min_size=1, max_size=5, unique=True)), res, cell, 16, channel=0))
    step = draw(st.sampled_from([0.25, 0.5, 1]))
    core = [["overlaps", [{"usePitchValues": True}]], ["reorder", []], ["quantize", [step, {}]], ["removetags", [["silence"]]],
            ["fitdur", [{}]], ["bar", []]]
    core = draw(st.permutations(core))[:draw(st.integers(1, 6))]
    fill = draw(st.sampled_from([[], [["previous", []]], [["fitdur", [{}]], ["previous", []], ["silences", [{}]]],
                                 [["fitdur", [{}]], ["silences", [{"maxSilenceTime": step}]]], [["silences", [{}]], ["removetags", [["silence"]]], ["previous", []]]]))
    return {"bytes": midi(ns, res, draw(st.sampled_from([0, cell])))[0], "notes": ns, "res": res, "steps": core + fill}


def check_harmony(c, o):
    res = c["res"]
    notes = [[n[3] / res, (n[4] - n[3]) / res, n[1], n[2], pitchname(n[1])] for n in c["notes"]]
    eq_ms(o["first"]["ev"], notes, "imported")
    if not notes:
        return
    start = min(e[0] for e in notes)
    require(o["low"] == min(e[2] for e in notes if e[0] == start), "lowest note of the first chord is %s", o["low"])
    pre = o["first"]
    for s in o["steps"]:
        name, a = s["op"]
        if s["ret"] == "skip":
            require(s["after"] == pre, "nothing was called, and the pattern changed")
        else:
            c33.edit_step(name, a, pre, s["after"], s["ret"])
        pre = s["after"]
    evs = [e for e in pre["ev"] if e[3]]
    on = {}
    for e in sorted(evs):
        x = on.get(e[2], -1)
        if e[0] < x or e[1] <= 0:
            return                       # the same note twice at a time: MIDI cannot tell
        on[e[2]] = e[0] + e[1]
    half = 0.5 / pre["res"] + 1e-9
    left = list(o["back"]["ev"])
    require(len(left) == len(evs), "%d notes after export and import, want %d", len(left), len(evs))
    for e in evs:
        m = [g for g in left if g[2:] == e[2:4] + [pitchname(e[2])] and abs(g[0] - e[0]) <= half and abs(g[0] + g[1] - e[0] - e[1]) <= half]
        require(m, "%s is not among the notes exported and imported: %s", e, left)
        left.remove(m[0])


FACETS = [
    Facet("style", case(), "style", check, lambda c, o: "new" in o and len(o["new"]["ev"]) > 0, 1600, 16000, rule="a pattern with events is generated"),
    Facet("harmony", harmony(), "harmony", check_harmony, lambda c, o: len(c["notes"]) > 1 and any(s["ret"] != "skip" for s in o["steps"][1:]), 4000, 40000,
          rule="two notes or more and a step after the transposition"),
]

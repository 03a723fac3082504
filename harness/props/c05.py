from hypothesis import strategies as st
import strat as S
import smf
from engine import Facet, require, fail
from model import close, eq_ms, ms
from props.c03 import MAJ, MIN

ID = "C05"
PROBES = "midi"
DRUMMAP = {"Kick": 36, "Rimshot": 37, "Snare": 38, "Clap": 39, "Clave": 40, "LowTom": 41, "ClosedHH": 42, "MidTom": 43,
           "Shake": 44, "HiTom": 45, "OpenHH": 46, "LowConga": 47, "HiConga": 48, "Cymbal": 49, "Conga": 50, "CowBell": 51}
VERY = {"Kick": 36, "Snare": 38, "ClosedHH": 42, "OpenHH": 46}


@st.composite
def case(draw):
    res = draw(st.sampled_from([960, 480, 96, 220, 24, 384, 1000]))
    mp = draw(st.sampled_from([None, None, "simpleDrumMap", "verySimpleDrumMap"]))
    table = {"simpleDrumMap": DRUMMAP, "verySimpleDrumMap": VERY}.get(mp)
    kind = draw(st.sampled_from(["grid", "ticks", "any"]))
    voices = sorted(table) if table else draw(st.lists(st.integers(0, 127), min_size=1, max_size=4, unique=True))
    free = {}
    evs = []
    for _ in range(draw(st.integers(0, 8))):
        v = draw(st.sampled_from(voices))
        t = free.get(v, 0)
        if kind == "grid":
            on = t + draw(st.sampled_from([0, 0, 0.25, 0.5, 1, 4]))
            dur = draw(st.sampled_from([0.25, 0.5, 1, 3]))
        elif kind == "ticks":
            on = t + draw(st.integers(0, 3 * res)) / res
            dur = draw(st.integers(1, 3 * res)) / res
        else:
            # at least two ticks of length and of distance, so that rounding merges nothing
            on = t + draw(st.sampled_from([0, 1])) * (2.0 / res + draw(st.floats(0, 4)))
            dur = 2.0 / res + draw(st.floats(0, 4))
        free[v] = on + dur
        if kind == "any" and draw(st.integers(0, 4)) == 0:     # shorter than that: nothing of its pitch near it
            dur = draw(st.sampled_from([0.0625, 0.25, 0.375, 0.75, 1.25])) / res
            free[v] = on + dur + 2.0 / res
        if table:
            evs.append([on, dur, draw(st.integers(0, 127)), draw(st.integers(1, 127)), v])
        else:
            evs.append([on, dur, v, draw(st.integers(1, 127)), draw(st.sampled_from(["x", "Kick", ("C", "maj"), ()]))])
    evs = draw(st.permutations(evs))
    end = max([e[0] + e[1] for e in evs] or [0])
    dur = draw(st.sampled_from([end, end + 1, -(-end // 4) * 4.0 + 4]))
    p = {"dur": dur, "ev": evs, "res": res, "bpm": draw(st.one_of(st.sampled_from([120, 90.5, 140, 60, 174]), st.floats(4, 400))),
         "ts": (draw(st.one_of(st.integers(1, 17), st.integers(1, 255))), 2 ** draw(st.integers(0, 7))),
         "name": draw(st.sampled_from(["p", "beat one", "x.mid", "Name", None, "n" * 200, u"caf\u00e9", "it's", " x "])),
         "key": draw(st.one_of(st.just(None), st.just(""), st.sampled_from(MAJ), st.sampled_from(MIN).map(lambda k: k + "m")))}
    fname = draw(st.sampled_from([None, None, "out", "out.mid"]))
    if p["name"] and not p["name"].isascii():
        fname = fname or "out"
    return {"p": p, "map": mp, "fname": fname, "newdir": draw(st.booleans())}


@st.composite
def own(draw):
    """a map of the caller's own: what it does not name keeps its pitch"""
    c = draw(case().filter(lambda c: c["map"] is None))
    tags = ["Kick", "x", ("C", "maj"), (), "Perc 1", 5]
    pitches = draw(st.lists(st.integers(0, 127), min_size=len(tags), max_size=len(tags), unique=True))
    named = draw(st.lists(st.sampled_from(range(len(tags))), unique=True, min_size=1, max_size=4))
    c["own"] = {tags[i]: pitches[i] for i in named}
    free = [i for i in range(len(tags)) if i not in named]
    n = draw(st.integers(1, 7))
    t = {}
    c["p"]["ev"] = []
    for _ in range(n):
        i = draw(st.integers(0, len(tags) - 1))
        on = t.get(i, 0) + draw(st.sampled_from([0, 0.5, 1]))
        t[i] = on + draw(st.sampled_from([0.5, 1, 2]))
        c["p"]["ev"].append([on, t[i] - on, draw(st.integers(0, 127)) if i in named else pitches[i], draw(st.integers(1, 127)), tags[i]])
    c["p"]["dur"] = max([0] + list(t.values()))
    require(not set(free) & set(named), "generator")
    return c


def check_own(c, o):
    m = c["own"]
    want = [[e[0], e[1], m.get(e[4], e[2]), e[3]] for e in c["p"]["ev"]]
    require(o["kept"], "exporting changed the pattern")
    require(o["map"] == m, "exporting changed the caller's map to %s", o["map"])
    eq_ms([e[:4] + [""] for e in o["first"]["ev"]], [e + [""] for e in want], "notes")


def check(c, o):
    p = c["p"]
    res = p["res"]
    table = {"simpleDrumMap": DRUMMAP, "verySimpleDrumMap": VERY}.get(c["map"])
    try:
        song = smf.parse(o["bytes"])
    except smf.Bad as e:
        fail("the exported file is no complete MIDI file: %s (%d bytes)", e, len(o["bytes"]))
    names = ["".join(map(chr, e[3])) for t in song["tracks"] for e in t if e[1] == 0xFF and e[4] == 3]
    require(names == [p["name"] or ""] or (not p["name"] and not names), "track names %s of pattern %r", names, p["name"])
    base = c["fname"] or p["name"] or "tests"
    require(o["base"] == (base if base.endswith(".mid") else base + ".mid") and o["indir"], "file name %s", o["base"])
    f = o["first"]
    got, want = f["ev"], p["ev"]
    require(len(got) == len(want), "%d notes, want %d: %s", len(got), len(want), got)
    left = list(got)
    half = 0.5 / res + 1e-9
    for e in want:
        pitch = table[e[4]] if table else e[2]
        m = [g for g in left if g[2] == pitch and g[3] == e[3] and abs(g[0] - e[0]) <= half and
             abs(g[0] + g[1] - e[0] - e[1]) <= half + (1e-4 if g[1] <= 1e-4 else 0) and (not table or g[4] == e[4])]
        require(m, "note %s (written pitch %s, resolution %s) is not among the imported %s", e, pitch, res, left)
        left.remove(min(m, key=lambda g: abs(g[0] - e[0])))
    require(abs(f["dur"] - p["dur"]) <= half, "duration %s, want %s", f["dur"], p["dur"])
    require(tuple(f["ts"]) == tuple(p["ts"]), "time signature %s, want %s", f["ts"], p["ts"])
    require((f["key"] or "") == (p["key"] or ""), "key %r, want %r", f["key"], p["key"])
    require(f["res"] == res, "resolution %s, want %s", f["res"], res)
    require(abs(6e7 / f["bpm"] - 6e7 / p["bpm"]) <= 0.5 + 1e-6, "tempo %s, want %s", f["bpm"], p["bpm"])
    s = o["second"]
    require({k: v for k, v in s.items() if k != "ev"} == {k: v for k, v in f.items() if k != "ev"}, "second export: %s, was %s", s, f)
    eq_ms(s["ev"], f["ev"], "second export")
    require(o["kept"], "exporting changed the pattern")


@st.composite
def short(draw):
    """a duration shorter than the events: the file is valid all the same"""
    c = draw(case())
    c["p"]["dur"] = draw(st.sampled_from([0, 0.5, 1, 3.999]))
    return c


def check_short(c, o):
    for b in (o["bytes"], o["bytes2"]):
        try:
            smf.parse(b)
        except smf.Bad as e:
            fail("the exported file is no valid MIDI file: %s", e)
    require(len(o["first"]["ev"]) == len(c["p"]["ev"]), "%d notes, want %d", len(o["first"]["ev"]), len(c["p"]["ev"]))


FACETS = [
    Facet("round-trip", case(), "export", check, lambda c, o: len(c["p"]["ev"]) > 1, 7000, rule="at least two notes"),
    Facet("short-duration", short(), "export", check_short, lambda c, o: any(e[0] + e[1] > c["p"]["dur"] for e in c["p"]["ev"]), 1500,
          rule="a note ends after the pattern's duration"),
    Facet("own-map", own(), "export", check_own, lambda c, o: any(e[4] in c["own"] for e in c["p"]["ev"]), 1500, rule="a note of the map"),
]

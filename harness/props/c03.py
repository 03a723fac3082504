from hypothesis import strategies as st
import midistrat as M
import smf
from engine import Facet, require
from model import close, close_ms, eq_ms
from props.c18 import name as pitchname

ID = "C03"
PROBES = "midi"
MAJ = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]
MIN = ["Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#", "G#", "D#", "A#"]


@st.composite
def notes(draw, maxn=8, pitches=None, maxtick=4000):
    """(channel, pitch, velocity, on, off, off by velocity 0?) - those of one channel and pitch do not overlap"""
    out = []
    free = {}
    chans = draw(st.lists(st.integers(0, 15), min_size=1, max_size=3, unique=True))
    ps = pitches or draw(st.sampled_from([[60, 61], [36, 38, 42], list(range(128))]))
    unit = draw(st.sampled_from([1, 10, 120] * 6 + [9973, 99991]))
    for _ in range(draw(st.integers(0, maxn))):
        ch, p = draw(st.sampled_from(chans)), draw(st.sampled_from(ps))
        on = free.get((ch, p), 0) + unit * draw(st.integers(0, max(1, maxtick // unit // 8)))
        off = on + unit * draw(st.integers(1, max(1, maxtick // unit // 8)))
        free[ch, p] = off
        out.append([ch, p, draw(st.integers(1, 127)), on, off, draw(st.booleans())])
    if out and draw(st.integers(0, 79)) == 0:        # hundreds of notes
        span = max(free.values())
        k = draw(st.integers(8, 100))
        out = [n[:3] + [n[3] + i * span, n[4] + i * span, n[5]] for i in range(k) for n in out]
    return out


def note_events(ns, other=(), offvel=64):
    """absolute-time events of the notes, each note off before the note ons of its tick;
    a note whose last element is None is never released"""
    evs = []
    for ch, p, v, on, off, zero in ns:
        evs.append((on, 2, [on, 0x90, ch, [p, v], None]))
        if zero is None:
            continue
        evs.append((off, 1, [off, 0x90 if zero else 0x80, ch, [p, 0 if zero else offvel], None]))
    for e in other:
        evs.append((e[0], 0, e))
    evs.sort(key=lambda x: (x[0], x[1]))
    return [e for _, _, e in evs]


def tracktext(n):
    return [ord(ch) for ch in n]


@st.composite
def multitrack(draw, names=None, pitches=None):
    """tracks as {"name", "notes", "end"}, and the song's signature, tempo, key"""
    tracks = []
    for i in range(draw(st.integers(1, 4))):
        ns = draw(notes(pitches=pitches))
        end = max([n[4] for n in ns] or [0]) + draw(st.sampled_from([0, 0, 1, 480, 77]))
        other = []
        for _ in range(draw(st.integers(0, 2))):
            t = draw(st.integers(0, max(end, 1)))
            if t <= end:
                k = draw(st.sampled_from([0xB0, 0xE0, 0xC0, 0xD0, 0xA0, 0xF0, 6]))
                if k == 6:
                    other.append([t, 0xFF, None, tracktext("mark"), draw(st.sampled_from([1, 4, 6, 0x7F]))])
                elif k == 0xF0:
                    other.append([t, 0xF0, None, [1, 2], None])
                else:
                    other.append([t, k, draw(st.integers(0, 15)), [draw(M.b7) for _ in range(smf.LENGTHS[k])], None])
        nm = draw(st.sampled_from(names or [None, "track %d" % i, "Drums", "bass"]))
        tracks.append({"name": nm, "notes": ns, "end": end, "other": other})
    meta = {}
    if draw(st.booleans()):
        meta["ts"] = (draw(st.one_of(st.integers(1, 16), st.integers(1, 255))), draw(st.integers(0, 7)))
    if draw(st.booleans()):
        meta["mpqn"] = draw(st.one_of(st.integers(1, (1 << 24) - 1), st.sampled_from([500000, 428571, 1000000])))
    if draw(st.booleans()):
        meta["key"] = (draw(st.integers(-7, 7)), draw(st.integers(0, 1)))
    return tracks, meta


def encode(tracks, meta, res, running=True):
    out = []
    for i, t in enumerate(tracks):
        evs = []
        if t["name"] is not None:
            evs.append([0, 0xFF, None, tracktext(t["name"]), 3])
        if i == meta.get("where", 0):
            if "ts" in meta:
                evs.append([0, 0xFF, None, [meta["ts"][0], meta["ts"][1], 24, 8], 0x58])
            if "mpqn" in meta:
                m = meta["mpqn"]
                evs.append([0, 0xFF, None, [m >> 16, m >> 8 & 255, m & 255], 0x51])
            if "key" in meta:
                evs.append([0, 0xFF, None, [meta["key"][0] & 255, meta["key"][1]], 0x59])
        evs += note_events(t["notes"], t["other"])
        evs.append([t["end"], 0xFF, None, [], 0x2F])
        out.append(smf.relative(evs))
    song = {"fmt": 1 if len(tracks) > 1 else 0, "res": res, "tracks": out}
    return smf.encode(song, lambda i: running)


@st.composite
def case(draw):
    tracks, meta = draw(multitrack())
    meta["where"] = draw(st.integers(0, len(tracks) - 1))
    res = draw(st.one_of(st.sampled_from([96, 480, 960, 220, 384, 1, 100, 9600]), st.integers(1, 9600)))
    kw = draw(st.sampled_from([{}, {"noteToTagMap": "pitchName"}, {"filterOutNotMapped": False}]))
    return {"bytes": encode(tracks, meta, res, draw(st.booleans())), "tracks": tracks, "meta": meta, "res": res, "kw": kw,
            "fname": draw(st.sampled_from(["song.mid", "a b.MID", "x.midi"]))}


def check(c, o):
    res = float(c["res"])
    want = [[n[3] / res, (n[4] - n[3]) / res if n[5] is not None else max(0.0001, (t["end"] - n[3]) / res), n[1], n[2], pitchname(n[1])]
            for t in c["tracks"] for n in t["notes"]]
    p = o["p"]
    eq_ms(p["ev"], want, "imported notes", exact=False)
    end = max(t["end"] for t in c["tracks"]) / res
    require(close(p["dur"], end), "duration %s, the tracks end at %s", p["dur"], end)
    m = c["meta"]
    ts = (m["ts"][0], 2 ** m["ts"][1]) if "ts" in m else (4, 4)
    require(p["ts"] == ts, "time signature %s, want %s", p["ts"], ts)
    bpm = 6e7 / m["mpqn"] if "mpqn" in m else 120
    require(close(p["bpm"], bpm), "tempo %s, want %s", p["bpm"], bpm)
    key = ""
    if "key" in m:
        key = MIN[m["key"][0] + 7] + "m" if m["key"][1] else MAJ[m["key"][0] + 7]
    require((p["key"] or "") == key, "key %r of signature %s, want %r", p["key"], m.get("key"), key)
    require(p["res"] == c["res"], "resolution %s, want %s", p["res"], c["res"])
    require(p["name"] == c["fname"], "name %r", p["name"])
    require(o["kept"], "importing changed the file")


@st.composite
def orphan(draw):
    """as case, with note offs of notes that never started"""
    c = draw(case())
    tr = c["tracks"][draw(st.integers(0, len(c["tracks"]) - 1))]
    for _ in range(draw(st.integers(1, 2))):
        p = draw(st.sampled_from([1, 2, 3]))
        if any(n[1] == p for t in c["tracks"] for n in t["notes"]):
            continue
        tr["other"].append([draw(st.integers(0, tr["end"])), draw(st.sampled_from([0x80, 0x90])), 0, [p, 0], None])
    c["bytes"] = encode(c["tracks"], c["meta"], c["res"])
    return c


@st.composite
def unreleased(draw):
    """as case, with notes that are never released"""
    c = draw(case())
    for t in c["tracks"]:
        for n in t["notes"]:
            if draw(st.integers(0, 2)) == 0:
                n[5] = None
    c["bytes"] = encode(c["tracks"], c["meta"], c["res"])
    return c


def nt(c, o):
    return sum(len(t["notes"]) for t in c["tracks"]) > 1


FACETS = [
    Facet("import", case(), "import", check, nt, 7000, rule="at least two notes"),
    Facet("stray-note-offs", orphan(), "import", check, nt, 2000, rule="at least two notes"),
    Facet("never-released", unreleased(), "import", check, lambda c, o: nt(c, o) and any(n[5] is None for t in c["tracks"] for n in t["notes"]),
          2000, rule="at least two notes, one never released"),
]

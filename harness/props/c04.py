from hypothesis import strategies as st
import smf
from engine import Facet, require
from model import eq_ms, close
from props.c03 import multitrack, encode, notes, nt
from props.c18 import name as pitchname

ID = "C04"
PROBES = "midi"
CLASSES = ["Kick", "Snare", "Hat", "Perc", "Conga", "LowConga"]
PITCHES = [36, 38, 42, 47, 50, 60]


@st.composite
def notemap(draw):
    pitch = st.one_of(st.sampled_from(PITCHES), st.integers(0, 127))
    entry = st.one_of(pitch, st.tuples(st.one_of(pitch, st.just("*")), st.one_of(st.integers(0, 15), st.just("*"))))
    m = {}
    for k in draw(st.lists(st.sampled_from(CLASSES), min_size=1, max_size=4, unique=True)):
        m[k] = draw(st.one_of(entry, st.lists(entry, min_size=1, max_size=3)))
    return m


def classes(m, pitch, channel):
    out = set()
    for k, v in m.items():
        for e in v if isinstance(v, list) else [v]:
            n, c = e if isinstance(e, tuple) else (e, "*")
            if n in ("*", pitch) and c in ("*", channel):
                out.add(k)
    return out


def tagok(tag, cls):
    if not cls:
        return tag == ()
    if len(cls) == 1:
        return tag in cls
    return isinstance(tag, tuple) and len(tag) == len(cls) and set(tag) == cls


def match(got, want):
    """events against [start, duration, pitch, velocity, set of classes]"""
    require(len(got) == len(want), "%d events, want %d: %s, want %s", len(got), len(want), got, want)
    left = list(want)
    for g in got:
        m = [w for w in left if close(g[0], w[0]) and close(g[1], w[1]) and g[2:4] == w[2:4] and w[5](g[4])]
        require(m, "event %s is none of %s", g, left)
        left.remove(m[0])


def unchanged(a, b):
    return repr(sorted(a.items())) == repr(sorted(b.items())) if isinstance(a, dict) else a == b


@st.composite
def mapcase(draw):
    tracks, meta = draw(multitrack(pitches=PITCHES))
    m = draw(st.one_of(notemap(), notemap(), notemap(), st.just("pitchName"),
                       st.just({"pitchName": ["do", "di", "re", "ri", "mi", "fa", "fi", "so", "si", "la", "li", "ti"]}),
                       st.just({"pitchName": []})))
    kw = {"noteToTagMap": m}
    if draw(st.booleans()):
        kw["filterOutNotMapped"] = draw(st.booleans())
    return {"bytes": encode(tracks, meta, 480), "tracks": tracks, "meta": meta, "kw": kw}


def expect(c, tracks):
    m = c["kw"]["noteToTagMap"]
    want = []
    for t in tracks:
        for ch, p, v, on, off, _ in t["notes"]:
            if m == "pitchName" or "pitchName" in m:
                names = m["pitchName"] if m != "pitchName" else None
                tag = names[p % 12] + str(p // 12 - 1) if names else pitchname(p)
                want.append([on / 480.0, (off - on) / 480.0, p, v, tag, lambda g, tag=tag: g == tag])
            else:
                cls = classes(m, p, ch)
                if cls or not c["kw"].get("filterOutNotMapped", True):
                    want.append([on / 480.0, (off - on) / 480.0, p, v, cls, lambda g, cls=cls: tagok(g, cls)])
    return want


def check_map(c, o):
    match(o["p"]["ev"], expect(c, c["tracks"]))
    require(unchanged(o["map"], c["kw"]["noteToTagMap"]), "the map of the caller became %s, was %s", o["map"], c["kw"]["noteToTagMap"])


@st.composite
def selcase(draw):
    names = [None, "Drums", "bass", "Kick", "t"]
    tracks, meta = draw(multitrack(names=names, pitches=PITCHES))
    sel = draw(st.lists(st.one_of(st.sampled_from(names[1:] + ["absent"]), st.integers(0, 4)), min_size=1, max_size=3))
    return {"bytes": encode(tracks, meta, 480), "tracks": tracks, "meta": meta,
            "kw": {"noteToTagMap": "pitchName", "tracksToGet": sel}}


def check_sel(c, o):
    sel = c["kw"]["tracksToGet"]
    got = [t for i, t in enumerate(c["tracks"]) if i in sel or (t["name"] is not None and t["name"] in sel)]
    match(o["p"]["ev"], expect(c, got))


@st.composite
def tncase(draw):
    tracks, meta = draw(multitrack(names=[None, "Kick", "Snare drum", "the LowConga", "Kick and Hat", "lead", "Conga", "kick", "SNARE", "hat lowconga", "Kic k"], pitches=PITCHES))
    kw = {"noteToTagMap": draw(notemap()), "tagFromTrackName": True}
    return {"bytes": encode(tracks, meta, 480), "tracks": tracks, "meta": meta, "kw": kw}


def check_tn(c, o):
    want = []
    for t in c["tracks"]:
        cls = {k for k in c["kw"]["noteToTagMap"] if t["name"] is not None and k in t["name"]}
        if not cls:
            continue
        for ch, p, v, on, off, _ in t["notes"]:
            want.append([on / 480.0, (off - on) / 480.0, p, v, cls,
                         lambda g, cls=cls: (g in cls) if isinstance(g, str) and len(cls) == 1 else
                         isinstance(g, tuple) and len(g) == len(cls) and set(g) == cls])
    match(o["p"]["ev"], want)
    require(unchanged(o["map"], c["kw"]["noteToTagMap"]), "the map of the caller became %s", o["map"])


@st.composite
def colcase(draw):
    files = []
    tot = 0
    names = [None, "Drums", "bass"]
    for k in range(draw(st.integers(0, 3))):
        tracks, meta = draw(multitrack(names=names, pitches=PITCHES))
        tot += sum(len(t["notes"]) for t in tracks)
        files.append(["f%d.mid" % k, encode(tracks, meta, 480)])
    kw = {}
    if draw(st.booleans()):
        kw["noteToTagMap"] = draw(st.one_of(notemap(), st.just("pitchName")))
    if draw(st.booleans()):
        kw["filterOutNotMapped"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        kw["tracksToGet"] = draw(st.lists(st.one_of(st.sampled_from(names[1:]), st.integers(0, 3)), min_size=1, max_size=2))
    if isinstance(kw.get("noteToTagMap"), dict) and draw(st.integers(0, 3)) == 0:
        kw["tagFromTrackName"] = True
    if draw(st.integers(0, 2)) == 0:
        kw["desiredLength"] = draw(st.sampled_from([1, 4, 2.5]))
    return {"files": files, "kw": kw, "n": tot}


def canon(p):
    q = dict(p)
    q["ev"] = sorted(map(repr, p["ev"]))
    return repr(sorted(q.items()))


def check_col(c, o):
    require(sorted(map(canon, o["col"])) == sorted(map(canon, o["each"])), "collection %s: %s, each file alone: %s", c["kw"],
            o["col"], o["each"])
    if "noteToTagMap" in c["kw"]:
        require(unchanged(o["map"], c["kw"]["noteToTagMap"]), "the map of the caller became %s", o["map"])


FACETS = [
    Facet("maps", mapcase(), "import", check_map, lambda c, o: 0 < len(o["p"]["ev"]), 5000, rule="some note is imported"),
    Facet("selection", selcase(), "import", check_sel, lambda c, o: 0 < len(o["p"]["ev"]) < sum(len(t["notes"]) for t in c["tracks"]),
          2500, rule="some notes are imported, some are not"),
    Facet("track-names", tncase(), "import", check_tn, lambda c, o: 0 < len(o["p"]["ev"]) < sum(len(t["notes"]) for t in c["tracks"]),
          2500, rule="some notes are imported, some are not"),
    Facet("collection", colcase(), "collection", check_col, lambda c, o: len(c["files"]) > 1 and c["n"] > 1, 1500,
          rule="two files or more, with notes"),
]

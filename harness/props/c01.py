from hypothesis import strategies as st
import midistrat as M
import smf
from engine import Facet, require, fail

ID = "C01"
PROBES = "midi"


@st.composite
def case(draw):
    return {"song": draw(M.song()), "how": draw(st.booleans()), "byobj": draw(st.integers(0, 3)) == 0,
            "slice": draw(st.tuples(st.integers(0, 3), st.integers(0, 5)))}


def diff(a, b):
    if a["fmt"] != b["fmt"] or a["res"] != b["res"] or len(a["tracks"]) != len(b["tracks"]):
        return "header (%s, %s, %d tracks), want (%s, %s, %d tracks)" % (
            a["fmt"], a["res"], len(a["tracks"]), b["fmt"], b["res"], len(b["tracks"]))
    for i, (s, t) in enumerate(zip(a["tracks"], b["tracks"])):
        for k, (x, y) in enumerate(zip(s, t)):
            if list(x) != list(y):
                return "track %d event %d is %s, want %s" % (i, k, x, y)
        if len(s) != len(t):
            return "track %d has %d events, want %d" % (i, len(s), len(t))
    return None


def check(c, o):
    song = c["song"]
    try:
        p = smf.parse(o["bytes"])
    except smf.Bad as e:
        fail("the file written is no valid MIDI file: %s (%s)", e, o["bytes"][:300])
    d = diff(p, song)
    require(d is None, "an independent parser reads the file differently: %s", d)
    d = diff(o["read"], song)
    require(d is None, "reading the file back: %s", d)
    require(diff(o["after"], song) is None, "writing changed the song: %s", diff(o["after"], song))
    require(o["bytes2"] == o["bytes"], "writing what was read gives another file")
    rel = [[e[0] for e in t] for t in song["tracks"]]
    ab = [[e[0] for e in smf.absolute(t)] for t in song["tracks"]]
    require(o["abs"] == ab and o["abs2"] == ab, "absolute ticks %s, want %s", o["abs"], ab)
    require(o["rel"] == rel and o["rel2"] == rel, "ticks after absolute and relative again %s, want %s", o["rel"], rel)
    require(o["arel"] == rel and o["aabs"] == ab, "from absolute to relative %s and back %s, want %s", o["arel"], o["aabs"], ab)
    back = [t[::-1] for t in ab]
    require(o["babs"] == back and o["brel"] == [[y - x for x, y in zip([0] + t, t)] for t in back],
            "events not in order: from absolute %s to relative %s and back %s", back, o["brel"], o["babs"])
    i, j = c["slice"]
    s = o["slices"]
    require(diff(s[0], dict(song, tracks=song["tracks"][i:j])) is None and s[2], "slice of the pattern: %s", s[0])
    require([[list(e) for e in t] for t in s[1]] == [t[i:j] for t in song["tracks"]] and s[3], "slices of the tracks: %s", s[1])
    n = len(o["flags"]) // 2
    require(o["flags"] == [False] * n + [True] * n, "slices forget whether ticks are relative: %s", o["flags"])


FACETS = [
    Facet("write", case(), "write", check, lambda c, o: sum(len(t) for t in c["song"]["tracks"]) > 3, 8000,
          rule="more than three events"),
]

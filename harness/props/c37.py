from hypothesis import strategies as st
import midistrat as M
import smf
from engine import Facet, require
from props.c01 import diff

ID = "C37"
PROBES = "midi"


def layout(octets):
    """[(start of chunk, start of body, end)] of the chunks"""
    out = []
    i = 0
    while i < len(octets):
        n = int.from_bytes(bytes(octets[i + 4:i + 8]), "big")
        out.append((i, i + 8, i + 8 + n))
        i += 8 + n
    return out


@st.composite
def case(draw):
    song = draw(M.song())
    octets = smf.encode(song, lambda i: i % 2, lambda i: 0)
    chunks = layout(octets)
    kind = draw(st.sampled_from(["cut", "cut", "flip", "flip", "delete", "insert", "length", "count", "sizes", "headless", "junk", "short", "short"]))
    at = draw(st.integers(0, len(octets) - 1))
    if kind == "cut":
        bad = octets[:at]
    elif kind == "flip":
        bad = list(octets)
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(at, min(len(octets) - 1, at + 12)))
            bad[i] = draw(M.b8)
    elif kind == "delete":
        bad = octets[:at] + octets[at + draw(st.integers(1, 4)):]
    elif kind == "insert":
        bad = octets[:at] + draw(st.lists(M.b8, min_size=1, max_size=5)) + octets[at:]
    elif kind == "length":
        k = draw(st.integers(0, len(chunks) - 1))
        at = chunks[k][0] + 4
        bad = list(octets)
        bad[at:at + 4] = draw(st.sampled_from([[0, 0, 0, 0], [0, 0, 0, 5], [255] * 4, [127, 255, 255, 255], [0, 255, 255, 255], [0, 0, 1, 0]]))
    elif kind == "count":
        at = 10
        bad = list(octets)
        bad[10:12] = draw(st.sampled_from([[0, 0], [0, 1], [255, 255], [0, 9]]))
    elif kind == "sizes":
        # an event that says it is longer than its track
        k = draw(st.integers(1, len(chunks) - 1))
        at = chunks[k][1]
        size = draw(st.sampled_from([[255, 255, 255, 127], [255] * 9 + [127], [0x83, 0], [255, 255, 255, 255, 127]]))
        head = draw(st.sampled_from([[0, 0xFF, 1], [0, 0xFF, 0x51], [0, 0xF0], [0, 0xF7], []]))
        bad = octets[:at] + head + size + octets[at:]
    elif kind == "headless":
        # a track that begins with data bytes, without any status before them
        k = draw(st.integers(1, len(chunks) - 1))
        at = chunks[k][0] + 4
        data = [0] + draw(st.lists(M.b7, min_size=1, max_size=3))
        size = chunks[k][2] - chunks[k][1] + len(data)
        bad = octets[:at] + list(size.to_bytes(4, "big")) + data + octets[at + 4:]
    elif kind == "short":
        # a track that is over too soon, and says so
        k = draw(st.integers(1, len(chunks) - 1))
        a, b, end = chunks[k]
        keep = draw(st.sampled_from([0, 0, 1, 2, 3, 4])) if draw(st.booleans()) else draw(st.integers(0, end - b))
        keep = min(keep, end - b)
        at = a + 4
        bad = octets[:at] + list(keep.to_bytes(4, "big")) + octets[b:b + keep] + octets[end:]
        return {"song": song, "bytes": bad, "kind": kind, "at": at, "kw": {}, "sound": octets, "track": k - 1}
    else:
        bad = octets[:at] + draw(st.lists(M.b8, max_size=60))
    kw = draw(st.sampled_from([{}, {"noteToTagMap": {"low": [36, 60], "all": ("*", 0)}, "filterOutNotMapped": False}]))
    return {"song": song, "bytes": bad, "kind": kind, "at": at, "kw": kw, "sound": octets}


def check(c, o):
    require(diff(o["sound"], c["song"]) is None, "a sound file read after a damaged one: %s", diff(o["sound"], c["song"]))
    require(o["same"], "the file is read in another way after other files")
    require(o["kept"], "reading changed the file")
    if "p" in o:
        for e in o["p"]["ev"]:
            require(e[0] >= 0 and e[1] >= 0, "imported event %s", e)
    require("song" in o or c["kind"] != "short", "a track that is over too soon keeps the others from being read: %s", o.get("exc"))
    if "song" not in o:
        return
    got = o["song"]["tracks"]
    true = c["song"]["tracks"]
    if c["kind"] == "cut":
        require(len(got) == len(true), "%d tracks, the header says %d", len(got), len(true))
        for g, t in zip(got, true):
            require([list(x) for x in g] == t[:len(g)], "from a file cut after %d bytes: %s, no beginning of %s", c["at"], g, t)
    chunks = layout(c["sound"])
    for k, (a, b, end) in enumerate(chunks[1:]):
        if end <= c["at"] and k < len(got) and c["kind"] != "count":
            require([list(x) for x in got[k]] == true[k], "track %d, before the damage at byte %d, is %s, want %s", k, c["at"], got[k], true[k])
    if c["kind"] == "short":
        require(len(got) == len(true), "%d tracks, the header says %d", len(got), len(true))
        for k, (g, t) in enumerate(zip(got, true)):
            g = [list(x) for x in g]
            require(g == (t[:len(g)] if k == c["track"] else t), "track %d is %s, track %d ends too soon, want %s", k, g, c["track"], t)
    if c["kind"] == "count":
        for g, t in zip(got, true):
            require([list(x) for x in g] == t, "a track is %s, want %s", g, t)


FACETS = [Facet("damaged", case(), "damaged", check, lambda c, o: "song" in o or c["at"] > 14, 5000,
                rule="the file is read, or the damage is behind the header")]

from hypothesis import strategies as st
import midistrat as M
from engine import Facet, require
from props.c01 import diff
from props.c02 import expected, CLS, MCLS

ID = "C35"
PROBES = "midi"
FIELDS = {0x80: ["pitch", "velocity"], 0x90: ["pitch", "velocity"], 0xA0: ["pitch", "value"], 0xB0: ["control", "value"],
          0xC0: ["value"], 0xD0: ["value"], 0xE0: ["pitch"]}
MFIELDS = {0x51: ["mpqn", "bpm"], 0x58: ["numerator", "denominator", "metronome", "thirtyseconds"], 0x59: ["alternatives", "minor"]}


def value(e, name):
    s, cmd = e[1], e[4]
    if name == "text":
        return M.text
    if name == "mpqn":
        return st.integers(1, (1 << 24) - 1)
    if name == "bpm":
        return st.one_of(st.integers(4, 400), st.floats(4, 999, allow_nan=False))
    if name == "denominator":
        return st.integers(0, 6).map(lambda k: 2 ** k)
    if name == "alternatives":
        return st.integers(-7, 7)
    if name == "minor":
        return st.integers(0, 1)
    if s == 0xE0 and name == "pitch":
        return st.integers(-8192, 8191)
    return st.one_of(st.integers(0, 127), st.sampled_from([0, 127]))


def fields(e):
    if e[1] == 0xFF:
        return ["text"] if 1 <= e[4] <= 8 else MFIELDS.get(e[4], [])
    return FIELDS.get(e[1], [])


def apply(e, name, v):
    """the bytes of an event after one of its fields is set"""
    e = list(e)
    d = e[3] = list(e[3])
    s, cmd = e[1], e[4]
    if name == "tick":
        e[0] = v
    elif name == "channel":
        e[2] = v
    elif name == "data":
        e[3] = list(v)
    elif name == "text":
        e[3] = list(v)
    elif name in ("mpqn", "bpm"):
        m = v if name == "mpqn" else int(round(6e7 / v))
        e[3] = [m >> 16, m >> 8 & 255, m & 255]
    elif s == 0xE0:
        d[:] = [v + 8192 & 127, v + 8192 >> 7]
    elif name == "denominator":
        d[1] = v.bit_length() - 1
    elif name == "alternatives":
        d[0] = v & 255
    else:
        order = fields(e)
        d[order.index(name)] = v
    return e


@st.composite
def case(draw):
    if draw(st.integers(0, 2)):
        e = draw(M.chan_event([0, 3, 9, 15], sorted(M.SIZES)))
    else:
        e = draw(M.other_event())
    if e[1] == 0xFF and draw(st.booleans()):
        cmd = draw(st.sampled_from([0x51, 0x58, 0x59, 1, 3]))
        e = [e[0], 0xFF, None, draw(M.META[cmd]), cmd]
    fs = ["tick"] + fields(e) + (["channel"] if e[1] < 0xF0 else [])

    def some(n):
        out = []
        for f in draw(st.lists(st.sampled_from(fs), max_size=n)):
            v = draw(M.ticks if f == "tick" else st.integers(0, 15) if f == "channel" else value(e, f))
            out.append([f, v])
        return out
    change = {}
    if draw(st.booleans()):
        change["tick"] = draw(M.ticks)
    if e[1] < 0xF0 and draw(st.booleans()):
        change["channel"] = draw(st.integers(0, 15))
    if e[1] < 0xF0 and draw(st.integers(0, 2)) == 0:
        change["data"] = [draw(M.b7) for _ in e[3]]
    elif e[1] < 0xF0:
        for f in draw(st.lists(st.sampled_from(fields(e)), max_size=2, unique=True)):
            change[f] = draw(st.one_of(st.just(0), value(e, f)))
    return {"e": e, "how": draw(st.booleans()), "sets": some(5), "change": change, "after": some(2)}


def check(c, o):
    e = c["e"]
    for (name, v), (got, mean) in zip(c["sets"], o["steps"]):
        e = apply(e, name, v)
        require(list(got) == e, "after setting %s to %r the event is %s, want %s", name, v, got, e)
        for k, want in expected(e).items():
            ok = abs(mean[k] - want) <= 1e-9 * want if k == "bpm" else mean[k] == want
            require(ok, "after setting %s to %r, %s is %r, want %r", name, v, k, mean[k], want)
    if "copy" in o:
        q = e
        for k, v in c["change"].items():
            q = apply(q, k, v)
        got, same, mean = o["copy"]
        require(list(got) == q and same, "copy with %s is %s, want %s", c["change"], got, q)
        require(list(o["orig"]) == e, "copying changed the event: %s, want %s", o["orig"], e)
        require(list(o["orig2"]) == e, "editing a copy changed the original: %s, want %s", o["orig2"], e)
    elif e[1] != 0xFF:
        require(False, "an event of kind %x cannot be copied", e[1])
    require(list(o["repr"][0]) == e and o["repr"][1], "the printed form makes %s, want %s", o["repr"][0], e)


@st.composite
def songcase(draw):
    s = draw(M.song(False))
    return {"song": s, "how": draw(st.booleans()), "perm": draw(st.permutations(list(range(9))))}


def check_song(c, o):
    for k in ("repr", "after"):
        d = diff(o[k], c["song"])
        require(d is None, "%s: %s", "the printed form makes another song" if k == "repr" else "printing changed the song", d)
    require([[list(e) for e in t] for t in o["tracks"]] == c["song"]["tracks"], "printed tracks make %s", o["tracks"])
    for t, s in zip(o["abs"], o["sorted"]):
        ticks = [e[0] for e in s]
        require(ticks == sorted(ticks), "sorted by time: %s", ticks)
        want = [list(t[i]) for i in c["perm"] if i < len(t)]
        require(sorted(map(repr, want)) == sorted(repr(list(e)) for e in s), "sorting lost or changed events")
    for s, t, ab, ba, gab, gba in o.get("compared", []):
        require(s == t or (ab, ba, gab, gba) == (s < t, t < s, t < s, s < t),
                "events at ticks %s and %s: a<b %s, b<a %s, a>b %s, b>a %s", s, t, ab, ba, gab, gba)


FACETS = [
    Facet("fields-and-copies", case(), "object", check, lambda c, o: len(c["sets"]) > 1 and "copy" in o, 8000,
          rule="two fields or more set and a copy made"),
    Facet("songs", songcase(), "songobject", check_song, lambda c, o: sum(len(t) for t in c["song"]["tracks"]) > 3, 3000,
          rule="more than three events"),
]

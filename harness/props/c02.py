from hypothesis import strategies as st
import midistrat as M
import smf
from engine import Facet, require
from props.c01 import diff

ID = "C02"
PROBES = "midi"
CLS = {0x80: "NoteOffEvent", 0x90: "NoteOnEvent", 0xA0: "AfterTouchEvent", 0xB0: "ControlChangeEvent",
       0xC0: "ProgramChangeEvent", 0xD0: "ChannelAfterTouchEvent", 0xE0: "PitchWheelEvent", 0xF0: "SysexEvent"}
MCLS = {0x00: "SequenceNumberMetaEvent", 0x01: "TextMetaEvent", 0x02: "CopyrightMetaEvent", 0x03: "TrackNameEvent",
        0x04: "InstrumentNameEvent", 0x05: "LyricsEvent", 0x06: "MarkerEvent", 0x07: "CuePointEvent",
        0x08: "ProgramNameEvent", 0x20: "ChannelPrefixEvent", 0x21: "PortEvent", 0x2E: "TrackLoopEvent",
        0x2F: "EndOfTrackEvent", 0x51: "SetTempoEvent", 0x54: "SmpteOffsetEvent", 0x58: "TimeSignatureEvent",
        0x59: "KeySignatureEvent", 0x7F: "SequencerSpecificEvent"}


@st.composite
def case(draw):
    song = draw(M.song())
    runs = draw(st.one_of(st.just([False]), st.just([True]), st.lists(st.booleans(), min_size=1, max_size=7)))
    pads = draw(st.one_of(st.just([0]), st.lists(st.integers(0, 3), min_size=1, max_size=5)))
    extra = draw(st.one_of(st.just([]), st.lists(M.b8, max_size=12)))
    parts = draw(st.sampled_from([[False], [False], [True], [False, True]]))
    octets = smf.encode(song, lambda i: runs[i % len(runs)], lambda i: pads[i % len(pads)], extra, lambda i: parts[i % len(parts)])
    return {"song": song, "bytes": octets, "runs": runs, "pads": pads, "extra": len(extra)}


def expected(e):
    tick, status, ch, d, cmd = e
    r = {}
    if status == 0xFF:
        r["cls"] = MCLS.get(cmd, "UnknownMetaEvent")
        if 1 <= cmd <= 8:
            r["text"] = list(d)
        elif cmd == 0x51:
            r["mpqn"] = d[0] * 65536 + d[1] * 256 + d[2]
            r["bpm"] = 6e7 / r["mpqn"]
        elif cmd == 0x58:
            r.update(numerator=d[0], denominator=1 << d[1], metronome=d[2], thirtyseconds=d[3])
        elif cmd == 0x59:
            r.update(alternatives=d[0] - 256 if d[0] > 127 else d[0], minor=d[1])
    elif status in (0x80, 0x90):
        r.update(cls=CLS[status], pitch=d[0], velocity=d[1])
    elif status == 0xA0:
        r.update(cls=CLS[status], pitch=d[0], value=d[1])
    elif status == 0xB0:
        r.update(cls=CLS[status], control=d[0], value=d[1])
    elif status in (0xC0, 0xD0):
        r.update(cls=CLS[status], value=d[0])
    elif status == 0xE0:
        r.update(cls=CLS[status], pitch=d[0] + 128 * d[1] - 8192)
    return r


def check(c, o):
    d = diff(o["song"], c["song"])
    require(d is None, "decoded differently (running status %s, padding %s, %d extra header bytes): %s", c["runs"], c["pads"],
            c["extra"], d)
    for t, ms in zip(c["song"]["tracks"], o["meaning"]):
        for e, m in zip(t, ms):
            for k, v in expected(e).items():
                ok = abs(m[k] - v) <= 1e-9 * v if k == "bpm" else m[k] == v
                require(ok, "%s of %s is %r, want %r", k, e, m[k], v)
    require(o["kept"] and o["rel"], "reading changed the file, or ticks are not relative")


FACETS = [
    Facet("read", case(), "read", check,
          lambda c, o: sum(len(t) for t in c["song"]["tracks"]) > 3 and (any(c["runs"]) or any(c["pads"]) or c["extra"]), 9000,
          rule="more than three events, and running status, padded numbers or a long header"),
]

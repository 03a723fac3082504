"""Strategies of MIDI songs (see smf.py for their shape)."""
from hypothesis import strategies as st

ticks = st.one_of(st.integers(0, 130), st.integers(0, 3000), st.sampled_from([0, 0, 0, 127, 128, 16383, 16384, 2097151,
                                                                              2097152, (1 << 28) - 1]), st.integers(0, (1 << 28) - 1))
b7 = st.one_of(st.integers(0, 127), st.sampled_from([0, 1, 64, 127]))
b8 = st.one_of(st.integers(0, 255), st.sampled_from([0, 127, 128, 0xF7, 0xF0, 0xFF]))
text = st.one_of(st.lists(st.integers(32, 126), max_size=12), st.lists(b8, max_size=6),
                 st.integers(120, 300).map(lambda n: [65 + i % 26 for i in range(n)]))
META = {
    0x00: st.lists(b8, min_size=2, max_size=2), 0x20: st.lists(st.integers(0, 15), min_size=1, max_size=1),
    0x21: st.lists(b7, min_size=1, max_size=1), 0x2E: st.lists(b7, max_size=2), 0x54: st.lists(b7, min_size=5, max_size=5),
    0x51: st.integers(1, (1 << 24) - 1).map(lambda v: [v >> 16, v >> 8 & 255, v & 255]),
    0x58: st.tuples(st.integers(1, 32), st.integers(0, 6), st.integers(0, 96), st.sampled_from([8, 8, 0, 32, 1, 24])).map(list),
    0x59: st.tuples(st.integers(-7, 7).map(lambda v: v & 255), st.integers(0, 1)).map(list),
    0x7F: st.lists(b8, max_size=6),
}
for _c in range(1, 9):
    META[_c] = text
UNKNOWN = [0x09, 0x10, 0x30, 0x4B, 0x60, 0x7E]
SIZES = {0x80: 2, 0x90: 2, 0xA0: 2, 0xB0: 2, 0xC0: 1, 0xD0: 1, 0xE0: 2}


@st.composite
def chan_event(draw, channels, kinds):
    s = draw(st.sampled_from(kinds))
    return [draw(ticks), s, draw(st.sampled_from(channels)), [draw(b7) for _ in range(SIZES[s])], None]


@st.composite
def other_event(draw):
    k = draw(st.integers(0, 9))
    if k < 7:
        cmd = draw(st.sampled_from(sorted(META)))
        return [draw(ticks), 0xFF, None, draw(META[cmd]), cmd]
    if k == 7:
        return [draw(ticks), 0xFF, None, draw(st.lists(b8, max_size=5)), draw(st.sampled_from(UNKNOWN))]
    if k == 8:
        return [draw(ticks), 0xF0, None, draw(st.one_of(st.lists(b7, max_size=6), st.integers(125, 135).map(lambda n: [n - 9] * n))), None]
    return [draw(ticks), 0xF7, None, draw(st.lists(b8, max_size=5)), None]


@st.composite
def track(draw, maxev=8):
    channels = draw(st.lists(st.integers(0, 15), min_size=1, max_size=2))
    kinds = draw(st.sampled_from([[0x90], [0x90, 0x80], [0x90, 0x80, 0xB0, 0xE0], sorted(SIZES), sorted(SIZES)]))
    out = []
    for _ in range(draw(st.integers(0, maxev))):
        if draw(st.integers(0, 3)):
            out.append(draw(chan_event(channels, kinds)))
        else:
            out.append(draw(other_event()))
    out.append([draw(ticks), 0xFF, None, [], 0x2F])
    return out


@st.composite
def song(draw, huge=True):
    fmt = draw(st.sampled_from([0, 1, 1, 1, 2]))
    n = 1 if fmt == 0 else draw(st.integers(1, 4))
    big = draw(st.integers(0, 59)) if huge else -1
    if big == 0 and fmt:                        # more tracks than a byte counts
        small = [draw(track(2)) for _ in range(3)]
        k = draw(st.sampled_from([17, 127, 128, 255, 256, 257, 300]))
        tracks = [[[d, s, c, list(x), m] for d, s, c, x, m in small[i % 3]] for i in range(k)]
    else:
        tracks = [draw(track()) for _ in range(n)]
    if big == 1:                                # one long text
        k = draw(st.sampled_from([16383, 16384, 16385, 65535, 65536, 70000]))
        tracks[0].insert(0, [draw(ticks), 0xFF, None, [65 + i % 26 for i in range(k)], draw(st.integers(1, 8))])
    if big == 2:                                # many events
        few = draw(track(6))[:-1]
        k = draw(st.sampled_from([50, 300, 1500]))
        tracks[-1] = [list(few[i % len(few)]) for i in range(k if few else 0)] + tracks[-1]
    return {"fmt": fmt, "res": draw(st.one_of(st.sampled_from([96, 220, 480, 960, 1, 32767, 0xE728, 65535]), st.integers(1, 65535))),
            "tracks": tracks}

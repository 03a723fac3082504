# -*- coding: utf-8 -*-
"""Hypothesis strategies of patterns as plain data."""
import random
from hypothesis import strategies as st

DRUMS = ["Kick", "Snare", "ClosedHH", "OpenHH", "Rimshot", "Cymbal"]
SUBSTR = ["Conga", "LowConga", "HiConga", "Tom", "LowTom", "m", "min", "maj"]
TUPLES = [("C", "maj"), ("A", "min"), ("G", "7"), ("C", "min"), ("maj",), ("x", "y", "z"), ()]
NUMS = [1, 2, 36, 0]
CLEAN = ["Kick", "Snare", "ClosedHH", "Rim", ("C", "maj"), ("A", "min"), ("Kick", "Snare"), ()]


def times(maxv=16, q=None):
    """non-negative dyadic times: float arithmetic on them is exact"""
    if q:
        return st.integers(0, int(maxv * q)).map(lambda k: k / q)
    return st.sampled_from([1, 2, 4, 4, 4, 8, 16, 64, 0]).flatmap(
        lambda d: st.integers(0, int(maxv * d)).map(lambda k: k / d) if d else near(maxv))


def near(maxv, low=0.0):
    """just beside a multiple of a quarter, by a power of two: still exact"""
    return st.tuples(st.integers(0, int(maxv * 4)), st.sampled_from([7, 10, 14, 20]), st.sampled_from([1, -1])).map(
        lambda x: x[0] / 4 + x[2] * 2.0 ** -x[1]).filter(lambda v: low <= v <= maxv)


def durs(maxv=6):
    return st.sampled_from([1, 2, 4, 4, 4, 8, 16, 64, 0]).flatmap(
        lambda d: st.integers(1, max(1, int(maxv * d))).map(lambda k: k / d) if d else near(maxv, 2.0 ** -20))


pitches = st.one_of(st.sampled_from([36, 38, 42, 60, 64, 67]), st.integers(0, 127))
vels = st.one_of(st.sampled_from([80, 100, 127, 1]), st.integers(0, 127))


def tagset(kind="any"):
    """a small alphabet of tags for one case"""
    pools = {"drums": [DRUMS], "substr": [SUBSTR + DRUMS], "tuples": [TUPLES], "nums": [NUMS],
             "clean": [CLEAN],
             "any": [DRUMS, SUBSTR, TUPLES + ["Kick"], DRUMS + ["silence"], NUMS],
             "str": [DRUMS, SUBSTR, DRUMS + ["silence"]],
             "strtup": [DRUMS, SUBSTR, TUPLES + ["Kick"], DRUMS + ["silence"]]}[kind]
    few = st.sampled_from(pools).flatmap(lambda p: st.lists(st.sampled_from(p), min_size=1, max_size=4, unique=True))
    if kind in ("nums", "tuples", "clean"):
        return few
    many = st.integers(8, 20).map(lambda n: pools[0][:3] + ["voice %d" % i for i in range(n)])
    return st.sampled_from([False] * 19 + [True]).flatmap(lambda m: many if m else few)


def event(tags, t=None, d=None, pitch=None):
    return st.tuples(times() if t is None else t, durs() if d is None else d, pitches if pitch is None else pitch, vels, st.sampled_from(tags)).map(list)


META = {
    "bpm": st.sampled_from([120, 60, 90.5, 140, 33.25, 200, 1, 999.999, 6e7 / 512345, 100 / 3, 119.9999]),
    "ts": st.sampled_from([(4, 4), (3, 4), (6, 8), (7, 8), (5, 4), (2, 2), (12, 16), (1, 1), (17, 32)]),
    "key": st.sampled_from([None, "C", "Am", "F#", "Bbm", ""]),
    "name": st.sampled_from(["p", "beat one", "a_b", "Name.2", "p", "n" * 120, u"caf\u00e9", u"\u266a 3", "it's", "\"q\"", " x "]),
    "start": st.sampled_from([0, 0, 4, 1.5]),
    "res": st.sampled_from([960, 480, 96, 220]),
    "path": st.sampled_from([None, "some/file.mid"]),
}


def whole(x):
    return int(x) if isinstance(x, float) and x == int(x) else x


@st.composite
def pattern(draw, tagkind="any", minev=0, maxev=10, maxt=16, t=None, d=None, fit=True, meta=False,
            pitch=None, big=True, plain=True):
    tags = draw(tagset(tagkind)) if isinstance(tagkind, str) else tagkind
    if big and draw(st.integers(0, 19)) == 0:
        n = draw(st.integers(max(minev, 11), 48))
        evs = draw(st.lists(event(tags, t, d, pitch), min_size=n, max_size=n))
    else:
        evs = draw(st.lists(event(tags, t, d, pitch), min_size=minev, max_size=maxev))
    if big and t is None and draw(st.integers(0, 39)) == 0:         # far from the beginning, all or some
        off = draw(st.sampled_from([64, 100.5, 1024]))
        for e in evs:
            if draw(st.integers(0, 3)):
                e[0] += off
    if big and evs and draw(st.integers(0, 249)) == 0:               # hundreds of events
        r = random.Random(draw(st.integers(0, 999)))
        pool, span = evs, (1 if t is not None else draw(st.sampled_from([1, 16, 200])))
        evs = []
        for _ in range(draw(st.integers(60, 300))):
            e = list(r.choice(pool))
            e[2:] = r.choice(pool)[2:]
            evs.append([e[0] + 4 * r.randrange(span)] + e[1:])
    if big and d is None and evs and draw(st.integers(0, 11)) == 0:     # a drone
        draw(st.sampled_from(evs))[1] = draw(st.sampled_from([17, 24.5, 32, 64, 100.25]))
    end = max([e[0] + e[1] for e in evs] or [0])
    extra = draw(st.sampled_from([0, 0, 0.25, 1, 4, 16]))
    if fit:
        dur = end + extra
        if draw(st.booleans()):
            dur = float(-(-dur // 4) * 4)
        if dur == 0:
            dur = draw(st.sampled_from([4, 1, 8.0]))
    else:
        dur = draw(st.one_of(st.just(end + extra), times(maxt)))
    if draw(st.integers(0, 3)) == 0:                                # whole numbers as integers
        evs = [[whole(e[0]), whole(e[1])] + e[2:] for e in evs]
        dur = whole(dur)
    p = {"dur": dur, "ev": evs}
    if meta:
        for k, s in META.items():
            p[k] = draw(s)
    elif plain and draw(st.integers(0, 3)) == 0:                    # fields that must make no difference
        p["start"] = draw(st.sampled_from([4, 1.5, 0.25, 100]))
        for k in draw(st.lists(st.sampled_from(["bpm", "ts", "key", "res"]), max_size=2, unique=True)):
            p[k] = draw(META[k])
    return p


@st.composite
def beside(draw, p, one_in=5):
    """sometimes a copy of some event, just beside it: its start or its length differs by little"""
    if p["ev"] and draw(st.integers(0, one_in - 1)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(p["ev"]) - 1))
            e = list(p["ev"][i])
            e[draw(st.sampled_from([0, 0, 1]))] += 2.0 ** -draw(st.sampled_from([8, 10, 12, 14, 20]))
            if max(x[0] + x[1] for x in p["ev"]) <= p["dur"]:
                p["dur"] = max(p["dur"], e[0] + e[1])
            p["ev"].insert(draw(st.sampled_from([i, i + 1, len(p["ev"])])), e)
    return p


def steps(hi):
    """lengths to cut by: never so short that there are millions of them"""
    return durs(hi).filter(lambda d: d >= 1 / 64)

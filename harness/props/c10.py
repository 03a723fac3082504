from collections import Counter
from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import merge, complement, ms

ID = "C10"
PROBES = "pat"


@st.composite
def case(draw):
    p = draw(S.beside(draw(S.pattern("any", 0, 8, fit=draw(st.integers(0, 4)) > 0))))
    if p["ev"] and draw(st.integers(0, 9)) == 0:          # a duration that does not cover the events
        p["dur"] = draw(st.sampled_from([e[0] for e in p["ev"]]))
    kw = {}
    if draw(st.booleans()):
        kw["maxSilenceTime"] = draw(st.one_of(st.sampled_from([1, 0.25, 4, 0, 0.5]), S.steps(4)))
    if draw(st.booleans()):
        kw["perTag"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        kw["silenceTag"] = draw(st.sampled_from(["silence", "rest", "Kick"]))
    if draw(st.integers(0, 2)) == 0:
        kw["silencePitch"] = draw(st.sampled_from([0, 60, 127]))
    if kw.get("maxSilenceTime") and p["dur"] / kw["maxSilenceTime"] > 300:
        kw["maxSilenceTime"] = p["dur"] / 64
    return {"p": p, "kw": kw}


def canon(e):
    return (float(e[0]), float(e[1]), float(e[2]), float(e[3]), repr(e[4]))


def check_one(c, got, what):
    p, kw = c["p"], c["kw"]
    maxs = kw.get("maxSilenceTime", 0)
    tag, pitch = kw.get("silenceTag", "silence"), kw.get("silencePitch", 0)
    extra = Counter(canon(e) for e in got["ev"])
    extra.subtract(Counter(canon(e) for e in p["ev"]))
    neg = [k for k, v in extra.items() if v < 0]
    require(not neg, "%s: original events lost or changed: %s", what, neg[:5])
    sil = []
    for k, v in extra.items():
        for _ in range(v):
            require(k[2] == pitch and k[3] == 0 and k[4] == repr(tag), "%s: added event %s is not a silence (%r, pitch %r)", what, k, tag, pitch)
            require(k[1] > 0, "%s: silence of length %r", what, k[1])
            require(maxs <= 0 or k[1] <= maxs, "%s: silence of %r exceeds the maximum %r", what, k[1], maxs)
            sil.append([k[0], k[0] + k[1]])
    require(got["dur"] == p["dur"], "%s: duration changed to %r", what, got["dur"])
    if kw.get("perTag"):
        voices = [[[e[0], e[0] + e[1]] for e in p["ev"] if e[4] == t and type(e[4]) is type(t)]
                  for t in {repr(e[4]): e[4] for e in p["ev"]}.values()]
    else:
        voices = [[[e[0], e[0] + e[1]] for e in p["ev"]]]
    gaps = []
    for v in voices:
        gaps += complement(v, p["dur"])
    pts = sorted({x for iv in gaps + sil for x in iv} | {p["dur"]})
    for a, b in zip(pts, pts[1:]):
        if a >= p["dur"]:
            break                                            # beyond the pattern
        n = sum(1 for x, y in sil if x <= a and b <= y)
        w = sum(1 for x, y in gaps if x <= a and b <= y)
        require(n == w, "%s: %d silences during [%s, %s), want %d", what, n, a, b, w)


def check(c, o):
    check_one(c, o["filled"], "fill")
    if o["copy"] is not None:
        check_one(c, o["copy"], "filled copy")
        require(o["untouched"], "the filled copy changed its source")


FACETS = [
    Facet("fill", case(), "silences", check,
          lambda c, o: len(o["filled"]["ev"]) > len(c["p"]["ev"]) > 0, 14000, rule="events and gaps are both present"),
]

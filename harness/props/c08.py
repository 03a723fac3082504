from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import eq_ms, same_ms

ID = "C08"
PROBES = "pat"


@st.composite
def case(draw):
    p = draw(S.pattern("any", 0, 10))
    starts = [e[0] for e in p["ev"]] or [0]
    ends = [e[0] + e[1] for e in p["ev"]] or [4]
    s = draw(st.one_of(S.times(16), st.sampled_from(starts), st.sampled_from(ends), st.sampled_from([-1, -0.25, -4.5])))
    l = draw(st.one_of(S.durs(16), st.sampled_from([abs(x - s) or 1 for x in starts]), st.sampled_from([4, 8, 1])))
    if draw(st.integers(0, 7)) == 0:        # the rest of the pattern, and an event that starts when it is over
        p["ev"].insert(draw(st.integers(0, len(p["ev"]))), [p["dur"]] + draw(S.event("str"))[1:])
        s = draw(st.one_of(st.just(0), S.times(16).map(lambda x: min(x, p["dur"] / 2))))
        l = p["dur"] - s
    kw = draw(st.sampled_from([{}, {}, {"trimEnd": True}, {"trimEnd": False}]))
    return {"p": p, "s": s, "l": l, "kw": kw}


def check(c, o):
    s, l = c["s"], c["l"]
    trim = c["kw"].get("trimEnd", True)
    want = []
    for e in c["p"]["ev"]:
        if s <= e[0] < s + l:
            d = min(e[1], s + l - e[0]) if trim else e[1]
            want.append([e[0] - s, d, e[2], e[3], e[4]])
    eq_ms(o["slice"]["ev"], want, "slice [%s, %s+%s) trim=%s" % (s, s, l, trim))
    require(o["slice"]["dur"] == l, "duration of slice %r, want %r", o["slice"]["dur"], l)
    require(o["slice"]["start"] == s, "start of slice %r, want %r", o["slice"]["start"], s)
    require(o["before"]["dur"] == o["after"]["dur"] and same_ms(o["before"]["ev"], o["after"]["ev"]), "slicing changed the source")
    require(o["spoiled"] == o["after"], "changing the slice changed the source: %s, was %s", o["spoiled"], o["after"])


@st.composite
def messy(draw):
    q = draw(st.sampled_from([3, 5, 7, 10, 12, 24, 96, 960]))
    t = st.integers(0, 8 * q).map(lambda k: k / q)
    d = st.integers(1, 4 * q).map(lambda k: k / q)
    p = draw(S.pattern("str", 0, 8, t=t, d=d, big=False))
    return {"p": p, "s": draw(t), "l": draw(d), "kw": {}}


def check_messy(c, o):
    s, l, eps = c["s"], c["l"], 1e-9
    must, may = [], []
    for e in c["p"]["ev"]:
        rel = e[0] - s
        if eps < rel < l - eps:
            must.append(e)
        elif -eps <= rel <= l + eps:
            may.append(e)
    got = list(o["slice"]["ev"])

    def match(e, g):
        return abs(g[0] - (e[0] - s)) < 1e-8 and abs(g[1] - max(0, min(e[1], s + l - e[0]))) < 1e-8 and g[2:] == e[2:]
    for e in must:
        hit = [g for g in got if match(e, g)]
        require(hit, "event %s missing from slice [%s, +%s): %s", e, s, l, got)
        got.remove(hit[0])
    for g in got:
        require(any(match(e, g) for e in may), "slice has %s, which does not start inside", g)
    require(o["slice"]["dur"] == l and o["slice"]["start"] == s, "duration or start of slice")


FACETS = [
    Facet("slice", case(), "slice", check, lambda c, o: 0 < len(o["slice"]["ev"]) < len(c["p"]["ev"]), 12000,
          rule="the slice holds some but not all events"),
    Facet("slice-inexact-times", messy(), "slice", check_messy, lambda c, o: len(o["slice"]["ev"]) > 0, 3000,
          rule="the slice is not empty"),
]

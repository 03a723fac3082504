import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import eq_ms, same_ms, ms
from props.c09 import pieces

ID = "C20"
PROBES = "desc"


@st.composite
def case(draw):
    p = draw(S.pattern("any", 0, 8, maxt=draw(st.sampled_from([4, 16, 32])), fit=True, big=draw(st.booleans())))
    p["name"] = draw(st.sampled_from(["p", "song"]))
    d = draw(st.sampled_from([["content"], ["content"], ["content"], ["density", {}], ["tags", {}], ["sync"], ["chord", {}], None]))
    name = "chords" if d is None else draw(st.sampled_from(["v", "chords", "a name"]))
    kw = {} if d is None else {"sliceType": draw(st.sampled_from([1, 2, 4, 4, 3, 8, "perEvent", "perEvent", "all"]))}
    return {"p": p, "d": d, "name": name, "kw": kw}


def check(c, o):
    evs, dur = c["p"]["ev"], c["p"]["dur"]
    sl = c["kw"].get("sliceType", 4)
    slices = []          # start, duration, events, exact positions
    if sl == "all":
        if evs:
            slices.append((c["p"].get("start", 0), dur, evs))
    elif sl == "perEvent":
        for t in sorted({e[0] for e in evs}):
            act = [e for e in evs if e[0] <= t < e[0] + e[1]]
            slices.append((t, max(e[0] + e[1] for e in act) - t, act))
    else:
        pc = pieces(evs, sl)
        slices = [(i * sl, sl, pc[i]) for i in sorted(pc)]
    got = o["evs"]
    require([(g["s"], g["d"]) for g in got] == [(s[0], s[1]) for s in slices],
            "slices %s: viewpoint events at %s, want %s", sl, [(g["s"], g["d"]) for g in got], [(s[0], s[1]) for s in slices])
    for g, s in zip(got, slices):
        require(g["origin"] is not None, "event at %s has no origin", g["s"])
        eq_ms(g["origin"]["ev"], s[2], "slice %s at %s" % (sl, s[0]))
        require(g["tag"] == (tuple(g["again"]) if isinstance(g["again"], list) else g["again"]),
                "event at %s: tag %s, the descriptor of its slice is %s", g["s"], g["tag"], g["again"])
        if c["d"] and c["d"][0] == "content":
            require(ms(g["tag"]) == ms(s[2]), "event at %s: described %s, want %s", g["s"], g["tag"], s[2])
        require(g["is_p"] == (sl == "all"), "the origin of the event is the pattern: %s", g["is_p"])
    require(o["stored"] and o["names"] == [c["name"]], "viewpoint not stored under its name: %s", o["names"])
    require(o["origin"], "the viewpoint does not refer to the pattern")
    require(o["vp"]["name"] == c["name"] and o["vp"]["dur"] == dur, "viewpoint name %s, duration %s", o["vp"]["name"], o["vp"]["dur"])
    a, b = o["after"], o["before"]
    eq_ms(a["ev"], b["ev"], "events of the pattern afterwards")
    require({k: v for k, v in a.items() if k != "ev"} == {k: v for k, v in b.items() if k != "ev"},
            "fields of the pattern changed: %s, were %s", a, b)


FACETS = [
    Facet("viewpoint", case(), "viewpoint", check, lambda c, o: len(o["evs"]) > 1, 10000, rule="more than one slice"),
]

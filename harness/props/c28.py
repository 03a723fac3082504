from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import same_ms, sorted_by_start, DEFAULTS, expect_fields

ID = "C28"
PROBES = "trf"


@st.composite
def case(draw):
    q = draw(st.sampled_from([1, 2, 4, 16]))
    t = st.integers(0, draw(st.sampled_from([3, 8, 16])) * q).map(lambda k: k / q)
    d = st.integers(1, 5 * q).map(lambda k: k / q)
    if draw(st.integers(0, 5)) == 0:
        t, d = st.floats(0, 16, allow_nan=False), st.floats(0.001, 6)
    return {"p": draw(S.pattern("any", 0, draw(st.sampled_from([10, 10, 10, 40])), t=t, d=d, fit=draw(st.integers(0, 3)) > 0, meta=draw(st.booleans())))}


def check(c, o):
    p = c["p"]
    require(same_ms(o["after"]["ev"], p["ev"]), "the input's events were modified: %s", o["after"]["ev"])
    for k in DEFAULTS:
        require(o["after"][k] == o["before"][k], "the input's %s was modified", k)
    require(o["after"]["dur"] == p["dur"], "the input's duration was modified")
    require(o["outdur"] >= p["dur"] and o["dur"] == o["outdur"], "duration %r does not cover the input's %r", o["outdur"], p["dur"])
    end = max([p["dur"]] + [e[0] + e[1] for e in p["ev"]])
    require(o["outdur"] <= end, "duration %r, beyond every event and the input's duration", o["outdur"])
    onsets = sorted({e[0] for e in p["ev"]})
    require([x["s"] for x in o["chords"]] == onsets, "chords at %s, onsets are %s", [x["s"] for x in o["chords"]], onsets)
    require(o["num"] == len(onsets) and o["same"], "number of chords %s", o["num"])
    for x in o["chords"]:
        act = [e for e in p["ev"] if e[0] <= x["s"] and x["s"] - e[0] < e[1]]
        require(sorted(x["c"]) == sorted([e[2], e[3]] for e in act), "chord at %s: %s, active are %s", x["s"], x["c"], act)
        tags = [t for e in act for t in (e[4] if isinstance(e[4], tuple) else (e[4],))]
        require(sorted(map(repr, x["t"])) == sorted(map(repr, tags)), "chord at %s: tags %s, active are %s", x["s"], x["t"], tags)
        require(x["d"] in [e[1] for e in act if e[0] == x["s"]], "chord at %s lasts %s, none of its notes does", x["s"], x["d"])


FACETS = [Facet("slices", case(), "chordify", check, lambda c, o: any(len(x["c"]) > 1 for x in o["chords"]), 12000,
                rule="some chord has more than one note")]

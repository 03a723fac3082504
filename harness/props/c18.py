from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import fields_equal, expect_fields, DEFAULTS, close

ID = "C18"
PROBES = "pat"
NAMES = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]


def name(p):
    return "%s%d" % (NAMES[p % 12], p // 12 - 1)


@st.composite
def tcase(draw):
    p = draw(S.pattern("any", 0, 8, meta=True, pitch=st.integers(24, 100)))
    a = draw(st.one_of(st.integers(-12, 12), st.integers(-128, 128)))
    b = draw(st.one_of(st.integers(-24, 27), st.just(-a), st.integers(-128, 128)))
    return {"p": p, "a": a, "b": b}


def transposed(p, n):
    return [[e[0], e[1], e[2] + n, e[3], name(e[2] + n)] for e in p["ev"]]


def check_t(c, o):
    exp = expect_fields(c["p"])
    for k, n in (("one", c["a"]), ("two", c["a"] + c["b"]), ("back", 0)):
        # below MIDI number 0 there are no names: any will do
        got = [e[:4] + [e[4] if e[2] >= 0 else name(e[2])] for e in o[k]["ev"]]
        require(got == transposed(c["p"], n), "transposed by %s (%s): %s, want %s", n, k, o[k]["ev"],
                transposed(c["p"], n))
        fields_equal(o[k], exp, ["dur"] + list(DEFAULTS), "transposed")
    require(o["hashable"], "unhashable tags")


@st.composite
def scase(draw):
    p = draw(S.pattern("any", 0, 8, meta=True))
    r = st.one_of(st.sampled_from([0.5, 2, 4, 0.25, 1, 8, 3, 1.5]), st.floats(0.05, 20))
    return {"p": p, "a": draw(r), "b": draw(r)}


def check_s(c, o):
    exp = expect_fields(c["p"])
    for k, r in (("one", c["a"]), ("two", c["a"] * c["b"]), ("back", 1)):
        got, want = o[k]["ev"], c["p"]["ev"]
        require(len(got) == len(want), "number of events changed")
        for g, w in zip(got, want):
            require(close(g[0], w[0] * r) and close(g[1], w[1] * r) and g[2:] == w[2:],
                    "stretched by %s (%s): %s became %s", r, k, w, g)
        require(close(o[k]["dur"], c["p"]["dur"] * r), "duration %s stretched by %s (%s): %s", c["p"]["dur"], r, k, o[k]["dur"])
        fields_equal(o[k], exp, list(DEFAULTS), "stretched")


FACETS = [
    Facet("transpose", tcase(), "transpose", check_t, lambda c, o: c["a"] and len(c["p"]["ev"]) > 0, 7000,
          rule="events and a non-zero interval"),
    Facet("stretch", scase(), "stretch", check_s, lambda c, o: c["a"] != 1 and len(c["p"]["ev"]) > 0, 7000,
          rule="events and a ratio other than 1"),
]

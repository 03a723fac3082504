import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import close

ID = "C13"
PROBES = "pat"

KW = st.sampled_from([{}, {}, {"quantizeStartTime": True, "quantizeDuration": True}, {"quantizeStartTime": False},
                      {"quantizeDuration": False}, {"quantizeStartTime": False, "quantizeDuration": False}])


@st.composite
def case(draw):
    p = draw(S.pattern("any", 1, 8, fit=draw(st.booleans())))
    return {"p": p, "step": draw(st.sampled_from([0.25, 0.25, 0.5, 1, 2, 0.125, 4, 1.0, 0.0625, 8, 16, 0.015625])), "kw": draw(KW)}


def qstart(x, s):
    k = math.floor(x / s)
    return (k if x / s - k <= 0.5 else k + 1) * s


def qdur(x, s):
    k = math.floor(x / s)
    return max(1, k if x / s - k < 0.5 else k + 1) * s


def check(c, o):
    s, kw = c["step"], c["kw"]
    want = [[qstart(e[0], s) if kw.get("quantizeStartTime", True) else e[0],
             qdur(e[1], s) if kw.get("quantizeDuration", True) else e[1]] + e[2:] for e in c["p"]["ev"]]
    require(o["one"]["ev"] == want, "quantized to %s: got %s, want %s", s, o["one"]["ev"], want)
    require(o["two"]["ev"] == want, "second quantization changed %s into %s", want, o["two"]["ev"])
    require(o["one"]["dur"] == c["p"]["dur"], "pattern duration changed")


@st.composite
def messy(draw):
    q = draw(st.sampled_from([3, 5, 7, 10, 12, 24, 96, 960, 1]))
    t = st.integers(0, 8 * q).map(lambda k: k / q)
    d = st.integers(1, 4 * q).map(lambda k: k / q)
    p = draw(S.pattern("any", 1, 8, t=t, d=d, big=False))
    return {"p": p, "step": draw(st.sampled_from([1 / 3, 0.1, 1 / 6, 2 / 3, 0.2, 0.3, 0.75, 1.5, 1 / 12, 1 / 7])), "kw": draw(KW)}


def near(x, got, s, atleast):
    k = got / s
    if abs(k - round(k)) > 1e-6 or round(k) < atleast:
        return False
    return abs(got - x) <= s * 0.5 * (1 + 1e-6) or (atleast and round(k) == 1 and x < s)


def check_messy(c, o):
    s, kw = c["step"], c["kw"]
    one = o["one"]["ev"]
    require(len(one) == len(c["p"]["ev"]), "number of events changed")
    for e, g, g2 in zip(c["p"]["ev"], one, o["two"]["ev"]):
        require(g[2:] == e[2:], "%s became %s", e, g)
        if kw.get("quantizeStartTime", True):
            require(near(e[0], g[0], s, 0), "start %r quantized to %r on a grid of %r", e[0], g[0], s)
        else:
            require(e[0] == g[0], "start changed although not asked")
        if kw.get("quantizeDuration", True):
            require(near(e[1], g[1], s, 1), "duration %r quantized to %r on a grid of %r", e[1], g[1], s)
        else:
            require(e[1] == g[1], "duration changed although not asked")
        require(close(g[0], g2[0], 1e-9) and close(g[1], g2[1], 1e-9), "second quantization moved %s to %s", g, g2)
    require(o["one"]["dur"] == c["p"]["dur"], "pattern duration changed")


FACETS = [
    Facet("binary-grid", case(), "quantize", check, lambda c, o: o["one"]["ev"] != c["p"]["ev"], 12000, rule="something moved"),
    Facet("other-grids", messy(), "quantize", check_messy, lambda c, o: o["one"]["ev"] != c["p"]["ev"], 6000, rule="something moved"),
]

import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require, fail
from model import eq_ms, ms, merge

ID = "C09"
PROBES = "pat"


@st.composite
def case(draw):
    p = draw(S.beside(draw(S.pattern("any", 0, 8, maxt=draw(st.sampled_from([4, 16, 60]))))))
    if draw(st.booleans()):
        p["name"] = draw(st.sampled_from(["n", "loop"]))
    l = draw(st.one_of(st.sampled_from([4, 1, 2, 8, 16, 0.5, 1.5, 3, 4.0, 0.75, 5, 100]), S.steps(8)))
    if p["dur"] / l > 400:
        l = p["dur"] / 8
    c = {"p": p, "l": l, "sup": draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        c["vpn"] = "v"
        c["p"] = {"dur": 4, "ev": [], "name": "host", "vp": {"v": p}}
    return c


def pieces(evs, l):
    out = {}
    for s, d, p, v, t in evs:
        i = int(math.floor(s / l))
        end = s + d
        while True:
            b = (i + 1) * l
            cut = min(end, b)
            out.setdefault(i, []).append([s - i * l, cut - s, p, v, t])
            if end <= b:
                break
            s, i = b, i + 1
    return out


def check(c, o):
    l = c["l"]
    p = c["p"]["vp"]["v"] if c.get("vpn") else c["p"]
    want = pieces(p["ev"], l)
    n = int(math.ceil(p["dur"] / l))
    for mode in ("copy", "inplace"):
        parts = o[mode]
        if c["sup"]:
            require(all(x is not None for x in parts), "placeholder although empty parts are suppressed")
            idx = sorted(want)
            require(len(parts) == len(idx), "%s: %d parts, want %d (parts %s)", mode, len(parts), len(idx), idx)
        else:
            idx = list(range(n))
            require(len(parts) == n, "%s: %d parts, want %d", mode, len(parts), n)
        for i, part in zip(idx, parts):
            if i not in want:
                require(part is None or not part["ev"], "part %d should be empty, got %s", i, part)
                continue
            require(part is not None, "part %d missing", i)
            eq_ms(part["ev"], want[i], "%s part %d of length %s" % (mode, i, l))
            require(part["dur"] == l, "part %d lasts %r, want %r", i, part["dur"], l)
            require(part["start"] == i * l, "part %d starts at %r, want %r", i, part["start"], i * l)
    if not c.get("vpn"):
        require(o["same"], "splitting with copies changed the source")


@st.composite
def messy(draw):
    q = draw(st.sampled_from([3, 5, 7, 10, 12, 24, 96, 49, 960]))
    t = st.integers(0, 8 * q).map(lambda k: k / q)
    d = st.integers(1, 4 * q).map(lambda k: k / q)
    p = draw(S.pattern("str", 1, 6, t=t, d=d, big=False))
    l = draw(st.one_of(st.integers(1, 3 * q).map(lambda k: k / q), st.integers(1, 60).map(lambda k: 1 / k),
                       st.sampled_from([0.1, 0.7, 1 / 3, 1.1, 2 / 7, 4 / 3])))
    if p["dur"] / l > 150:
        l = p["dur"] / 50
    return {"p": p, "l": l, "sup": True}


def check_messy(c, o):
    l, eps = c["l"], 1e-7
    for mode in ("copy", "inplace"):
        glued = {}
        for part in o[mode]:
            require(abs(part["dur"] - l) <= eps, "part lasts %r, want %r", part["dur"], l)
            k = part["start"] / l
            require(abs(k - round(k)) < 1e-6, "part starts at %r, not a multiple of %r", part["start"], l)
            for e in part["ev"]:
                require(-eps <= e[0] and e[0] + e[1] <= l + eps and e[1] >= -eps, "piece %s leaves its part of length %s", e, l)
                glued.setdefault(repr(e[2:]), []).append([part["start"] + e[0], part["start"] + e[0] + e[1]])
        orig = {}
        for e in c["p"]["ev"]:
            orig.setdefault(repr(e[2:]), []).append([e[0], e[0] + e[1]])
        for k in set(glued) | set(orig):
            a = sum(y - x for x, y in glued.get(k, []))
            b = sum(y - x for x, y in orig.get(k, []))
            require(abs(a - b) < 1e-6, "%s: %s sounds for %r, originally %r", mode, k, a, b)
            u = [x for x in merge(glued.get(k, []), eps) if x[1] - x[0] > eps]
            w = [x for x in merge(orig.get(k, []), eps) if x[1] - x[0] > eps]
            require(len(u) == len(w) and all(abs(x[0] - y[0]) < 1e-6 and abs(x[1] - y[1]) < 1e-6 for x, y in zip(u, w)),
                    "%s: %s sounds during %s, originally %s", mode, k, u, w)


def nontriv(c, o):
    p = c["p"]["vp"]["v"] if c.get("vpn") else c["p"]
    return sum(len(x["ev"]) for x in o["copy"] if x) > len(p["ev"])


@st.composite
def many(draw):
    """few events that last for hundreds or thousands of parts"""
    l = draw(st.sampled_from([1, 0.25, 4, 1.5]))
    p = draw(S.pattern("str", 1, 2, big=False))
    n = draw(st.integers(200, 2500))
    p["ev"][0][1] = n * l + draw(st.sampled_from([0, 0.5, -0.125]))
    p["dur"] = max(e[0] + e[1] for e in p["ev"])
    return {"p": p, "l": l, "sup": draw(st.booleans())}


FACETS = [
    Facet("split-many-parts", many(), "split", check, nontriv, 60, 600, rule="some event crosses a boundary"),
    Facet("split", case(), "split", check, nontriv, 8000, rule="some event crosses a boundary"),
    Facet("split-inexact-times", messy(), "split", check_messy, nontriv, 4000, rule="some event crosses a boundary"),
]

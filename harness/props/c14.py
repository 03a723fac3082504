from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import ms, merge, eq_ms

ID = "C14"
PROBES = "pat"


@st.composite
def case(draw, fit=True):
    q = draw(st.sampled_from([1, 4, 16]))
    t = st.integers(0, 16 * q).map(lambda k: k / q)
    pp = st.sampled_from([60, 61, 36]) if draw(st.booleans()) else S.pitches
    p = draw(S.beside(draw(S.pattern("any", 0, 8, t=t, pitch=pp, fit=fit or draw(st.integers(0, 3)) > 0))))
    kw = draw(st.sampled_from([{}, {"usePitchValues": False}, {"usePitchValues": True}]))
    return {"p": p, "kw": kw}


def check(c, o):
    bp = c["kw"].get("usePitchValues", True)
    end = c["p"]["dur"]
    require(o["dur"] == end, "pattern duration changed")

    def group(evs):
        v = {}
        for e in evs:
            v.setdefault(e[2] if bp else repr(e[4]), []).append(e)
        return v
    a, b = group(c["p"]["ev"]), group(o["ev"])
    require(set(a) == set(b), "voices changed: %s, %s", set(a), set(b))
    for k, orig in a.items():
        got = b[k]
        onsets = sorted({e[0] for e in orig}) + [end]
        if len(onsets) - 1 == len(orig):
            want = []
            for e in orig:
                nxt = onsets[onsets.index(e[0]) + 1]
                want.append([e[0], max(e[1], nxt - e[0])] + e[2:])
            eq_ms(got, want, "legato of voice %s" % (k,))
            continue
        # several events on one onset: which of them is extended is free
        left = list(orig)
        for g in sorted(got, key=lambda e: e[1]):
            nxt = onsets[onsets.index(g[0]) + 1] if g[0] in onsets[:-1] else None
            require(nxt is not None, "voice %s: onset %s appeared", k, g[0])
            m = [x for x in left if x[0] == g[0] and x[2:] == g[2:] and (g[1] == x[1] or (g[0] + g[1] == nxt and g[1] > x[1]))]
            require(m, "voice %s: %s does not come from any of %s", k, g, left)
            left.remove(max(m, key=lambda x: (x[1] == g[1], x[1])))
        require(not left, "voice %s: lost %s", k, left)
        require(merge([[e[0], e[0] + e[1]] for e in got]) == [[onsets[0], max([end] + [e[0] + e[1] for e in got])]],
                "voice %s keeps a silence: %s", k, got)


def check_prev(c, o):
    end = c["p"]["dur"]
    onsets = sorted({e[0] for e in c["p"]["ev"]}) + [end]
    want = [[e[0], onsets[onsets.index(e[0]) + 1] - e[0]] + e[2:] for e in c["p"]["ev"]]
    eq_ms(o["ev"], want, "fill with previous")
    require(o["dur"] == end, "pattern duration changed")


FACETS = [
    Facet("legato", case(False), "legato", check, lambda c, o: ms(o["ev"]) != ms(c["p"]["ev"]), 12000, rule="some event was extended"),
    Facet("fill-previous", case().map(lambda c: {"p": c["p"]}), "fillprev", check_prev,
          lambda c, o: len({e[0] for e in c["p"]["ev"]}) > 1, 6000, rule="more than one onset"),
]

from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import sorted_by_start

ID = "C11"
PROBES = "pat"


@st.composite
def case(draw):
    q = draw(st.sampled_from([1, 2, 4, 16]))
    t = st.integers(0, draw(st.sampled_from([3, 8, 16])) * q).map(lambda k: k / q)
    d = st.integers(1, 5 * q).map(lambda k: k / q)
    pp = st.sampled_from([60, 61, 36]) if draw(st.booleans()) else S.pitches
    p = draw(S.pattern("any", 0, 9, t=t, d=d, pitch=pp, fit=draw(st.booleans())))
    p = draw(S.beside(p))
    kw = draw(st.sampled_from([{}, {"usePitchValues": False}, {"usePitchValues": True}]))
    return {"p": p, "kw": kw}


def voices(evs, bypitch):
    out = {}
    for e in evs:
        out.setdefault(e[2] if bypitch else repr(e[4]), []).append(e)
    return out


def check(c, o):
    bp = c["kw"].get("usePitchValues", False)
    require(sorted_by_start(o["ev"]), "events not in time order: %s", o["ev"])
    require(o["dur"] == c["p"]["dur"], "duration changed")
    a, b = voices(c["p"]["ev"], bp), voices(o["ev"], bp)
    require(set(b) <= set(a), "new voices: %s", set(b) - set(a))
    for k, orig in a.items():
        got = b.get(k, [])
        onsets = sorted({e[0] for e in orig})
        require([e[0] for e in got] == onsets, "voice %s: onsets %s, want each of %s once", k, [e[0] for e in got], onsets)
        for i, e in enumerate(got):
            nxt = onsets[i + 1] if i + 1 < len(onsets) else None
            ok = False
            for x in orig:
                d = x[1] if nxt is None else min(x[1], nxt - x[0])
                ok = ok or [x[0], d] + x[2:] == e
            require(ok, "voice %s: %s is not one of the originals %s cut at the next onset %s", k, e, orig, nxt)


def nontriv(c, o):
    return len(o["ev"]) < len(c["p"]["ev"]) or any(e not in c["p"]["ev"] for e in o["ev"])


FACETS = [Facet("overlap", case(), "overlap", check, nontriv, 15000, rule="something was removed or shortened")]

import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require

ID = "C12"
PROBES = "pat"


@st.composite
def case(draw):
    tags = draw(st.one_of(S.tagset("any"), S.tagset("str").map(lambda l: sorted(set(l + ["silence"])))))
    p = draw(S.pattern(tags, 0, 8, maxt=draw(st.sampled_from([4, 16])), fit=draw(st.booleans())))
    step = draw(st.sampled_from([1, 0.25, 0.5, 2, 0.125, 1.0, 4, 0.75, 1.5, 3, 8, 5, 0.0625, 0.375]))
    kw = {}
    if draw(st.integers(0, 2)) == 0:
        kw["repeatibleTags"] = draw(st.lists(st.sampled_from(tags), max_size=2, unique=True))
    return {"p": p, "step": step, "kw": kw}


def check(c, o, tol=0.0):
    step, dur = c["step"], c["p"]["dur"]
    rep = c["kw"].get("repeatibleTags", ["silence"])
    want, fuzzy = {}, set()
    for s, d, p, v, t in c["p"]["ev"]:
        n = max(1, int(d / step)) if t in rep else 1
        for i in range(n):
            x = (s + i * step) / step + 0.5
            k = math.floor(x)
            if tol and abs(x - round(x)) < 1e-6:       # a tie, decided by rounding
                for kk in (round(x) - 1, round(x)):
                    fuzzy.add((repr(t), kk))
                    want.setdefault((repr(t), kk), []).append((p, v))
                continue
            if tol and abs(k * step - dur) < 1e-6:     # on the very end
                fuzzy.add((repr(t), k))
                want.setdefault((repr(t), k), []).append((p, v))
                continue
            if k * step < dur:
                want.setdefault((repr(t), k), []).append((p, v))
    got = {}
    for s, d, p, v, t in o["p"]["ev"]:
        k = round(s / step)
        require(abs(s - k * step) <= tol, "event at %r is not on the grid of %r", s, step)
        require(abs(d - step) <= tol, "event of length %r on a grid of %r", d, step)
        require(s < dur, "event at %r outside the duration %r", s, dur)
        require((repr(t), k) not in got, "two events of %r on step %d", t, k)
        got[(repr(t), k)] = (p, v)
        require((repr(t), k) in want, "event of %r on step %d, where none rounds to", t, k)
        require((p, v) in want[(repr(t), k)], "event of %r on step %d has pitch, velocity %s, not %s", t, k, (p, v), want[(repr(t), k)])
    for k in want:
        require(k in got or k in fuzzy, "step %s of %s is empty", k[1], k[0])
    require(o["p"]["dur"] == dur, "duration changed")
    require(o["self"], "does not return the pattern")


@st.composite
def messy(draw):
    q = draw(st.sampled_from([3, 5, 10, 12, 96]))
    t = st.integers(0, 8 * q).map(lambda k: k / q)
    d = st.integers(1, 4 * q).map(lambda k: k / q)
    p = draw(S.pattern("str", 0, 8, t=t, d=d, big=False))
    for e in p["ev"]:
        if e[4] == "silence":
            e[4] = "Kick"
    return {"p": p, "step": draw(st.sampled_from([1 / 3, 0.1, 0.2, 0.3, 2 / 3, 0.7])), "kw": {}}


FACETS = [
    Facet("align", case(), "align", check, lambda c, o: len(c["p"]["ev"]) > 1 and o["p"]["ev"] != c["p"]["ev"], 12000,
          rule="more than one event and something moved"),
    Facet("align-inexact-steps", messy(), "align", lambda c, o: check(c, o, 1e-8),
          lambda c, o: len(o["p"]["ev"]) > 1, 2500, rule="more than one event remains"),
]

import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require

ID = "C22"
PROBES = "desc"


@st.composite
def rhythm(draw):
    n = draw(st.sampled_from([1, 2, 4, 8, 16, 16, 32, 64, 3, 5, 6, 7, 12, 24, 10, 48, 100, 128]))
    frac = draw(st.sampled_from([0, 0, 0, 0.25, 0.5, 0.75, 0.875]))
    tags = draw(S.tagset("any"))
    q = draw(st.sampled_from([1, 1, 2]))
    evs = draw(st.lists(S.event(tags, t=st.integers(0, n * q - 1).map(lambda k: k / q),
                                d=st.integers(1, 3 * q).map(lambda k: k / q)), max_size=min(n, 10)))
    return {"dur": n - frac if n > 1 else n, "ev": evs}


@st.composite
def case(draw):
    return {"d": ["sync"], "ps": draw(st.lists(rhythm(), min_size=1, max_size=4))}


def weights(n):
    """one for each level of binary subdivision (of at least one step) whose grid holds the step"""
    w = [0] * n
    parts = 1
    while n // parts >= 1:
        for k in range(parts):
            w[k * (n // parts)] += 1
        parts *= 2
    return w


def sync(p):
    n = int(math.ceil(p["dur"]))
    on = [any(e[0] <= i < e[0] + e[1] for e in p["ev"]) for i in range(n)]
    w = weights(n)
    return sum(abs(w[(i + 1) % n] - w[i]) for i in range(n) if on[i] and not on[(i + 1) % n])


def check(c, o):
    for i, p in enumerate(c["ps"]):
        want = sync(p)
        require(o["fresh"][i] == want, "syncopation of %s: %s, want %s", p, o["fresh"][i], want)
        require(o["one"][i] == want, "syncopation of %s by a descriptor used before on durations %s: %s, want %s", p,
                [x["dur"] for x in c["ps"][:i]], o["one"][i], want)
    require(all(o["kept"]), "the pattern was changed by measuring it")


FACETS = [
    Facet("syncopation", case(), "value", check, lambda c, o: len({x["dur"] for x in c["ps"]}) > 1 and any(o["one"]), 12000,
          rule="patterns of different durations, at least one syncopated"),
]

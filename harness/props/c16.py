import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import eq_ms, sorted_by_start

ID = "C16"
PROBES = "pat"


@st.composite
def case(draw):
    tags = draw(S.tagset("any"))
    p = draw(S.pattern(tags, 0, 5, fit=draw(st.booleans()), big=False))
    add = draw(st.lists(S.event(tags), min_size=1, max_size=8))
    ts = draw(st.sampled_from([(4, 4), (3, 4), (5, 4), (7, 4), (2, 4), (1, 4), (6, 8), (2, 2), (9, 8), (11, 16), (17, 4), (32, 32)]))
    return {"p": p, "add": add, "setdur": draw(st.one_of(S.times(40), st.sampled_from([0, 4, 8, 12, 16, 15, 12.5]), S.near(40))),
            "ts": ts, "kw": draw(st.sampled_from([{}, {"onlyIfBigger": True}, {"onlyIfBigger": False}]))}


def check(c, o):
    evs = list(c["p"]["ev"])
    dur = c["p"]["dur"]
    for e, got in zip(c["add"], o["adds"]):
        evs.append(e)
        dur = max([dur] + [x[0] + x[1] for x in evs])
        require(got["dur"] == dur, "duration after adding %s is %s, want %s", e, got["dur"], dur)
        eq_ms(got["ev"], evs, "events after adding")
        require(sorted_by_start(got["ev"]), "events not in time order after adding: %s", got["ev"])
    end = max(x[0] + x[1] for x in evs)
    d = c["setdur"]
    want = max(d, end) if c["kw"].get("onlyIfBigger", True) else end
    require(o["fit"]["dur"] == want, "duration fitted to events: %s, want %s", o["fit"]["dur"], want)
    require(o["last"] == end, "last note off %s, want %s", o["last"], end)
    eq_ms(o["fit"]["ev"], evs, "events after fitting")
    n, den = c["ts"]
    # in beats of the signature; for other denominators quarter-note beats are as good a reading
    bars = {float(n), n * 4.0 / den}
    ok = [b for b in bars if o["bar"]["dur"] == math.ceil(d / b) * b]
    require(ok, "duration to bar of %s in %s: %s", d, c["ts"], o["bar"]["dur"])
    eq_ms(o["bar"]["ev"], evs, "events after fitting to the bar")


FACETS = [
    Facet("durations", case(), "durations", check,
          lambda c, o: any(b[0] < a[0] for a, b in zip(c["add"], c["add"][1:])) and len({x["dur"] for x in o["adds"]}) > 1,
          14000, rule="events added out of time order, the duration growing on the way"),
]

from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import fields_equal, expect_fields, DEFAULTS

ID = "C15"
PROBES = "pat"
EXTRA = ["Kick", "Conga", "C", "maj", "absent", ("C", "maj"), 36, 1, ("Kick",), ()]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["drums", "substr", "tuples", "nums", "mixed"]))
    if kind == "mixed":
        pool = S.DRUMS[:3] + S.SUBSTR[:3] + S.TUPLES + S.NUMS
        kind = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=5, unique=True))
    pp = draw(st.sampled_from([st.sampled_from([60, 61, 36]), st.sampled_from([60, 188, -68, 12, 0, 128]), S.pitches]))
    p = draw(S.pattern(kind, 0, 9, meta=draw(st.booleans()), pitch=pp))
    own = [e[4] for e in p["ev"]] or ["Kick"]
    inner = [x for t in own if isinstance(t, tuple) for x in t] or ["C"]
    anytag = st.one_of(st.sampled_from(own), st.sampled_from(own), st.sampled_from(inner), st.sampled_from(EXTRA))
    q = draw(st.one_of(
        st.tuples(st.just("tag"), anytag), st.tuples(st.just("tag"), anytag),
        st.tuples(st.just("list"), st.lists(anytag, max_size=4)),
        st.tuples(st.just("pred"), st.tuples(st.sampled_from(["is", "not", "istuple", "all", "none"]), anytag)),
        st.tuples(st.just("pitch"), st.one_of(st.sampled_from([e[2] for e in p["ev"]] or [60]), S.pitches))))
    exact = draw(st.sampled_from([True, False, None]))
    if q[0] == "list" and exact:
        exact = None
    return {"p": p, "q": list(q), "exact": exact, "copy": draw(st.sampled_from([True, False, None]))}


def matches(c, e, default=True):
    """by default the search for what has a tag is exact and the search for what has not is not"""
    kind, arg = c["q"]
    exact = default if c["exact"] is None else c["exact"]
    t = e[4]
    if kind == "pitch":
        return e[2] == arg
    if kind == "list":
        return any(same(t, x) for x in arg)
    if kind == "pred":
        k, a = arg
        return {"is": same(t, a), "not": not same(t, a), "istuple": isinstance(t, tuple), "all": True, "none": False}[k]
    return same(t, arg) or (not exact and isinstance(t, tuple) and any(same(arg, x) for x in t))


def same(a, b):
    return a == b


def check(c, o):
    evs = c["p"]["ev"]
    want = [i for i, e in enumerate(evs) if matches(c, e)]
    rest = [i for i, e in enumerate(evs) if not matches(c, e, False)]
    exp = expect_fields(c["p"])
    for name, idx in (("with", want), ("without", rest)):
        if name not in o:
            continue
        got = o[name]["ev"]
        require(got == [evs[i] for i in idx], "%s %s: got %s, want %s", name, c["q"], got, [evs[i] for i in idx])
        fields_equal(o[name], exp, ["dur"] + list(DEFAULTS), name)
        require(o[name + "_idx"] == (idx if c["copy"] is False else [None] * len(idx)),
                "%s: identity of the events (copy=%s): %s", name, c["copy"], o[name + "_idx"])
    require(o["after"] == o["before"] and all(o["order_kept"]), "the pattern was changed by filtering it")
    for name, vals in (("tags", [e[4] for e in evs]), ("pitches", [e[2] for e in evs])):
        got = o[name]
        require(len(got) == len(set(got)) and set(got) == set(vals), "%s: got %s, want %s", name, got, set(vals))


FACETS = [
    Facet("filter", case(), "filter", check,
          lambda c, o: 0 < sum(matches(c, e) for e in c["p"]["ev"]) < len(c["p"]["ev"]), 14000,
          rule="some events match and some do not"),
]

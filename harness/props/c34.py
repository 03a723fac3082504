"""Histories over the whole library, drawn from the cases of the other properties."""
import importlib
from hypothesis import strategies as st
from engine import Facet, require

ID = "C34"
PROBES = "mem"
QUICK_S = 150
FROM = {"c03": ["import"], "c04": ["maps", "selection", "track-names", "collection"], "c05": ["round-trip"], "c06": ["json"],
        "c07": ["derive"], "c08": ["slice"], "c09": ["split"], "c10": ["fill"], "c11": ["overlap"], "c12": ["align"],
        "c13": ["binary-grid"], "c14": ["legato"], "c15": ["filter"], "c16": ["durations"], "c17": ["removal", "equality"],
        "c18": ["transpose", "stretch"], "c19": ["queries", "grid"], "c20": ["viewpoint"], "c21": ["measures", "drum-space"],
        "c22": ["syncopation"], "c23": ["best-score", "complete-chords"], "c24": ["table"], "c25": ["follow"],
        "c26": ["markov", "database"], "c27": ["settings"], "c28": ["slices"], "c29": ["dataset"],
        "c32": ["pitch-names", "spelling", "chords", "matching"]}
WRONG = ["nofile", "truncated", "truncated", "garbage", "badmap", "badtrack", "export", "badtag", "alt", "chord", "unbuilt", "json",
         "viewpoint", "density", "descriptor", "split"]


def seeded(c):
    """without a seed a style seeds itself anew: no two calls are alike"""
    if isinstance(c, dict) and "seeds" in c:
        c = dict(c, seeds=[i if x is None else x for i, x in enumerate(c["seeds"])])
    return c


def sources():
    out = []
    for m, names in sorted(FROM.items()):
        mod = importlib.import_module("props." + m)
        for f in mod.FACETS:
            if f.name in names:
                out.append(st.tuples(st.just(mod.PROBES), st.just(f.op), f.strategy.map(seeded)).map(list))
    assert len(out) == sum(len(v) for v in FROM.values())
    return out


CALL = st.one_of(*sources())
OP = st.one_of(CALL, CALL, CALL, st.tuples(st.just("wrong"), st.sampled_from(WRONG), st.integers(0, 99)).map(list),
               st.tuples(st.just("log"), st.sampled_from([0, 10, 20, 30]), st.booleans()).map(list))
CASE = st.fixed_dictionaries({"pins": st.lists(CALL, min_size=1, max_size=3), "ops": st.lists(OP, min_size=2, max_size=6)})

TWIST = st.tuples(st.just("twist"), st.integers(0, 1), st.integers(0, 9999), st.sampled_from([1, 1, 2, 12, 0.5])).map(list)


def alike(calls):
    """calls of one kind: the same call again, with a part altered, and others"""
    cross = st.tuples(st.just("cross"), st.integers(0, 1), calls, st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({"pins": st.lists(calls, min_size=1, max_size=2),
                                  "ops": st.lists(st.one_of(TWIST, TWIST, cross, cross, calls, CALL), min_size=2, max_size=8)})


FRESH = st.one_of(*[alike(s) for s in sources()])


def check_fresh(c, o):
    for x in o["pins"]:
        if x is not None:
            require(False, "%s.%s gave ...%s... as the first call and, after other calls, ...%s...", *x)


def check(c, o):
    for x in o["pins"]:
        if x is not None:
            require(False, "%s.%s gave ...%s... and later, for the same arguments, ...%s...", *x)
    for k, a, b in o["battery"]:
        require(False, "%s: at first ...%s... and after these calls ...%s...", k, a, b)


FACETS = [Facet("history", CASE, "history", check, lambda c, o: o["ok"], 1500, 14000,
                rule="two calls or more in between, and some repeated call that succeeds"),
          Facet("fresh", FRESH, "fresh", check_fresh, lambda c, o: o["ok"], 600, 5000,
                rule="a call that succeeds")]

from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import expect_fields, DEFAULTS

ID = "C07"
PROBES = "pat"
HOWS = ["copy", "noevents", "pickle", "slice", "split", "with", "without", "pitch", "silences"]


@st.composite
def case(draw):
    tags = draw(S.tagset("any"))
    p = draw(S.pattern(tags, 0, 7, meta=True, big=False))
    if draw(st.integers(0, 2)) == 0:
        p["vp"] = {k: draw(S.pattern(tags, 0, 3, meta=True, big=False))
                   for k in draw(st.lists(st.sampled_from(["chords", "density"]), min_size=1, unique=True))}
    if p["ev"] and draw(st.integers(0, 2)) == 0:
        p["eo"] = {str(k): draw(S.pattern(tags, 0, 3, meta=True, big=False))
                   for k in draw(st.lists(st.integers(0, len(p["ev"]) - 1), min_size=1, max_size=2, unique=True))}
    p["tslist"] = draw(st.booleans())
    d = {"suffix": draw(st.sampled_from([None, "_s"])), "s": draw(S.times(8)), "l": draw(st.sampled_from([4, 2, 16, 1, 3])),
         "trim": draw(st.booleans()), "tag": draw(st.sampled_from(tags)),
         "pitch": draw(st.sampled_from([e[2] for e in p["ev"]] or [60]))}
    return {"p": p, "how": draw(st.sampled_from(HOWS)), "d": d}


def full(p):
    d = expect_fields(p)
    d["ev"] = [list(e) for e in p["ev"]]
    return d


def check(c, o):
    how = c["how"]
    exp = full(c["p"])
    for k, v in exp.items():
        require(o["before"][k] == v, "constructor: field %s is %r, want %r", k, o["before"][k], v)
    b = o["before"]
    require(o["kept"] == b, "%s changed the pattern it was called on: %s, was %s", how, o["kept"], b)
    require(o["after_spoiling_derived"] == b, "changing the result of %s changed the original: %s, was %s", how,
            o["after_spoiling_derived"], b)
    require(o["derived_after_spoiling_original"], "changing the original changed the result of %s", how)
    if how in ("copy", "pickle"):
        require(o["eq"] == [True], "%s is not equal to the original", how)
        require(o["derived"] == [b], "%s: %s, want %s", how, o["derived"], b)
    if how == "noevents":
        g = o["derived"][0]
        require(g["ev"] == [], "copy without events has events")
        for k in ["dur"] + list(DEFAULTS):
            require(g[k] == b[k], "copy without events: field %s is %r, want %r", k, g[k], b[k])
    require(o["ecopies"] == exp["ev"] and o["ekept"] == b, "copied events: %s, %s, want %s", o["ecopies"],
            o["ekept"], exp["ev"])
    for x in o["fresh"]:
        require(x["ev"] == [] and x["vp"] == {} and x["dur"] == 0, "a new pattern is not empty: %s", x)
        require(all(x[k] == v for k, v in DEFAULTS.items()), "a new pattern has %s, want %s", x, DEFAULTS)
    require(o["freshev"] == [0, 1, 60, 80, ()], "a new event is %s", o["freshev"])


data = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10, 10 ** 12), st.floats(allow_nan=False), st.sampled_from(["", "a", "caf\u00e9", "x\ny"])),
                    lambda x: st.one_of(st.lists(x, max_size=3), st.tuples(x, x), st.dictionaries(st.sampled_from(["k", "l", 3]), x, max_size=3)), max_leaves=8)


@st.composite
def saves(draw):
    tags = draw(S.tagset("any"))

    @st.composite
    def pattern(draw):
        p = draw(S.pattern(tags, 0, 4, meta=True, big=False))
        if draw(st.integers(0, 2)) == 0:
            p["vp"] = {"v": draw(S.pattern(tags, 0, 3, meta=True, big=False))}
        return p
    one = st.tuples(st.sampled_from(["a", "b", "a b", "x.y"]), st.sampled_from(["", "new", "new/deep"]), st.one_of(pattern(), data))
    return {"saves": [list(x) for x in draw(st.lists(one, min_size=1, max_size=5))]}


def check_saves(c, o):
    final = {}
    for i, ((name, sub, what), (want, got), path) in enumerate(zip(c["saves"], o["back"], o["paths"])):
        require(path == (sub + "/" if sub else "") + name + ".pickle", "file %s", path)
        require(got == want, "save %d: %s read back as %s", i, want, got)
        final[path] = want
    require(o["files"] == sorted(final), "files %s, want %s", o["files"], sorted(final))
    require(o["last"] == [final[p] for p in o["paths"]], "read again: %s", o["last"])


FACETS = [
    Facet("derive", case(), "derive", check, lambda c, o: len(c["p"]["ev"]) > 0 and any(x["ev"] or c["how"] == "noevents" for x in o["derived"]), 12000,
          rule="the pattern has events and so has what was derived (or it is the copy without events)"),
    Facet("saves", saves(), "pickle", check_saves, lambda c, o: len(c["saves"]) > 1, 2000, rule="several files"),
]

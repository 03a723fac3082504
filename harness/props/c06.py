from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import eq_ms, close

ID = "C06"
PROBES = "pat"
NESTED = [(("C", "maj"), ("A", "min")), ("x", ("y", ("z",))), (1, "b"), ("a", None), ((),)]


@st.composite
def tree(draw, depth, tags, messy):
    t = d = None
    if messy:
        t = st.floats(0, 64, allow_nan=False)
        d = st.floats(0.001, 9)
    p = draw(S.pattern(tags, 0, 6, t=t, d=d, meta=True, big=depth == 2, fit=draw(st.booleans())))
    p.pop("path")
    p["res"] = 960
    if depth and draw(st.integers(0, 3)) == 0:
        p["vp"] = {k: draw(tree(depth - 1, tags, messy))
                   for k in draw(st.lists(st.sampled_from(["chords", "density", "v 3"]), min_size=1, max_size=2, unique=True))}
        for q in p["vp"].values():
            for w in q.get("vp", {}).values():
                if draw(st.booleans()):
                    w["up"] = True
    return p


@st.composite
def case(draw):
    kw = {}
    if draw(st.booleans()):
        kw["useTagIndexing"] = draw(st.booleans())
    if draw(st.booleans()):
        kw["conserveTuple"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        kw["nameSuffix"] = draw(st.sampled_from(["_x", "-2", ""]))
    kind = draw(st.sampled_from(["drums", "substr", "tuples", "nums", "mixed", "nested"]))
    if kind == "nested" and not kw.get("conserveTuple"):
        kind = "mixed"
    if kind == "mixed":
        pool = S.DRUMS[:2] + S.TUPLES + [1, 36, None, u"caf\u00e9", 'quo"te', ("one",)]
        tags = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=5, unique=True))
    elif kind == "nested":
        tags = draw(st.lists(st.sampled_from(NESTED + ["Kick"]), min_size=1, max_size=4, unique=True))
    else:
        tags = draw(S.tagset(kind))
    p = draw(tree(2, tags, draw(st.integers(0, 3)) == 0))
    c = {"p": p, "kw": kw}
    if p.get("vp") and draw(st.integers(0, 3)) == 0:
        c["alone"] = sorted(p["vp"])[0]     # a viewpoint saved by itself
    c["dir"] = draw(st.sampled_from(["", "", "new", "new/deep", "new/"]))
    if draw(st.integers(0, 3)) == 0:
        c["over"] = draw(tree(1, tags, False))
    return c


def same(got, p, what, above=None):
    for k in ("name", "bpm", "key"):
        require(got[k] == p[k], "%s: %s is %r, want %r", what, k, got[k], p[k])
    require(tuple(got["ts"]) == tuple(p["ts"]), "%s: time signature %s, want %s", what, got["ts"], p["ts"])
    require(got["start"] == p["start"], "%s: start %s, want %s", what, got["start"], p["start"])
    eq_ms(got["ev"], p["ev"], what)
    # saving enlarges the duration to the events
    want = max([p["dur"]] + [e[0] + e[1] for e in p["ev"]])
    require(got["dur"] == want, "%s: duration %s, want %s", what, got["dur"], want)
    require(set(got["vp"]) == set(p.get("vp", {})), "%s: viewpoints %s", what, set(got["vp"]))
    for k, v in p.get("vp", {}).items():
        same(got["vp"][k], v, "%s/%s" % (what, k), p)
        up = above["name"] if v.get("up") and above else p["name"]
        require(got["vp"][k]["origin"] == up or (v.get("up") and not above), "%s/%s: origin %s, want %s", what, k, got["vp"][k]["origin"], up)


def check(c, o):
    if c.get("alone"):
        c = dict(c, p=c["p"]["vp"][c["alone"]])
    same(o["loaded"], c["p"], "loaded")
    same(o["reloaded"], c["p"], "saved and loaded twice")
    same(o["dict"], c["p"], "from the dictionary")
    require(o["indir"], "the file is in another folder")
    require(o["eq"], "loaded pattern is not equal to the saved one")
    a = dict(o["after"])
    eq_ms(a["ev"], o["before"]["ev"], "events of the saved pattern")
    require(o["name"] == c["p"]["name"] + c["kw"].get("nameSuffix", "") + ".json", "file name %s", o["name"])


FACETS = [
    Facet("json", case(), "json", check, lambda c, o: len(c["p"]["ev"]) > 0, 6000, rule="the pattern has events"),
]

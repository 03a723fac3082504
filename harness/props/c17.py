from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import eq_ms

ID = "C17"
PROBES = "pat"


@st.composite
def base(draw):
    kind = draw(st.sampled_from(["drums", "substr", "tuples", "nums", "mixed"]))
    if kind == "mixed":
        kind = draw(st.lists(st.sampled_from(S.DRUMS[:3] + S.SUBSTR[:3] + S.TUPLES + S.NUMS),
                             min_size=1, max_size=5, unique=True))
    else:
        kind = draw(S.tagset(kind))
    # few values, so that equal events are common
    small = draw(st.booleans())
    t = st.sampled_from([0, 1, 2.5]) if small else None
    d = st.sampled_from([1, 0.5]) if small else None
    pp = st.sampled_from([60, 61]) if small else None
    p = draw(S.pattern(kind, 0, 10, t=t, d=d, pitch=pp))
    if small:
        for e in p["ev"]:
            e[3] = 80 if e[3] % 3 else 81
    if p["ev"] and draw(st.booleans()):
        for i in draw(st.lists(st.integers(0, len(p["ev"]) - 1), max_size=3)):
            p["ev"].insert(draw(st.integers(0, len(p["ev"]))), list(p["ev"][i]))
    return draw(S.beside(p)), kind


@st.composite
def removal(draw):
    p, tags = draw(base())
    how = draw(st.sampled_from(["event", "own", "tags"]))
    if how == "own" and p["ev"]:
        arg = draw(st.integers(0, len(p["ev"]) - 1))
    elif how == "tags":
        inner = [x for t in tags if isinstance(t, tuple) for x in t]
        arg = draw(st.lists(st.sampled_from(list(tags) + inner + ["absent", "Kick"]), max_size=3))
    else:
        how = "event"
        arg = draw(S.event(tags))
        if p["ev"]:
            arg = list(draw(st.sampled_from(p["ev"])))
            if draw(st.integers(0, 2)) == 0:
                i = draw(st.integers(0, 3))
                arg[i] += draw(st.sampled_from([1, 1, 2.0 ** -12, 2.0 ** -20])) if i < 2 else 1
    return {"p": p, "how": how, "arg": arg}


def carries(tag, t):
    return tag == t or (isinstance(tag, tuple) and t in tag)


def check_removal(c, o):
    evs = c["p"]["ev"]
    if c["how"] == "tags":
        want = [e for e in evs if not any(carries(e[4], t) for t in c["arg"])]
    else:
        x = evs[c["arg"]] if c["how"] == "own" else c["arg"]
        want = [e for e in evs if e != x]
    require(o["ev"] == want, "after removing %s %s from %s: got %s, want %s", c["how"], c["arg"], evs, o["ev"], want)
    require(o["dur"] == c["p"]["dur"], "duration changed")


@st.composite
def ident(draw):
    p, tags = draw(base())
    inner = [x for t in tags if isinstance(t, tuple) for x in t]
    return {"p": p, "own": draw(st.integers(0, len(p["ev"]) - 1)) if p["ev"] and draw(st.booleans()) else None,
            "e": draw(S.event(list(tags) + ["C", "Kick", ("C", "maj", "Kick")])),
            "kw": draw(st.sampled_from([{}, {"allTagsMustBeEquals": True}, {"allTagsMustBeEquals": False}])),
            "tags": draw(st.lists(st.sampled_from(list(tags) + inner + ["absent"]), min_size=1, max_size=3))}


def common(a, b):
    """at least one tag of a is carried by b"""
    parts = list(a) if isinstance(a, tuple) else [a]
    return any(carries(b, t) for t in parts)


def check_ident(c, o):
    evs = c["p"]["ev"]
    e = evs[c["own"]] if c["own"] is not None else c["e"]
    alleq = c["kw"].get("allTagsMustBeEquals", True)
    for i, x in enumerate(evs):
        eq, cm = x[4] == e[4], common(e[4], x[4])
        require(o["alleq"][i] == eq, "tags of %s and %s equal: %s", e, x, o["alleq"][i])
        require(o["istag"][i] == (x[4] == c["tags"][0]), "isTag(%s) of %s: %s", c["tags"][0], x, o["istag"][i])
        if e[4] == x[4] and not cm:
            continue      # two events without any tag: have they one in common?
        require(o["common"][i] == cm, "common tag of %s and %s: %s", e, x, o["common"][i])
        w = any(carries(x[4], t) for t in c["tags"])
        require(o["oneof"][i] == w, "one of %s in %s: %s", c["tags"], x, o["oneof"][i])
        require((i in o["idx"]) == (eq if alleq else cm), "identical to %s (all tags %s): %s is %s", e, alleq, x,
                "returned" if i in o["idx"] else "not returned")
    require(o["idx"] == sorted(set(o["idx"])) and o["n"] == len(evs), "order or duplicates in %s", o["idx"])


@st.composite
def equality(draw):
    p, tags = draw(base())
    a = draw(S.event(tags))
    b = list(a)
    if draw(st.booleans()):
        i = draw(st.integers(0, 4))
        b[i] = (b[i] + draw(st.sampled_from([1, -1, 0.5, 2.0 ** -12, 2.0 ** -20]))) if i < 4 else draw(st.sampled_from(list(tags) + ["other"]))
    q = {k: v for k, v in p.items()}
    q["ev"] = [list(e) for e in p["ev"]]
    for k, v in (("start", 0), ("ts", (4, 4)), ("bpm", 120)):
        p[k] = q[k] = draw(S.META[k])
    what = draw(st.sampled_from(["same", "same", "dur", "ts", "start", "event", "drop", "add"]))
    if what == "dur":
        q["dur"] += draw(st.sampled_from([1, 0.25, 2.0 ** -12]))
    elif what in ("ts", "start"):
        q[what] = draw(S.META[what])
    elif what == "event" and q["ev"]:
        e = draw(st.sampled_from(q["ev"]))
        i = draw(st.integers(0, 4))
        e[i] = (e[i] + 1) if i < 4 else "other"
    elif what == "drop" and q["ev"]:
        del q["ev"][draw(st.integers(0, len(q["ev"]) - 1))]
    elif what == "add":
        q["ev"].append(draw(S.event(tags)))
    return {"a": a, "b": b, "p": p, "q": q}


def check_equality(c, o):
    e = c["a"] == c["b"]
    require(o["eeq"] == e and o["esym"] == e and o["ene"] == (not e), "%s vs %s: == %s, reversed %s, != %s",
            c["a"], c["b"], o["eeq"], o["esym"], o["ene"])
    require(not o["eother"] and o["enother"] and not o["pother"] and o["pnother"], "equal to something else: %s", o)
    w = all(c["p"][k] == c["q"][k] for k in ("ev", "dur", "start")) and tuple(c["p"]["ts"]) == tuple(c["q"]["ts"])
    require(o["peq"] == w and o["psym"] == w and o["pne"] == (not w), "%s vs %s: == %s, reversed %s, != %s",
            c["p"], c["q"], o["peq"], o["psym"], o["pne"])


FACETS = [
    Facet("removal", removal(), "remove", check_removal, lambda c, o: 0 < len(o["ev"]) < len(c["p"]["ev"]), 9000,
          rule="some events removed, some kept"),
    Facet("identical", ident(), "identical", check_ident, lambda c, o: 0 < len(o["idx"]) < o["n"], 7000,
          rule="some events found, some not"),
    Facet("equality", equality(), "equality", check_equality, lambda c, o: len(c["p"]["ev"]) > 0, 5000,
          rule="patterns with events"),
]

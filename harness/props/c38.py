"""The same calls under Python 2.7 and Python 3, and files handed from one to the other."""
import importlib
import markov as K
import strat as S
from hypothesis import strategies as st
from engine import Facet, require
from props import c05, c06

ID = "C38"
PROBES = "both"
RUNTIME = "pair"
SHARDS = 6
# the calls whose result is determined: no random choice, no choice among equally good results
FROM = {"c03": ["import"], "c04": ["maps", "selection", "track-names", "collection"], "c05": ["round-trip"], "c06": ["json"],
        "c07": ["derive"], "c08": ["slice"], "c09": ["split"], "c10": ["fill"], "c11": ["overlap"], "c12": ["align"],
        "c13": ["binary-grid"], "c14": ["legato"], "c15": ["filter"], "c16": ["durations"], "c17": ["removal", "equality"],
        "c18": ["transpose", "stretch"], "c19": ["queries", "grid"], "c20": ["viewpoint"], "c21": ["measures", "drum-space"],
        "c22": ["syncopation"], "c24": ["table"], "c28": ["slices"], "c29": ["dataset"],
        "c32": ["pitch-names", "spelling", "chords", "matching"], "c01": ["write"], "c02": ["read"]}


def near(a, b, where=""):
    """None, or where the two differ; floats may differ in the last places"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return None if a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) else "%s: %r, %r" % (where, a, b)
    if type(a) is not type(b):
        return "%s: %r, %r" % (where, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys %s, %s" % (where, sorted(map(repr, set(a) - set(b))), sorted(map(repr, set(b) - set(a))))
        for k in a:
            r = near(a[k], b[k], "%s/%s" % (where, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d, %d of them: %r, %r" % (where, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = near(x, y, "%s/%d" % (where, i))
            if r:
                return r
        return None
    return None if a == b else "%s: %r, %r" % (where, a, b)


def settled(v):
    """the order of events at one time, of the tags of a note, of listed tags and states is nobody's promise"""
    if isinstance(v, dict):
        return {k: sorted(map(repr, x)) if k in ("tags", "pitches") and isinstance(x, list) else
                sorted(x.split("\n")) if k == "text" and isinstance(x, str) else settled(x)
                for k, x in v.items() if k not in FREE}
    if isinstance(v, (list, tuple)):
        w = [settled(x) for x in v]
        if all(isinstance(x, str) for x in w) or all(isinstance(x, tuple) for x in w) or \
                all(isinstance(x, list) and len(x) == 5 for x in w):
            w = sorted(w, key=repr)
        return type(v)(w)
    return v


# the matrices of C24 follow the listed states; bytes follow the order of events at one time
FREE = {"q", "all", "acc", "bytes", "bytes2"}


def agree(name):
    def check(c, o):
        a, b = map(settled, o)
        require(("ok" in a) == ("ok" in b), "%s.%s: under Python 2 %s, under Python 3 %s", name, c[1], str(a)[:300], str(b)[:300])
        if "ok" in a:
            d = near(a["ok"], b["ok"])
            require(d is None, "%s.%s differs between Python 2 and 3 at %s", name, c[1], str(d)[:1500])
    return check


def settling_ticks(p):
    """no time half-way between two ticks: either is the nearest"""
    r = p.get("res") or 960
    return all(abs(t * r % 1 - 0.5) > 1e-6 for e in p["ev"] for t in (e[0], e[0] + e[1], p["dur"]) if abs(t) < 1e9)


def settling(c):
    """not a chord's name: several may fit equally well"""
    if isinstance(c.get("p"), dict) and "ev" in c["p"] and not settling_ticks(c["p"]):
        return False
    if "d" in c and c["d"] is None:
        return False
    return "chord" not in str(c.get("d")) and "chord" not in str(c.get("vp"))


def sources():
    out = []
    for m, names in sorted(FROM.items()):
        mod = importlib.import_module("props." + m)
        for f in mod.FACETS:
            if f.name in names:
                s = st.tuples(st.just(mod.PROBES), st.just(f.op), f.strategy.filter(settling)).map(list)
                out.append((m.upper() + " " + f.name, s))
    return out


@st.composite
def exchange(draw):
    kind = draw(st.sampled_from(["json", "midi", "markov", "database"]))
    c = {"kind": kind}
    if kind == "json":
        c["p"] = draw(c06.case())["p"]
        c["tagidx"] = draw(st.booleans())
    elif kind == "midi":
        c["p"] = draw(c05.case().filter(lambda c: c["map"] is None and settling_ticks(c["p"])))["p"]
    elif kind == "markov":
        c["loop"], c["n"] = draw(st.sampled_from(K.LOOPS))
        c["order"] = draw(st.integers(0, min(5, c["n"])))
        c["pats"] = draw(K.corpus(c["loop"], c["n"], npat=3))
        c["built"] = draw(st.integers(0, 5)) > 0
    else:
        c["ord"] = draw(st.sampled_from(["indexed", "increasing"]))
        c["pats"] = draw(st.lists(S.pattern("strtup", 0, 5, meta=True, big=False), max_size=4))
    return c


def check_exchange(c, o):
    names = ["written and read under 2", "written under 2, read under 3", "written under 3, read under 2", "written and read under 3"]
    for n, x in zip(names[1:], o[1:]):
        d = near(settled(o[0]), settled(x))
        require(d is None, "%s file: %s and %s differ at %s", c["kind"], names[0], n, str(d)[:1500])


def worth(c, o):
    return "ok" in o[0]


FACETS = [Facet(n.replace(" ", "-"), s, "call", agree(n), worth, 120, 1500, rule="a call that succeeds") for n, s in sources()]
FACETS += [Facet("exchange", exchange(), "exchange", check_exchange,
                 lambda c, o: bool(c["pats"] if "pats" in c else c["p"]["ev"]), 800, 8000,
                 rule="an object that is not empty")]

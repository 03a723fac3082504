from hypothesis import strategies as st
import strat as S
from engine import Facet, require

ID = "C21"
PROBES = "desc"
DRUM = ["Kick", "low Congas", "snare", "rimshot", "hiconga", "closed hihat", "shaker", "clave", "silence", "Cymbal", "Snare", "Kick 2"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["drums", "substr", "tuples", "nums", "mixed", "mixed"]))
    if kind == "mixed":
        pool = S.DRUMS[:3] + S.SUBSTR[:3] + S.TUPLES + S.NUMS + ["36", "1", "0"] + ["silence", "silence", ("silence", "x")]
        tags = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=6, unique=True))
    else:
        tags = draw(S.tagset(kind)) + ["silence"]
    ps = draw(st.lists(S.pattern(tags, 0, 8, meta=True, fit=draw(st.booleans())), min_size=1, max_size=3))
    some = st.lists(st.sampled_from(list(tags) + ["absent"]), min_size=1, max_size=3, unique=True)
    kw = {}
    if draw(st.booleans()):
        kw["includedTags"] = draw(some)
    if draw(st.booleans()):
        kw["ignoredTags"] = draw(some)
    # what a descriptor says of a pattern and of its two halves, permuted or stretched
    p = ps[0]
    cut = draw(st.integers(0, len(p["ev"])))
    perm = draw(st.permutations(p["ev"]))
    r = draw(st.sampled_from([2, 0.5, 4]))
    ps += [dict(p, ev=perm[:cut]), dict(p, ev=perm[cut:]), dict(p, ev=perm),
           dict(p, dur=p["dur"] * r, ev=[[e[0] * r, e[1] * r] + e[2:] for e in p["ev"]])]
    return {"d": [draw(st.sampled_from(["density", "density", "tags"])), kw], "ps": ps, "r": r}


def counted(evs, kw):
    ign = kw.get("ignoredTags") or ["silence"]
    inc = kw.get("includedTags")
    return [e for e in evs if e[4] not in ign and (not inc or e[4] in inc)]


def check(c, o):
    kind, kw = c["d"]
    for i, p in enumerate(c["ps"]):
        evs = counted(p["ev"], kw)
        want = sum(e[1] for e in evs) if kind == "density" else len({e[4] for e in evs})
        require(o["one"][i] == want and o["fresh"][i] == want, "%s(%s) of %s: %s, by a fresh descriptor %s, want %s",
                kind, kw, p["ev"], o["one"][i], o["fresh"][i], want)
    require(all(o["kept"]), "the pattern was changed by measuring it")
    a, b, whole, st_ = o["one"][-4:]
    require(whole == o["one"][0], "%s depends on the order of events", kind)
    if kind == "density":
        require(a + b == whole and st_ == whole * c["r"], "density of parts %s + %s, of the whole %s, stretched by %s: %s", a, b, whole, c["r"], st_)


@st.composite
def dcase(draw):
    tags = draw(st.lists(st.sampled_from(DRUM), min_size=1, max_size=8, unique=True))
    return {"ps": draw(st.lists(S.pattern(tags, 0, 10, fit=draw(st.booleans())), min_size=1, max_size=3))}


GROUPS = {"loD": ["Kick", "low Congas"], "midD": ["snare", "rimshot", "hiconga"], "hiD": ["closed hihat", "shaker", "clave"]}


def dcheck(c, o):
    for p, v in zip(c["ps"], o["vals"]):
        want = {k: sum(e[1] for e in p["ev"] if e[4] in g) for k, g in GROUPS.items()}
        want["numberOfInstruments"] = len({e[4] for e in p["ev"]} - {"silence"})
        require(v == want, "drum space of %s: %s, want %s", p["ev"], v, want)
    require(all(o["kept"]), "the pattern was changed by measuring it")


FACETS = [
    Facet("measures", case(), "value", check, lambda c, o: 0 < len(counted(c["ps"][0]["ev"], c["d"][1])) < len(c["ps"][0]["ev"]), 9000,
          rule="some events count and some do not"),
    Facet("drum-space", dcase(), "drumspace", dcheck, lambda c, o: sum(1 for v in o["vals"][0].values() if v) > 1, 3000,
          rule="at least two non-zero measures"),
]

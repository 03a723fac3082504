import random
from hypothesis import strategies as st
import markov as K
from engine import Facet, require

ID = "C25"
PROBES = "sty"


@st.composite
def case(draw):
    loop, n = draw(st.sampled_from(K.LOOPS))
    c = {"loop": loop, "n": n, "order": draw(st.one_of(st.integers(0, min(4, n)), st.integers(0, min(4, n)), st.integers(0, n))), "bare": draw(st.booleans())}
    c["pats"] = draw(K.corpus(loop, n, silence=draw(st.booleans())))
    if draw(st.integers(0, 3)) == 0:
        c["pats"] = [dict(p, dur=p["dur"] * draw(st.sampled_from([1, 1, 2, 0.5]))) for p in c["pats"]]
    c["seeds"] = draw(st.lists(st.one_of(st.integers(0, 2 ** 40), st.none()), min_size=1, max_size=6))
    return c


def check(c, o):
    require(o["same"], "generating changed the transition table")
    tab = K.canon(o["table"])
    for x, g in zip(c["seeds"], o["gen"]):
        why = K.follows(tab, c["order"], c["n"], K.gen_states(g, c["n"], c["loop"]))
        require(why is None, "seed %s: %s", x, why)
    seeded = [g for x, g in zip(c["seeds"], o["gen"]) if x is not None]
    require(seeded == o["again"], "the same seeds gave other patterns: %s, then %s", seeded, o["again"])
    for x, g, h in zip(c["seeds"], o["gen"], o["other"]):
        if x is not None:
            require(g == h, "seed %s gave another pattern in a style learned from the same patterns: %s, then %s", x, g, h)


@st.composite
def freq(draw):
    loop, n = draw(st.sampled_from(K.SMALL))
    order = draw(st.integers(0, min(2, n - 1)))
    pats = draw(K.corpus(loop, n, npat=5, silence=False))
    if len(pats) == 1 or draw(st.booleans()):
        pats = pats + [{"dur": loop, "ev": [[0, loop / n, 60, 100, "Zap"]]}]
    return {"loop": loop, "n": n, "order": order, "pats": pats, "bare": True, "seed": draw(st.integers(0, 2 ** 30)),
            "seeds": []}


N = 500


def withseeds(c):
    r = random.Random(c["seed"])
    return dict(c, seeds=[r.getrandbits(47) for _ in range(N)])


def freqcheck(c, o):
    """no state is both silent and not: an empty step is the silence"""
    n, order = c["n"], c["order"]
    tab = K.canon(o["table"])
    sil = frozenset(["silence"])
    gen = [[frozenset(s) or sil for s in r] for r in o["rows"]]
    seen = [{} for _ in range(n)]
    for g in gen:
        for i in range(order, n):
            row = seen[i].setdefault(tuple(g[i - order:i]), {})
            row[g[i]] = row.get(g[i], 0) + 1
    for past in tab[order]:
        require(past in seen[order], "the learned start %s is never generated by %d seeds", [sorted(map(str, x)) for x in past], N)
    for i in range(order, n):
        for past, row in seen[i].items():
            require(past in tab[i], "step %d: generated the past %s, not in the table", i, past)
            m = sum(row.values())
            for s, p in tab[i][past].items():
                f = row.get(s, 0) / m
                tol = 6 * (p * (1 - p) / m) ** 0.5 + 6.0 / m
                require(abs(f - p) <= tol, "step %d after %s: %s drawn %d times of %d, its probability is %.3f", i,
                        [sorted(map(str, x)) for x in past], sorted(map(str, s)), row.get(s, 0), m, p)
            require(set(row) <= set(tab[i][past]), "step %d: a state never observed", i)


FACETS = [
    Facet("follow", case(), "generate", check, lambda c, o: any(len(r) > 1 for t in o["table"] for r in t.values()), 3200,
          rule="some past has more than one continuation"),
    Facet("frequencies", freq().map(withseeds), "frequencies", freqcheck,
          lambda c, o: any(len(r) > 1 for t in o["table"][c["order"]:] for r in t.values()), 240, 3000,
          rule="some past on a generated step has more than one continuation"),
]

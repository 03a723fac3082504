from hypothesis import strategies as st
import markov as K
import strat as S
from engine import Facet, require

ID = "C26"
PROBES = "sty"

hows = st.lists(st.sampled_from(["state", "json", "pickle"]), min_size=1, max_size=3)


@st.composite
def case(draw):
    loop, n = draw(st.sampled_from(K.LOOPS))
    loop2, n2 = draw(st.sampled_from(K.LOOPS))
    c = {"loop": loop, "n": n, "order": draw(st.one_of(st.integers(0, min(3, n)), st.integers(0, min(3, n)), st.integers(0, n))), "loop2": loop2, "n2": n2,
         "order2": draw(st.integers(0, min(3, n2)))}
    c["pats"] = draw(K.corpus(loop, n, npat=3))
    c["other"] = draw(K.corpus(loop2, n2, npat=2))
    c["built"] = draw(st.integers(0, 5)) > 0
    c["dirty"] = draw(st.booleans())
    c["hows"] = draw(hows)
    c["seeds"] = draw(st.lists(st.integers(0, 2 ** 40), min_size=1, max_size=3))
    return c


def check(c, o):
    a, b = o["a"], o["b"]
    for k in ("order", "n", "loop"):
        require(a[k] == b[k], "%s: restored %s is %r, saved %r", c["hows"], k, b[k], a[k])
    require(o["abuilt"] == o["bbuilt"] == c["built"], "built status: saved %s, restored %s, learned %s", o["abuilt"], o["bbuilt"], c["built"])
    if not c["built"]:
        require(not b["table"], "restored an unbuilt style with a table")
        return
    require(len(a["table"]) == len(b["table"]), "restored %d steps, saved %d", len(b["table"]), len(a["table"]))
    for i, (x, y) in enumerate(zip(a["table"], b["table"])):
        require(set(x) == set(y), "step %d: restored pasts %s, saved %s", i, list(y), list(x))
        for k in x:
            require(set(x[k]) == set(y[k]) and all(abs(x[k][s] - y[k][s]) < 1e-12 for s in x[k]),
                    "step %d after %s: restored %s, saved %s", i, k, y[k], x[k])
    tab = K.canon(a["table"])
    for g in o["gen"]:
        why = K.follows(tab, a["order"], a["n"], K.gen_states(g, a["n"], a["loop"]))
        require(why is None, "restored style: %s", why)


@st.composite
def dbcase(draw):
    pats = draw(st.lists(S.pattern("strtup", 0, 5, meta=True, big=False), max_size=4))
    for i, p in enumerate(pats):
        if draw(st.integers(0, 3)) == 0:
            p["vp"] = {"v": draw(S.pattern("strtup", 0, 3, meta=False, big=False))}
        p["name"] = p["name"] + str(i)
        if draw(st.booleans()):
            p["name"] = p["name"][:-1]
    return {"pats": pats, "ord": draw(st.sampled_from(["indexed", "increasing", "random"])), "dirty": draw(st.booleans()),
            "hows": draw(hows), "k": draw(st.integers(0, len(pats))), "idx": draw(st.integers(0, 3))}


def norm(p):
    """JSON has no word on resolution, file, and where a viewpoint came from"""
    if isinstance(p, dict):
        return {k: sorted(v, key=repr) if k == "ev" else norm(v) for k, v in p.items() if k not in ("origin", "path", "res")}
    if isinstance(p, list):
        return [norm(x) for x in p]
    return p


def dbcheck(c, o):
    n = len(c["pats"])
    require(all(b == (n > 0) for b in o["built"]), "built status %s with %d patterns", o["built"], n)
    require(norm(o["list"]) == norm(o["want"]), "%s: restored %s, saved %s", c["hows"], o["list"], o["want"])
    if not n:
        return
    want = norm(o["want"])
    i0 = c["idx"] % n
    for k, g in enumerate(o["got"]):
        g = norm(g)
        if c["ord"] == "indexed":
            require(g == want[i0], "indexed: generated %s, want %s", g, want[i0])
        elif c["ord"] == "increasing":
            if i0 + k < n:
                require(g == want[i0 + k], "increasing: generation %d gave %s, want %s", k, g, want[i0 + k])
        else:
            require(g in want, "random: generated a pattern that is not in the database: %s", g)


def k_fits(c):
    if c["ord"] == "increasing" and c["pats"]:
        c["k"] = min(c["k"], len(c["pats"]) - c["idx"] % len(c["pats"]))
    return c


FACETS = [
    Facet("markov", case(), "markovsave", check, lambda c, o: c["built"] and len(c["pats"]) > 1, 2400,
          rule="a built style of more than one pattern"),
    Facet("database", dbcase().map(k_fits), "dbsave", dbcheck, lambda c, o: len(c["pats"]) > 1, 2400,
          rule="more than one pattern"),
]

from hypothesis import strategies as st
import markov as K
from engine import Facet, require
from model import eq_ms

ID = "C24"
PROBES = "sty"


@st.composite
def case(draw):
    loop, n = draw(st.sampled_from(K.LOOPS))
    c = {"loop": loop, "n": n, "order": draw(st.integers(0, min(4, n))), "bare": draw(st.booleans()),
         "twice": draw(st.integers(0, 4)) == 0}
    c["pats"] = draw(K.corpus(loop, n))
    if draw(st.integers(0, 4)) == 0:
        c["first"] = draw(K.corpus(loop, n, npat=2))
    return c


def show(past):
    return [sorted(map(str, s)) for s in past]


def check(c, o):
    n, order = c["n"], c["order"]
    require(o["kept"], "learning modified the patterns")
    require(o["again"], "printing the table changed it")
    require(o["built"] and o["built0"] == ("first" in c), "built status %s after, %s before learning", o["built"], o["built0"])
    ch = o["chain"]
    require((ch["order"], ch["n"], ch["loop"]) == (order, n, c["loop"]), "configuration changed")
    want = K.table(c["pats"], n, c["loop"], order)
    require(len(ch["table"]) == n, "%d steps in the table, want %d", len(ch["table"]), n)
    got = K.canon(ch["table"])
    for i in range(n):
        require(set(got[i]) == set(want[i]), "step %d: pasts %s, want %s", i, [show(x) for x in got[i]], [show(x) for x in want[i]])
        for past, row in want[i].items():
            g = got[i][past]
            require(set(g) == set(row), "step %d after %s: states %s, want %s", i, show(past), show(g), show(row))
            for s, p in row.items():
                require(abs(g[s] - p) < 1e-9, "step %d after %s: probability of %s is %r, want %r", i, show(past), sorted(map(str, s)), g[s], p)
            require(abs(sum(g.values()) - 1) < 1e-9, "row does not sum to one")
    tab = ch["table"]
    for j, q in enumerate(o["q"]):
        i = j if j < n else n - 1
        ins, outs = list(tab[i]), {s for r in tab[i].values() for s in r}
        require(sorted(map(repr, q["in"])) == sorted(map(repr, ins)), "step %d: past states listed %s, table has %s", i, q["in"], ins)
        require(sorted(map(repr, q["out"])) == sorted(map(repr, outs)), "step %d: states listed %s, table has %s", i, q["out"], outs)
        require(sorted(map(repr, q["all"])) == sorted(map(repr, set(ins) | outs)), "step %d: all states listed %s", i, q["all"])
        mat, mi, mo = q["mat"]
        require(sorted(map(repr, mi)) == sorted(map(repr, ins)) and sorted(map(repr, mo)) == sorted(map(repr, outs)),
                "step %d: labels of the matrix are not the states", i)
        require(len(mat) == len(mi) and all(len(r) == len(mo) for r in mat), "step %d: shape of the matrix", i)
        for a, x in enumerate(mi):
            for b, y in enumerate(mo):
                require(abs(mat[a][b] - tab[i][x].get(y, 0)) < 1e-9, "step %d: matrix has %r for %s -> %s", i, mat[a][b], x, y)
    every = {x for t in tab for x in t} | {s for t in tab for r in t.values() for s in r}
    require(sorted(map(repr, o["all"])) == sorted(map(repr, every)), "list of all states: %s, want %s", o["all"], every)
    acc, ins, outs = o["acc"]
    for a, x in enumerate(ins):
        for b, y in enumerate(outs):
            w = sum(t[x].get(y, 0) for t in tab if x in t)
            require(abs(acc[a][b] - w) < 1e-9, "matrix summed over steps has %r for %s -> %s, want %r", acc[a][b], x, y, w)


def nontriv(c, o):
    return any(len(r) > 1 for t in o["chain"]["table"] for r in t.values())


@st.composite
def fcase(draw):
    loop, n = draw(st.sampled_from(K.LOOPS))
    back = st.tuples(st.integers(0, n - 1), st.integers(0, min(4, n)), st.sampled_from([1, 1, 1, 2])).filter(lambda b: b[1] * b[2] <= n)
    return {"loop": loop, "n": n, "order": 1, "bare": False, "by": draw(st.sampled_from(["style", "chain"])),
            "by2": draw(st.sampled_from(["style", "chain"])), "p": draw(K.corpus(loop, n, npat=1))[0],
            "back": draw(st.lists(back, max_size=4))}


def check_f(c, o):
    n, p = c["n"], o["p"]
    want = K.states(c["p"], n, c["loop"])
    at = [[] for _ in range(n)]
    for e in p["ev"]:
        require(e[0] == int(e[0]) and 0 <= e[0] < n and e[1] == 1, "event %s of the formatted pattern is not one of %d steps", e, n)
        at[int(e[0])].append(e)
    require(p["dur"] == n, "the formatted pattern lasts %s steps, want %d", p["dur"], n)
    for i in range(n):
        tags = [e[4] for e in at[i]]
        require(len(tags) == len(set(tags)) and set(tags) == want[i], "step %d has %s, want %s", i, tags, show([want[i]]))
        for e in at[i]:
            require(e[4] == "silence" or any(x[4] == e[4] and x[2:4] == e[2:4] for x in c["p"]["ev"]), "%s is none of the events", e)
    require(o["after"] == p, "looking back changed the pattern")
    for (i, k, w), got in zip(c["back"], o["past"]):
        require(len(got) == k, "%d steps looked back, want %d", len(got), k)
        for j, evs in zip(range(k, 0, -1), got):
            eq_ms(evs, at[(i - j * w) % n], "%d steps before %d" % (j * w, i))


FACETS = [
    Facet("table", case(), "learn", check, nontriv, 3600, rule="some past has more than one continuation"),
    Facet("format", fcase(), "format", check_f, lambda c, o: 1 < sum(1 for e in o["p"]["ev"] if e[4] != "silence") and len(c["back"]) > 0, 2400,
          rule="several events and a look back"),
]

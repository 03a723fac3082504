from hypothesis import strategies as st
import bassref as B
from engine import Facet, require

ID = "C30"
PROBES = "bass"
RUNTIME = "cpython"
EPS = 1e-9


def near(a, b):
    return abs(a - b) <= EPS


onset = st.one_of(st.integers(0, 48).map(lambda k: k / 4), st.integers(0, 384).map(lambda k: k / 32),
                  st.integers(0, 1200).map(lambda k: k / 100), st.integers(0, 36).map(lambda k: k / 3))


@st.composite
def codecase(draw):
    kw = {}
    if draw(st.integers(0, 2)) == 0:
        kw["resolution"] = draw(st.sampled_from([4, 2, 3, 1, 6, 8, 12]))
    return {"onsets": draw(st.lists(onset, max_size=12)), "dur": draw(st.one_of(st.integers(0, 10), st.integers(0, 40).map(lambda k: k / 4))),
            "kw": kw}


def check_code(c, o):
    res = c["kw"].get("resolution", 4)
    rows = int(-(-c["dur"] // 1))
    m = o["m"]
    require(len(m) == rows and all(len(r) == res for r in m), "%s rows for %s beats", len(m), c["dur"])
    may, must = set(), []
    for t in c["onsets"]:
        b = int(t // 1)
        if b >= rows:
            continue
        d = [abs((t - b) - j / res) for j in range(res)]
        near_ = {(b, j) for j in range(res) if d[j] <= min(d) + EPS}
        may |= near_
        must.append(near_)
    got = {(i, j) for i, r in enumerate(m) for j, v in enumerate(r) if v}
    require(all(v in (0, 1) for r in m for v in r), "not binary: %s", m)
    require(got <= may, "cells %s without an onset", sorted(got - may))
    require(all(x & got for x in must), "onsets without a cell: %s in %s", must, sorted(got))
    require(len(got) <= len(must), "more cells than onsets")
    require(o["kept"], "the onsets were modified")
    if "codes" in o:
        want = [sum(8 >> j for j in range(4) if r[j]) for r in m]
        require(o["codes"] == want == o["listcodes"], "codes %s of %s", o["codes"], m)


START = [0, 0.25, 0.5, 0.75]
DICT = {p: [START[j] for j in range(4) if p & (8 >> j)] for p in range(16)}


def check_dictionary(c, o):
    require(o["got"] == {"patterns": DICT} == o["again"], "dictionary %s", o["got"])
    require(o["back"] == [c["codes"]], "codes %s decode and code to %s", c["codes"], o["back"])
    want = {"patterns": {str(k): v for k, v in DICT.items()}} if c["json"] else None
    require(o["file"] == want, "file holds %s", o["file"])


@st.composite
def modelcase(draw):
    size = draw(st.sampled_from([16, 16, 16, 25, 3, [5, 9], [16, 16], [9, 5]]))
    m, n = size if isinstance(size, list) else (size, size)
    pool = st.sampled_from(draw(st.lists(st.integers(0, min(m, n) - 1), min_size=1, max_size=5, unique=True)))
    kpool = st.sampled_from(draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=5, unique=True)))
    bpool = st.sampled_from(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5, unique=True)))
    ops = [["temporal", draw(st.lists(pool, min_size=1, max_size=9))]]
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from(["temporal", "inter", "inter", "normalize"]))
        if k == "temporal":
            ops.append([k, draw(st.lists(pool, max_size=9)) * draw(st.sampled_from([1, 1, 1, 1, 40, 300]))])
        elif k == "inter":
            many = draw(st.sampled_from([1, 1, 1, 1, 40, 300]))
            ops.append([k, draw(st.lists(kpool, max_size=9)) * many, draw(st.lists(bpool, max_size=9)) * many])
        else:
            ops.append([k])
    return {"size": size, "ops": ops, "arrays": draw(st.booleans()), "slash": draw(st.booleans())}


def check_tables(t, m, n, first, trans, lock):
    def row(got, want, what):
        tot = sum(want.values())
        require(all(near(got[i], want.get(i, 0) / tot if tot else 0) for i in range(len(got))), "%s: %s, counts %s", what, got, want)
    require(len(t["initial"]) == m and len(t["temporal"]) == m and len(t["inter"]) == m, "size")
    require(all(len(r) == n for r in t["temporal"] + t["inter"]), "size")
    row(t["initial"], first, "first beats")
    for i in range(m):
        row(t["temporal"][i], trans.get(i, {}), "transitions from %d" % i)
        row(t["inter"][i], lock.get(i, {}), "bass beats with kick %d" % i)


def check_model(c, o):
    m, n = c["size"] if isinstance(c["size"], list) else (c["size"], c["size"])
    first, trans, lock = {}, {}, {}
    stages = iter(o["stages"])
    for op in c["ops"] + [["normalize"]]:
        if op[0] == "normalize":
            check_tables(next(stages), m, n, first, trans, lock)
            continue
        a, b, l = B.learn([[[], op[1]]]) if op[0] == "temporal" else ({}, {}, B.learn([[op[1], op[2]]])[2])
        for have, new in ((trans, b), (lock, l)):
            for x, r in new.items():
                for y, k in r.items():
                    have.setdefault(x, {})[y] = have.setdefault(x, {}).get(y, 0) + k
        for x, k in a.items():
            first[x] = first.get(x, 0) + k
    d = o["dicts"]
    require({int(x) for x in d[0]} == set(first) and len(d[0]) == len(first), "first beats %s, learned %s", d[0], first)
    for got, want in ((d[1], trans), (d[2], lock)):
        require({k: {int(x) for x in v} for k, v in got.items()} == {k: set(v) for k, v in want.items()}, "table %s, learned %s", got, want)
    init, rows = o["rhythm"]
    check_row(init["initial"]["pattern"], init["initial"]["prob"], first, "first beats")
    require(set(rows) == set(trans), "rows %s, learned %s", sorted(rows), sorted(trans))
    for k, r in rows.items():
        check_row(r["pattern"], r["probs"], trans[k], "transitions from %s" % k)
    require(o["files"][0] == init, "file holds %s, returned %s", o["files"][0], init)
    require(o["files"][1] == {str(k): v for k, v in rows.items()}, "file holds %s, returned %s", o["files"][1], rows)
    if "pitch" in o:
        require(set(o["pitch"]) == {k - 12 for k in trans}, "pitch rows %s", sorted(o["pitch"]))
        for k, r in o["pitch"].items():
            check_row([x + 12 for x in r["interval"]], r["probs"], trans[k + 12], "intervals from %s" % k)
    require(o["last"] == o["stages"][-1], "exporting the model changed it")


def check_row(codes, probs, counts, what):
    tot = sum(counts.values())
    require(sorted(codes) == sorted(counts) and len(probs) == len(codes), "%s: %s, learned %s", what, codes, counts)
    require(all(near(p, counts[x] / tot) for x, p in zip(codes, probs)), "%s: %s with %s, learned %s", what, codes, probs, counts)
    require(near(sum(probs), 1), "%s: probabilities sum to %s", what, sum(probs))


@st.composite
def corpuscase(draw):
    songs = []
    for name, (kick, bass) in zip(draw(st.permutations(["a", "b", "aa", "song one", "b_2", "drums", "bass", "v1.0", "v1.5"])), draw(B.pairs())):
        songs.append([name, kick, bass, draw(st.lists(st.integers(0, 15), max_size=4))])
    return {"songs": songs, "dirs": draw(st.sampled_from([["bass", "drums"], ["x/b", "x/d"], ["same", "same2"]])),
            "jitter": draw(st.lists(st.sampled_from([0, 0, 0.05, 0.1, 0.0625]), min_size=1, max_size=3)), "shuffle": draw(st.integers(0, 3)),
            "slash": draw(st.integers(0, 3)) == 0}


def check_corpus(c, o):
    first, trans, lock = B.learn([[k, b] for _, k, b, _ in c["songs"]])
    check_tables(o["t"], 16, 16, first, trans, lock)
    want = sorted((B.codes_of(DICTON(k), len(k)), len(k)) for _, k, _, _ in c["songs"])
    got = sorted((B.codes_of(on, d), d) for on, d in o["kicks"])
    require(want == got, "kick patterns %s, want %s", got, want)


def DICTON(codes):
    return [b + s for b, x in enumerate(codes) for s in DICT[x]]


FACETS = [
    Facet("coding", codecase(), "code", check_code, lambda c, o: any(any(r) for r in o["m"]), 12000, rule="some onset is coded"),
    Facet("dictionary", st.fixed_dictionaries({"json": st.booleans(), "slash": st.booleans(), "sub": st.sampled_from([[], ["n"], ["n", "m"]]),
                                               "codes": st.lists(st.integers(0, 15), max_size=9)}),
          "dictionary", check_dictionary, lambda c, o: len(c["codes"]) > 1, 3000, rule="two beats or more"),
    Facet("model", modelcase(), "model", check_model, lambda c, o: len(c["ops"]) > 2, 7000, rule="three additions or normalisations"),
    Facet("corpus", corpuscase(), "corpus", check_corpus, lambda c, o: len(c["songs"]) > 1, 3000, rule="two songs or more"),
]

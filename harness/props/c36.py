import ast
import json
import re
from hypothesis import strategies as st
import markov as K
import strat as S
from engine import Facet, require

ID = "C36"
PROBES = "show"


@st.composite
def case(draw):
    p = draw(S.pattern("any", 0, 8, fit=draw(st.booleans()), meta=True))
    if draw(st.integers(0, 4)) == 0:
        for e in p["ev"]:
            e[0], e[1] = draw(st.floats(0, 999, allow_nan=False)), draw(st.floats(0.001, 99))
    if draw(st.integers(0, 5)) == 0:
        p["name"] = None
    elif not p["name"].isascii():      # printed forms are byte strings in Python 2
        p["name"] = "ascii"
    return {"p": p, "tags": draw(st.lists(st.tuples(st.sampled_from(["C", "F#", "Bb"]), st.sampled_from(["maj", "min7", "", "sus4"])), max_size=3))}


def tagtext(text, tag):
    if isinstance(tag, tuple):
        return ast.literal_eval(text) == tag
    return text == str(tag)


def line_of(text, e):
    parts = text.rsplit(" ", 4)
    require(len(parts) == 5, "event line %r", text)
    require(tagtext(parts[0], e[4]), "event line %r, its tag is %r", text, e[4])
    require(float(parts[1]) == e[2] and float(parts[2]) == e[3], "event line %r, pitch %s and velocity %s", text, e[2], e[3])
    require(abs(float(parts[3]) - e[0]) < 6e-5 and abs(float(parts[4]) - e[1]) < 6e-5, "event line %r, at %s for %s", text, e[0], e[1])


def fields(text):
    head, _, rest = text.partition("\n\n")
    r = {}
    for l in head.split("\n"):
        k, _, v = l.partition(":")
        r[k.strip()] = v.strip()
    return r, rest


def check(c, o):
    p = c["p"]
    require(o["kept"], "printing changed the pattern")
    require(len(o["events"]) == len(p["ev"]) == o["len"] and all(o["items"]), "%d events listed", len(o["events"]))
    for t, e in zip(o["events"], p["ev"]):
        line_of(t, e)
    f, rest = fields(o["repr"])
    require(o["str"] == o["repr"] and o["printed"].strip("\n") == o["repr"].strip("\n"), "printed as %r", o["printed"])
    lines = [l for l in rest.split("\n") if l]
    require(lines == o["events"], "the pattern's lines %s are not its events %s", lines, o["events"])
    require(f["Name"] == str(p["name"]).strip() and f["Key"] == str(p["key"]) and f["FilePath"] == str(p["path"]), "printed fields %s", f)
    require(f["TimeSignature"] == "%d/%d" % p["ts"], "time signature printed %s, is %s", f["TimeSignature"], p["ts"])
    require(abs(float(f["Duration"]) - p["dur"]) < 0.006 and abs(float(f["BPM"]) - p["bpm"]) < 0.006, "printed fields %s", f)
    require([list(x) for x in o["list"]] == [[e[2], e[0], e[1]] for e in p["ev"]], "as a list %s", o["list"])
    for text, t, d, comps, tag, label in o.get("chords", ()):
        m = re.match(r"^(\S+) (.*) (\[\[.*\]\]) (\S+) (\S+)$", text)
        require(m is not None, "chord printed %r", text)
        require(m.group(1) == label and ast.literal_eval(m.group(2)) == tag and ast.literal_eval(m.group(3)) == comps
                and abs(float(m.group(4)) - t) < 0.006 and abs(float(m.group(5)) - d) < 0.006,
                "chord printed %r, is %s", text, [label, tag, comps, t, d])
    if "whole" in o:
        lines = [l for l in fields(o["whole"])[1].split("\n") if l]
        require(lines == [x[0] for x in o["chords"]], "printed chords %s", lines)
    require(o["ct"] == ["".join(t) for t in c["tags"]], "chord tags %s printed %s", c["tags"], o["ct"])


@st.composite
def tcase(draw):
    loop, n = draw(st.sampled_from(K.LOOPS))
    return {"loop": loop, "n": n, "order": draw(st.integers(0, min(5, n))), "bare": draw(st.booleans()),
            "pats": draw(K.corpus(loop, n)), "plot": draw(st.lists(st.one_of(st.none(), st.integers(-n, n - 1)), max_size=2))}


def reduced(v):
    if isinstance(v, tuple):
        v = tuple(reduced(x) for x in v)
        if len(v) == 1:
            v = v[0]
    return v


def key(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text


def check_table(c, o):
    tab = o["table"]
    require(o["kept"] == tab, "printing changed the table")
    for i, plot in zip(c["plot"], o["plots"]):
        want = {}
        for t in tab if i is None else [tab[i]]:
            for past, row in t.items():
                for s, p in row.items():
                    want[past, s] = want.get((past, s), 0) + p
        rows, cols = plot["set_yticklabels"], plot["set_xticklabels"]
        require(plot["shown"] and plot["set_yticks"] == list(range(len(rows))) and plot["set_xticks"] == list(range(len(cols))), "ticks %s", plot)
        require(len(set(rows)) == len(rows) and len(set(cols)) == len(cols) and {(x, y) for x, y in want} <= {(x, y) for x in rows for y in cols},
                "plot %s: labels %s by %s", i, rows, cols)
        require(len(plot["matshow"]) == len(rows), "plot %s: %d rows of %d", i, len(plot["matshow"]), len(rows))
        for x, r in zip(rows, plot["matshow"]):
            require(len(r) == len(cols), "plot %s: a row of %d columns of %d", i, len(r), len(cols))
            for y, p in zip(cols, r):
                require(abs(p - want.get((x, y), 0)) < 1e-9, "plot %s shows %s for %s after %s, want %s", i, p, y, x, want.get((x, y), 0))
    names = {t for i in tab for past in i for s in past for t in s}
    if not all(isinstance(t, str) and t.isalpha() for t in names):
        return
    for (red, js), texts in o["text"].items():
        require(len(texts) == len(tab), "%d steps printed, the table has %d", len(texts), len(tab))
        for i, (t, want) in enumerate(zip(texts, tab)):
            got = json.loads(t) if js else t
            f = reduced if red else (lambda v: v)
            g = {key(k): {key(s): p for s, p in row.items()} for k, row in got.items()}
            w = {f(k): {f(s): p for s, p in row.items()} for k, row in want.items()}
            require(set(g) == set(w), "step %d printed for %s, the table has %s", i, list(g), list(w))
            for k in w:
                require(set(g[k]) == set(w[k]) and all(abs(g[k][s] - w[k][s]) < 1e-9 for s in w[k]),
                        "step %d after %s printed as %s, is %s", i, k, g[k], w[k])
    require(o["default"] == o["text"][True, True], "printed by default %s", o["default"])
    parts = re.split(r"^step (\d+)\n", o["repr"], flags=re.M)
    require([int(x) for x in parts[1::2]] == list(range(len(tab))), "steps printed %s", parts[1::2])
    for t, want in zip(parts[2::2], o["default"]):
        require(json.loads(t) == json.loads(want), "a step printed as %s, want %s", t, want)


FACETS = [
    Facet("patterns", case(), "pattern", check, lambda c, o: len(c["p"]["ev"]) > 1, 5000, rule="two events or more"),
    Facet("tables", tcase(), "table", check_table, lambda c, o: any(len(r) > 1 for t in o["table"] for r in t.values()), 1000,
          rule="some past has more than one continuation"),
]

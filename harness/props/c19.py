from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import DEFAULTS

ID = "C19"
PROBES = "pat"


@st.composite
def tcase(draw):
    p = draw(S.beside(draw(S.pattern("any", 0, 8))))
    if p["ev"] and draw(st.integers(0, 3)) == 0:          # a long note among the others, anywhere in the list
        p["ev"].insert(draw(st.integers(0, len(p["ev"]))),
                       [draw(S.times(4)), draw(S.times(200))] + draw(st.sampled_from(p["ev"]))[2:])
        for _ in range(draw(st.integers(0, 3))):
            p["ev"].insert(draw(st.integers(0, len(p["ev"]))),
                           [draw(S.times(180)), draw(S.times(20))] + draw(st.sampled_from(p["ev"]))[2:])
    marks = [x for e in p["ev"] for x in (e[0], e[0] + e[1])] or [0]
    tol = draw(st.one_of(st.sampled_from([0, 0.25, 1, 0.5]), S.times(4)))
    t = st.one_of(st.sampled_from(marks), st.sampled_from([m + tol for m in marks]),
                  st.sampled_from([m - 1 / 64 for m in marks]), st.sampled_from([m + 1 / 64 for m in marks]), S.times(20))
    return {"p": p, "ts": draw(st.lists(t, min_size=1, max_size=6)), "tol": tol}


def check_t(c, o):
    evs = c["p"]["ev"]
    for k, t in enumerate(c["ts"]):
        act = [i for i, e in enumerate(evs) if e[0] <= t < e[0] + e[1]]
        require(o["active"][k] == act, "active at %s: %s, want %s", t, o["active"][k], act)
        require(o["contains"][k] == [i in act for i in range(len(evs))], "containsTime(%s): %s", t, o["contains"][k])
        st0 = [i for i, e in enumerate(evs) if e[0] == t]
        require(o["starting"][k] == st0, "starting at %s: %s, want %s", t, o["starting"][k], st0)
        stt = [i for i, e in enumerate(evs) if 0 <= t - e[0] <= c["tol"]]
        require(o["starting_tol"][k] == stt, "starting at %s within %s: %s, want %s", t, c["tol"], o["starting_tol"][k], stt)
    require(o["ends"] == [e[0] + e[1] for e in evs], "end times %s", o["ends"])
    require(o["same"], "the pattern was changed by a query")


@st.composite
def scase(draw):
    tags = draw(S.tagset("any"))
    return {"e": draw(S.event(tags)), "step": draw(st.one_of(S.steps(4), st.sampled_from([0.25, 1, 0.5, 3])))}


def check_s(c, o):
    e, step = c["e"], c["step"]
    n = max(1, int(e[1] // step))
    want = [[e[0] + i * step, step] + e[2:] for i in range(n)]
    require(o["steps"] == want, "%s cut in steps of %s: %s, want %s", e, step, o["steps"], want)
    require(o["e"] == e and not o["shared"], "the event itself was changed or returned")


@st.composite
def gcase(draw):
    tags = [t for t in draw(S.tagset("str")) if "silence" not in t] or ["Kick"]
    q = draw(st.sampled_from([1, 2, 4]))
    p = draw(S.pattern(tags, 0, 8, fit=True, big=False, t=S.times(12, q), d=st.integers(1, 4 * q).map(lambda k: k / q)))
    if draw(st.integers(0, 3)) == 0:          # blocks that are no sum of powers of two: onsets on blocks, ends between them
        bs, n = draw(st.sampled_from([0.1, 0.2, 0.3, 1 / 3, 0.7])), draw(st.integers(1, 40))
        cells = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 5), st.sampled_from(tags)), min_size=1, max_size=8))
        return {"p": {"dur": (n + 0.5) * bs, "ev": [[k * bs, (m + 0.5) * bs, 60, 100, t] for k, m, t in cells]}, "kw": {"blockSize": bs}}
    return {"p": p, "kw": draw(st.sampled_from([{}, {"blockSize": 1}, {"blockSize": 0.5}, {"blockSize": 0.25}, {"blockSize": 2}]))}


def check_g(c, o):
    step = c["kw"].get("blockSize", 1)
    n = int(c["p"]["dur"] / step)
    tags = {e[4] for e in c["p"]["ev"]}
    lines = [x for x in o["text"].split("\n") if x.strip()]
    require(len(lines) == len(tags), "%d lines for %d tags: %r", len(lines), len(tags), lines)
    seen = set()
    for line in lines:
        row, _, tag = line.strip().rpartition("]: ")
        require(row.startswith("[") and tag in tags, "unreadable line %r", line)
        seen.add(tag)
        row = row[1:]
        require(len(row) == n, "row of %s has %d steps, want %d", tag, len(row), n)
        evs = [e for e in c["p"]["ev"] if e[4] == tag]
        for i, ch in enumerate(row):
            act = any(e[0] <= i * step < e[0] + e[1] for e in evs)
            require((ch == "-") == (not act), "row %r of %s, step %d (time %s): event active %s", row, tag, i, i * step, act)
            onset = [e for e in evs if e[0] == i * step]
            if len(evs) > 0 and i > 0 and onset and not any(e[0] < i * step < e[0] + e[1] for e in evs):
                require(ch == "|", "row %r of %s, step %d: a note starts", row, tag, i)
    require(seen == tags, "rows for %s, want %s", seen, tags)
    require(o["same"], "the pattern was changed by printing it")


FACETS = [
    Facet("queries", tcase(), "times", check_t, lambda c, o: any(o["active"]) or any(o["starting_tol"]), 9000,
          rule="some query finds an event"),
    Facet("steps", scase(), "steps", check_s, lambda c, o: len(o["steps"]) > 1, 3000, rule="cut into several steps"),
    Facet("grid", gcase(), "grid", check_g, lambda c, o: "|" in o["text"] and "-" in o["text"], 4000,
          rule="sounding and silent steps"),
]

from hypothesis import strategies as st
import bassref as B
from engine import Facet, require
from props.c30 import near, check_row, DICTON

ID = "C31"
PROBES = "bass"
RUNTIME = "cpython"
seeds = st.lists(st.integers(0, 2 ** 31 - 1), min_size=1, max_size=4)


@st.composite
def freecase(draw):
    return {"pairs": draw(B.pairs()), "seeds": draw(seeds), "length": draw(st.sampled_from([[], [1], [2], [3], [4], [8], [16], [5]]))}


def line_of(p, beats):
    """the codes of a generated line, after checking its events"""
    require(p is not None and p["dur"] == beats, "lasts %s, want %s", p and p["dur"], beats)
    cells = []
    for t, d, pitch, vel, tag in p["ev"]:
        require((d, pitch, vel, tag) == (0.25, 36, 110, "bass"), "event %s", [t, d, pitch, vel, tag])
        require(t * 4 == int(t * 4) and 0 <= t < beats, "onset at %s", t)
        cells.append(t)
    require(cells == sorted(set(cells)), "onsets %s", cells)
    return B.codes_of(cells, beats)


def follows(line, trans, fixed=()):
    for i, (a, b) in enumerate(zip(line, line[1:])):
        require(b in trans.get(a, ()), "beat %d: %d to %d was never learned, in %s", i, a, b, line)


def check_free(c, o):
    first, trans, _ = B.learn(c["pairs"])
    for p in o["lines"]:
        line = line_of(p, (c["length"] or [8])[0])
        require(line[0] in first, "starts with %d, learned %s", line[0], first)
        follows(line, trans)
    require(o["same"], "the same state of the random generator gave another line")


def solvable(pairs, target):
    first, trans, lock = B.learn(pairs)
    sets = B.locks(target, lock)
    return sets is not None and bool(set(first) & B.continuations(sets, trans)[0])


@st.composite
def target(draw, pairs):
    kicks = [k for k, _ in pairs if k]
    if kicks and draw(st.booleans()):
        t = list(draw(st.sampled_from(kicks)))
        if draw(st.integers(0, 3)) == 0:          # a longer one: several kicks after another
            t += draw(st.lists(st.sampled_from(sorted(set(t))), min_size=1, max_size=6))
        for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
            t[draw(st.integers(0, len(t) - 1))] = draw(st.integers(0, 15))
    else:
        pool = st.sampled_from(sorted({x for k, _ in pairs for x in k} | {8}))
        t = draw(st.lists(pool, min_size=draw(st.sampled_from([1, 2, 2, 3])), max_size=10))
    return t


@st.composite
def lockedcase(draw):
    pairs = draw(B.pairs())
    t = draw(target(pairs))
    if not any(t) or not solvable(pairs, t):
        # a model that admits any target: every kick beat seen with every bass beat
        extra = [k for k in sorted(set(t)) for _ in pairs[0][1]]
        pairs = pairs + [[extra, pairs[0][1] * len(set(t))]]
        if not any(t):
            t[-1] = 8
            pairs = pairs + [[[8] * len(pairs[0][1]), pairs[0][1]]]
        if not solvable(pairs, t):
            pairs = pairs + [[t, (pairs[0][1] * len(t))[:len(t)]]]
    return {"pairs": pairs, "target": t, "jitter": draw(st.lists(st.sampled_from([0, 0, 0.05, 0.1]), min_size=1, max_size=3)),
            "short": draw(st.sampled_from([0, 0, 0, 0.25, 0.5])), "length": draw(st.sampled_from([8, 2, 3, 4, len(t), len(t) + 3, 1])),
            "seeds": draw(seeds), "slash": draw(st.booleans())}


def check_steps(steps, live, trans, what):
    require(sorted(steps) == list(range(len(live) - 1)), "%s has the steps %s for %d beats", what, sorted(steps), len(live))
    for i, rows in steps.items():
        for k, r in rows.items():
            # no dead ends: nothing that cannot be continued, nothing that was not learned
            require(k in live[i], "%s, beat %d: lists %d, allowed and continued are %s", what, i, k, live[i])
            check_row(r["pattern"], r["probs"], {y: n for y, n in trans[k].items() if y in live[i + 1]}, "%s, beat %d after %d" % (what, i, k))


def check_complete(start, steps, what):
    """every continuation listed is itself a row of the next beat"""
    now = set(start)
    for i in range(len(steps)):
        require(now <= set(steps[i]), "%s, beat %d: no row for %s", what, i, now - set(steps[i]))
        now = {y for k in now for y in steps[i][k]["pattern"]}
    for i in range(len(steps) - 1):
        for k, r in steps[i].items():
            require(set(r["pattern"]) <= set(steps[i + 1]), "%s, beat %d: %d is continued by %s, of which the next beat has %s",
                    what, i, k, r["pattern"], sorted(steps[i + 1]))


def as_json(m):
    return [m[0], {str(i): {str(k): r for k, r in rows.items()} for i, rows in m[1].items()}]


def check_locked(c, o):
    first, trans, lock = B.learn(c["pairs"])
    sets = B.locks(c["target"], lock)
    live = B.continuations(sets, trans)
    init, steps = o["model"]
    starts = {k: n for k, n in first.items() if k in live[0]}
    check_row(init["initial"]["pattern"], init["initial"]["prob"], starts, "first beats")
    check_steps(steps, live, trans, "constrained model")
    check_complete(starts, steps, "constrained model")
    require(o["files"] == as_json(o["model"]), "files hold %s, returned %s", o["files"], o["model"])
    n = min(c["length"], len(c["target"]) if not c["short"] else max(1, len(c["target"]) - 1))
    require(len(o["lines"]) == len(c["seeds"]), "%d lines", len(o["lines"]))
    for line in [line_of(x, n) for x in o["lines"]]:
        require(line[0] in first, "starts with %d, learned %s", line[0], first)
        follows(line, trans)
        for i, x in enumerate(line):
            require(x in sets[i], "beat %d: %d never occurs with the kick %d, in %s", i, x, c["target"][i], line)
    require(o["kept"], "the model or the target was modified")


@st.composite
def varycase(draw):
    pairs = draw(B.pairs())
    first, trans, _ = B.learn(pairs)
    line = [draw(st.sampled_from(sorted(trans)))]
    for _ in range(draw(st.integers(0, 9))):
        line.append(draw(st.sampled_from(sorted(trans[line[-1]]))))
    n = len(line)
    mask = draw(st.lists(st.sampled_from([1, -1, -1]), min_size=n, max_size=n + 2))
    return {"pairs": pairs, "line": line, "mask": mask, "seeds": draw(seeds), "slash": draw(st.booleans())}


def check_vary(c, o):
    _, trans, _ = B.learn(c["pairs"])
    n = len(c["line"])
    fixed = [i == 0 or c["mask"][i] > 0 for i in range(n)]
    for p in o["lines"]:
        line = line_of(p, n)
        for i in range(n):
            require(not fixed[i] or line[i] == c["line"][i], "beat %d was to be kept: %s of %s", i, line, c["line"])
        follows(line, trans)
    live = B.continuations([{c["line"][i]} if fixed[i] else set(trans) for i in range(n)], trans)
    init, steps = o["model"]
    require(init["initial"] == {"prob": 1.0, "pattern": c["line"][0]}, "first beat %s", init)
    check_steps(steps, live, trans, "variation model")
    check_complete([c["line"][0]], steps, "variation model")
    require(o["files"] == as_json(o["model"]), "files hold %s, returned %s", o["files"], o["model"])
    require(o["kept"], "the model, the pattern or the mask was modified")


@st.composite
def drawcase(draw):
    w = draw(st.lists(st.integers(0, 6), min_size=1, max_size=6).filter(sum))
    return {"probs": [x / sum(w) for x in w], "w": w, "seed": draw(st.integers(0, 2 ** 31)), "n": 2500}


def check_draws(c, o):
    for i, p in enumerate(c["probs"]):
        k = o["pdf"].count(i)
        require(p > 0 or k == 0, "drew entry %d of probability 0", i)
        require(abs(k / c["n"] - p) < 0.08, "entry %d of probability %s came %d times in %d", i, p, k, c["n"])
    require(set(o["pdf"]) <= set(range(len(c["probs"]))) and o["kept"], "drew %s", set(o["pdf"]))


@st.composite
def oftencase(draw):
    pairs = draw(B.pairs())
    t = []
    if draw(st.booleans()):
        cand = [k[:2] for k, _ in pairs if len(k) >= 2 and any(k[:2])]
        cand = [k for k in cand if solvable(pairs, k)]
        t = draw(st.sampled_from(cand)) if cand else []
    return {"pairs": pairs, "target": t, "seed": draw(st.integers(0, 2 ** 31 - 1)), "n": 500}


def check_often(c, o):
    first, trans, lock = B.learn(c["pairs"])
    sets = B.locks(c["target"], lock) if c["target"] else [set(trans), set(trans)]
    live = B.continuations(sets, trans)
    want = {}
    start = B.norm({k: n for k, n in first.items() if k in live[0]})
    for a, p in start.items():
        for b, q in B.norm({k: n for k, n in trans[a].items() if k in live[1]}).items():
            want[(a, b)] = p * q
    got = {tuple(B.codes_of(t, 2)): n for t, n in o["count"]}
    for k in set(want) | set(got):
        p, n = want.get(k, 0), got.get(k, 0)
        require(p > 0 or n == 0, "%s is impossible and came %d times", k, n)
        require(abs(n / c["n"] - p) < 0.16, "%s has probability %s and came %d times in %d", k, p, n, c["n"])


FACETS = [
    Facet("free", freecase(), "free", check_free, lambda c, o: len(set(tuple(p["ev"][0]) if p["ev"] else () for p in o["lines"])) > 1 or
          len(c["pairs"]) > 1, 2500, rule="two songs or more, or lines that differ"),
    Facet("locked", lockedcase(), "locked", check_locked, lambda c, o: any(len(r["pattern"]) > 1 for s in o["model"][1].values() for r in s.values()),
          3500, rule="some beat has several continuations"),
    Facet("variation", varycase(), "vary", check_vary, lambda c, o: any(len(r["pattern"]) > 1 for s in o["model"][1].values() for r in s.values()),
          3500, rule="some beat has several continuations"),
    Facet("draws", drawcase(), "draws", check_draws, lambda c, o: len(set(o["pdf"])) > 1, 400, rule="several entries drawn"),
    Facet("frequencies", oftencase(), "often", check_often, lambda c, o: len(o["count"]) > 1, 64, 300, rule="several lines drawn"),
]

import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, require
from model import close

ID = "C27"
PROBES = "trf"
EXACT = {32: [4, 8, 16, 2, 1, 32, 64], 16: [4, 8, 2, 16], 8: [4, 2, 1], 4: [4, 1, 8], 12: [3, 6, 12], 5: [5, 10], 1: [4], 7: [7, 3.5],
         64: [16, 8], 24: [6, 24], 128: [32], 48: [12]}


@st.composite
def source(draw, n):
    dur = draw(st.sampled_from(EXACT[n]))
    ss = dur / n
    tags = [t for t in draw(S.tagset(draw(st.sampled_from(["drums", "substr", "str", "any", "nums"])))) if t != "silence"] or ["Kick"]
    cells = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0, 0, 0, 0.25, -0.25, 0.375]), st.sampled_from(tags),
                                    st.sampled_from([1, 1, 0.5, 2, 5]), S.pitches, S.vels), max_size=min(30, 2 * n)))
    if draw(st.integers(0, 9)) == 0:
        cells += [(i, 0, tags[0], 1, 60, 100) for i in range(n)]          # a full voice
    evs = [[max(0, (k + off) * ss), d * ss, p, v, t] for k, off, t, d, p, v in cells]
    return {"dur": draw(st.sampled_from([dur, float(dur)])), "ev": evs}, tags


density = st.one_of(st.sampled_from([0, 1, 2, 0.5, 1.5, 1.0, 0.0, 2.0]), st.floats(0, 2),
                    st.floats(0, 1), st.sampled_from([-0.5, 2.5, 0.999, 1.001, 0.25, 1.75]))


@st.composite
def case(draw):
    n = draw(st.sampled_from([32, 32, 16, 16, 8, 4, 12, 5, 1, 7, 64, 24, 128, 48]))
    p, tags = draw(source(n))
    c = {"p": p, "seed": draw(st.integers(0, 999)), "configure": draw(st.integers(0, 3)) == 0, "plain": draw(st.booleans()),
         "every": draw(st.booleans()), "scribble": draw(st.integers(0, 3)) == 0}
    if draw(st.booleans()):
        c["mode"] = draw(st.sampled_from(["random", "hysteresis"]))
    if n != 32 or draw(st.booleans()):
        c["n"] = n
    names = tags + ["NotThere"] if draw(st.integers(0, 4)) == 0 else tags
    c["settings"] = draw(st.lists(st.dictionaries(st.sampled_from(names), density, max_size=len(names)), min_size=1, max_size=8))
    return c


def aligned(p, n):
    """tag -> step -> the (pitch, velocity)s of the events that round to it"""
    want = {}
    for s, d, pi, v, t in p["ev"]:
        k = math.floor(s * n / p["dur"] + 0.5)
        if k < n:
            want.setdefault(t, {}).setdefault(k, []).append((pi, v))
    return want


def voices(r, n, dur):
    ss = dur / n
    require(close(r["dur"], dur), "duration %r, want %r", r["dur"], dur)
    out = {}
    for s, d, p, v, t in r["ev"]:
        k = round(s / ss)
        require(abs(s - k * ss) < 1e-9 * max(1, dur) and 0 <= k < n, "event at %r, off the %d steps of %r", s, n, ss)
        require(close(d, ss), "event of length %r, a step is %r", d, ss)
        require(k not in out.setdefault(t, {}), "two events of %s on step %d", t, k)
        out[t][k] = (p, v)
    require([e[0] for e in r["ev"]] == sorted(e[0] for e in r["ev"]), "events out of order")
    return out


def judge(orig, got, t, value, n):
    value = max(0, min(2, value))
    o, g = orig[t], got.get(t, {})
    m = len(o)
    full = value * m if value <= 1 else m + (value - 1) * (n - m)
    require(abs(len(g) - full) <= 1, "%s at density %r has %d events, want about %.2f (%d originally, %d steps)", t, value, len(g), full, m, n)
    if value == 0:
        require(not g, "%s at density 0 has %d events", t, len(g))
    if value == 2:
        require(set(g) == set(range(n)), "%s at density 2 is silent on %s", t, sorted(set(range(n)) - set(g)))
    if value <= 1:
        require(set(g) <= set(o), "%s at density %r has new events on %s", t, value, sorted(set(g) - set(o)))
    if value >= 1:
        require(set(g) >= set(o), "%s at density %r lost the original events on %s", t, value, sorted(set(o) - set(g)))
    for k in set(g) & set(o):
        require(g[k] in o[k], "%s at density %r: step %d has (pitch, velocity) %s, originally %s", t, value, k, g[k], o[k])


def check(c, o):
    n = c.get("n", 32)
    dur = c["p"]["dur"]
    require(o["kept"], "the input pattern was modified")
    orig = aligned(c["p"], n)
    now = {t: 1 for t in orig}
    prev = None
    settings = list(c["settings"])
    if c["plain"] and not c["configure"]:
        settings = [{}] + settings
    require(len(o["res"]) == len(settings), "no pattern returned")
    for s, r in zip(settings, o["res"]):
        require(r is not None, "no pattern returned")
        g = voices(r, n, dur)
        require(set(g) <= set(orig), "unknown voices %s", set(g) - set(orig))
        for t, v in s.items():
            if t in now:
                now[t] = v
        for t in orig:
            judge(orig, g, t, now[t], n)
            if prev is not None and t not in s:
                require(g.get(t, {}) == prev.get(t, {}), "%s, not mentioned, went from steps %s to %s", t, sorted(prev.get(t, {})), sorted(g.get(t, {})))
        prev = g


@st.composite
def changed(draw, p, n):
    """the pattern with one thing changed, or nothing"""
    q = {"dur": p["dur"], "ev": [list(e) for e in p["ev"]]}
    k = draw(st.sampled_from(["dur", "none", "start", "pitch", "vel", "tag", "drop", "more", "length", "float"]))
    if k == "dur":
        q["dur"] = draw(st.sampled_from(EXACT[n]))
        if max([e[0] for e in q["ev"]] or [0]) >= q["dur"]:
            q["dur"] = p["dur"]
    elif k == "float":
        q["dur"] = float(q["dur"])
    elif k == "more":
        q["ev"].append([draw(st.integers(0, n - 1)) * q["dur"] / n, q["dur"] / n, 61, 99, draw(st.sampled_from(["Extra", "Kick"]))])
    elif k != "none" and q["ev"]:
        e = draw(st.sampled_from(q["ev"]))
        if k == "start":
            e[0] = draw(st.integers(0, n - 1)) * q["dur"] / n
        elif k == "length":
            e[1] = e[1] * 2
        elif k == "pitch":
            e[2] = (e[2] + 1) % 128
        elif k == "vel":
            e[3] = (e[3] + 1) % 128
        elif k == "tag":
            e[4] = draw(st.sampled_from(["Other", "Kick"]))
        else:
            q["ev"].remove(e)
    return q


@st.composite
def others(draw):
    """patterns given one after another, and settings for voices of any of them"""
    n = draw(st.sampled_from([16, 8, 4, 5]))
    pats, names = [], []
    for i in range(draw(st.integers(1, 3))):
        if pats and draw(st.booleans()):
            q = draw(changed(draw(st.sampled_from(pats)), n))
            t = sorted({e[4] for e in q["ev"]}, key=repr)
        else:
            q, t = draw(source(n))
        pats.append(q)
        names += [x for x in t if x not in names]
    k = len(pats)
    steps = draw(st.lists(st.tuples(st.sampled_from(["give", "give", "give", "none", "none", "configure", "edit", "copy"]), st.integers(0, k - 1),
                                    st.dictionaries(st.sampled_from(names or ["Kick"]), density, max_size=3)), min_size=1, max_size=6))
    c = {"pats": pats, "n": n, "seed": draw(st.integers(0, 99)), "steps": [["give", 0, {}]] * draw(st.integers(0, 1)) + [list(x) for x in steps],
         "edit": draw(st.sampled_from([1, 0.5]))}
    if draw(st.booleans()):
        c["mode"] = draw(st.sampled_from(["random", "hysteresis"]))
    return c


def check_others(c, o):
    n, cur, now, prev = c["n"], None, {}, None
    require(len(o["res"]) == len(c["steps"]), "a result is missing")
    for i, ((op, k, s), (r, p, anew, kept)) in enumerate(zip(c["steps"], o["res"])):
        require(kept, "step %d: the input pattern was modified", i)
        if anew:
            cur, prev = p, None
            orig = aligned(cur, n)
            now = {t: 1 for t in orig}
        if cur is None:
            require(r is None, "step %d: without a pattern it gives %s", i, r)
            continue
        require(r is not None, "step %d: no pattern", i)
        now.update((t, v) for t, v in s.items() if t in now)
        g = voices(r, n, cur["dur"])
        require(set(g) <= set(orig), "step %d: voices of another pattern: %s", i, set(g) - set(orig))
        for t in orig:
            judge(orig, g, t, now[t], n)
            if prev is not None and t not in s:
                require(g.get(t, {}) == prev.get(t, {}), "step %d: %s, not mentioned, went from %s to %s", i, t, prev.get(t), g.get(t))
        prev = g


FACETS = [
    Facet("settings", case(), "density", check, lambda c, o: len(c["settings"]) > 1 and any(o["res"]), 9000,
          rule="more than one setting after another"),
    Facet("other-patterns", others(), "density_others", check_others, lambda c, o: sum(1 for r in o["res"] if r[2]) > 1, 4500,
          rule="more than one pattern is taken"),
]

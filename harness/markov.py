"""Reference model of the Markov styles."""
import math
from hypothesis import strategies as st
import strat as S
from engine import require

LOOPS = [(4, 16), (1, 1), (2, 2), (3, 3), (4, 8), (4, 32), (8, 16), (2, 8), (1, 4), (4, 4), (16, 16), (3, 12), (4, 5), (6, 8), (4.0, 16), (8, 4), (1.5, 6), (2.5, 10), (0.5, 4)]
SMALL = [(4, 4), (2, 4), (4, 8), (1, 4), (4, 5), (8, 8), (3, 3), (4, 3)]


def step(loop, n):
    return loop / n


@st.composite
def corpus(draw, loop, n, npat=5, kind=None, silence=True, dense=None, like=None):
    """patterns of the loop's duration, made of cells on the grid, some of them off the grid"""
    tags = draw(S.tagset(draw(st.sampled_from(["drums", "any", "substr", "tuples", "clean"])) if kind is None else kind))
    if not silence:
        tags = [t for t in tags if t != "silence"] or ["Kick"]
    ss = step(loop, n)
    k = draw(st.integers(1, npat))
    out = []
    for i in range(k):
        if out and draw(st.integers(0, 2)) == 0:
            evs = [list(e) for e in draw(st.sampled_from(out))["ev"]]      # a variation of an earlier pattern
            if evs and draw(st.booleans()):
                evs.pop(draw(st.integers(0, len(evs) - 1)))
        else:
            cells = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(tags)), max_size=min(24, 2 * n)))
            evs = []
            off = draw(st.booleans())
            for c, t in cells:
                j = draw(st.sampled_from([0, 0, 0.25, -0.25, 0.375, -0.46875])) if off else 0
                d = draw(st.sampled_from([1, 1, 0.5, 2, 3.5]))
                evs.append([max(0, c + j) * ss, d * ss, 60, 100, t])
            if draw(st.integers(0, 9)) == 0:                  # all together on one step
                at = draw(st.integers(0, n - 1)) * ss
                evs += [[at, ss, 60, 100, t] for t in tags if t != "silence"]
            if draw(st.booleans()):
                evs = draw(st.permutations(evs))
        out.append({"dur": draw(st.sampled_from([loop, float(loop)])), "ev": [list(e) for e in evs]})
    return out


def states(p, n, loop):
    """the set of tags on every step of the aligned pattern"""
    ss = step(loop, n)
    out = [set() for _ in range(n)]
    for s, d, _, _, t in p["ev"]:
        x, y = s * n / loop, d * n / loop
        for i in range(max(1, int(y + 1e-9)) if t == "silence" else 1):
            k = math.floor(x + i + 0.5 + 1e-9)
            if k < n:
                out[k].add(t)
    return [frozenset(x or ["silence"]) for x in out]


def table(pats, n, loop, order):
    t = [{} for _ in range(n)]
    for p in pats:
        s = states(p, n, loop)
        for i in range(n):
            past = tuple(s[(i - k) % n] for k in range(order, 0, -1))
            row = t[i].setdefault(past, {})
            row[s[i]] = row.get(s[i], 0) + 1
    for step_ in t:
        for row in step_.values():
            tot = sum(row.values())
            for k in row:
                row[k] /= tot
    return t


def canon(tab):
    """a table of the library with its tuples as sets; two names of one state are a violation"""
    out = []
    for i, t in enumerate(tab):
        r = {}
        for past, row in t.items():
            require(all(len(set(x)) == len(x) for x in past), "a tag twice in a state of %s", past)
            k = tuple(frozenset(x) for x in past)
            require(k not in r, "step %d: the past %s has two rows", i, past)
            r[k] = {}
            for s, pr in row.items():
                require(frozenset(s) not in r[k] and len(set(s)) == len(s), "step %d after %s: state %s listed twice", i, past, s)
                r[k][frozenset(s)] = pr
        out.append(r)
    return out


def strip(s):
    return frozenset(t for t in s if t != "silence")


def follows(tab, order, n, gen):
    """None, or why the states generated cannot come from the table (silences leave no event)"""
    first = tab[order % n]
    live = {p for p in first if tuple(strip(x) for x in p) == tuple(gen[:order])}
    if not live:
        return "starts with %s, which no learned past gives" % ([sorted(map(str, x)) for x in gen[:order]],)
    for i in range(order, n):
        nxt = set()
        for p in live:
            for s, pr in tab[i].get(p, {}).items():
                if pr > 0 and strip(s) == gen[i]:
                    nxt.add((p + (s,))[1:] if order else ())
        if not nxt:
            return "step %d has %s after %s, never observed" % (i, sorted(map(str, gen[i])), [sorted(map(str, x)) for x in gen[max(0, i - order):i]])
        live = nxt
    return None


def gen_states(g, n, loop):
    ss = step(loop, n)
    require(g["dur"] == loop, "generated duration %r, want %r", g["dur"], loop)
    out = [set() for _ in range(n)]
    for s, d, p, v, t in g["ev"]:
        k = round(s / ss)
        require(abs(s - k * ss) < 1e-9 and 0 <= k < n, "generated event at %r, off the grid of %r", s, ss)
        require(abs(d - ss) < 1e-9, "generated event of length %r, step is %r", d, ss)
        require(t not in out[k], "tag %r twice on step %d", t, k)
        require(t != "silence", "a silence was generated as an event")
        out[k].add(t)
    return [frozenset(x) for x in out]

from fractions import Fraction as F
from hypothesis import strategies as st
import strat as S
from engine import Facet, require

ID = "C23"
PROBES = "desc"
NAMES = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]
TYPES = {
    "0": [0], "5": [0, 7], "maj(omit5)": [0, 4], "min(omit5)": [0, 3], "d5": [0, 6], "maj": [0, 4, 7], "min": [0, 3, 7],
    "aug": [0, 4, 8], "dim": [0, 3, 6], "sus4": [0, 5, 7], "sus2": [0, 2, 7], "7": [0, 4, 7, 10], "maj7": [0, 4, 7, 11],
    "min7": [0, 3, 7, 10], "min(maj7)": [0, 3, 7, 11], "min7(b5)": [0, 3, 6, 10], "dim7": [0, 3, 6, 9], "6": [0, 4, 7, 9],
    "min6": [0, 3, 7, 9], "add9": [0, 4, 7, 2], "min(add9)": [0, 3, 7, 2], "7sus4": [0, 5, 7, 10], "add11": [0, 4, 7, 5],
    "min(add11)": [0, 3, 7, 5], "9": [0, 4, 7, 10, 2], "b9": [0, 4, 7, 10, 1], "maj9": [0, 4, 7, 11, 2],
    "min9": [0, 3, 7, 10, 2], "11": [0, 4, 7, 10, 2, 5], "maj11": [0, 4, 7, 11, 2, 5], "min11": [0, 3, 7, 10, 2, 5],
    "13": [0, 4, 7, 10, 2, 5, 9]}


def scores(evs, dur, majmin):
    chroma = [F(0)] * 12
    for e in evs:
        if e[4] != "silence":
            chroma[e[2] % 12] += F(e[1])
    pen = F(dur) / 2
    out = {}
    for name, tones in TYPES.items():
        if majmin and name not in ("maj", "min"):
            continue
        for r in range(12):
            s = F(0)
            rel = {(r + t) % 12 for t in tones}
            for c in range(12):
                if c in rel:
                    s += F(4, 5) * chroma[c]
                    if chroma[c] <= 0:
                        s -= pen
                else:
                    s -= chroma[c]
            out[(NAMES[r], name)] = s
    return out, any(chroma)


@st.composite
def chordnotes(draw, unit):
    """a chord with changed, missing or foreign notes, or anything"""
    evs = []
    n = draw(st.integers(0, 3))
    if n:
        tones = TYPES[draw(st.sampled_from(sorted(TYPES)))]
        r = draw(st.integers(0, 11))
        d = draw(st.integers(1, 8))
        for t in tones:
            if draw(st.integers(0, 9)):
                evs.append([draw(st.sampled_from([0, 1, 0.5])), unit * (d if n < 3 else draw(st.integers(1, 8))),
                            36 + r + t + 12 * draw(st.integers(0, 4)), 80, "n"])
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 6]))):
        evs.append([draw(st.integers(0, 4)), unit * draw(st.integers(1, 8)), draw(st.one_of(st.integers(24, 100), st.integers(0, 127))), draw(st.sampled_from([80, 80, 0, 1, 127])),
                    draw(st.sampled_from(["n", "n", "x", "silence"]))])
    return draw(st.permutations(evs))


@st.composite
def case(draw):
    unit = draw(st.sampled_from([1, 5, 0.25, 1.25, 2.0 ** -7, 2.0 ** -10]))
    ps = []
    for _ in range(draw(st.integers(1, 3))):
        evs = draw(chordnotes(unit))
        end = max([e[0] + e[1] for e in evs] or [4])
        ps.append({"dur": draw(st.sampled_from([end, end + 4, 4 * end, unit])), "ev": evs})
    kw = {}
    if draw(st.integers(0, 2)) == 0:
        kw["forceMajMin"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        kw["allowDuplicates"] = draw(st.booleans())
    return {"d": ["chord", kw], "ps": ps}


EPS = F(1, 10 ** 9)


def check(c, o):
    kw = c["d"][1]
    for which in ("one", "fresh"):
        for p, got in zip(c["ps"], o[which]):
            sc, sounding = scores(p["ev"], p["dur"], kw.get("forceMajMin"))
            if not sounding:
                require(got == "silence", "chord of a silent pattern: %s", got)
                continue
            best = max(sc.values())
            lst = got if kw.get("allowDuplicates") else [got]
            require(isinstance(lst, list) and lst, "no chord for %s: %s", p["ev"], got)
            for x in lst:
                x = tuple(x)
                require(x in sc, "%s of %s is no chord that may be reported", x, p["ev"])
                require(sc[x] >= best - EPS, "%s reported for %s (duration %s) scores %s, %s scores %s", x, p["ev"], p["dur"],
                        float(sc[x]), [k for k in sc if sc[k] == best], float(best))
            if kw.get("allowDuplicates"):
                names = [x[1] for x in lst]
                require(len(set(names)) == len(names), "a chord type is reported twice: %s", lst)
                # durations that are multiples of 5/2^k make the library's float scores exact
                if all(float(e[1]) * 4 % 5 == 0 for e in p["ev"]):
                    want = {k[1] for k in sc if sc[k] == best}
                    require(set(names) == want, "types reported for %s: %s, want %s", p["ev"], lst, want)
    require(all(o["kept"]), "the pattern was changed by describing it")


@st.composite
def pure(draw):
    name = draw(st.sampled_from(sorted(TYPES)))
    r = draw(st.integers(0, 11))
    d = draw(st.sampled_from([1, 2, 4, 0.5, 3, 2.0 ** -7, 2.0 ** -10, 300]))
    evs = []
    for t in TYPES[name]:
        pc = (r + t) % 12
        for _ in range(1):
            evs.append([0, d, 24 + pc + 12 * draw(st.integers(0, 5)), draw(S.vels), "n"])
    perm = draw(st.permutations(evs))
    # the same chord: octaves moved, one note repeated as two halves
    k = draw(st.integers(0, len(evs) - 1))
    e = evs[k]
    split = evs[:k] + [[0, d / 2] + e[2:], [d / 2, d / 2, 24 + e[2] % 12] + e[3:]] + evs[k + 1:]
    return {"d": ["chord", {}], "name": name, "root": r,
            "ps": [{"dur": d, "ev": perm}, {"dur": d, "ev": split}]}


def check_pure(c, o):
    want = {(c["root"] + t) % 12 for t in TYPES[c["name"]]}
    for p, got in zip(c["ps"], o["one"]):
        require(isinstance(got, tuple) and len(got) == 2 and got[0] in NAMES and got[1] in TYPES, "%s%s recognised as %s",
                NAMES[c["root"]], c["name"], got)
        pcs = {(NAMES.index(got[0]) + t) % 12 for t in TYPES[got[1]]}
        require(pcs == want, "%s%s recognised as %s (%s)", NAMES[c["root"]], c["name"], got, p["ev"])


FACETS = [
    Facet("best-score", case(), "value", check, lambda c, o: any(x != "silence" for x in o["one"]), 4000,
          rule="at least one pattern sounds"),
    Facet("complete-chords", pure(), "value", check_pure, lambda c, o: len(c["ps"][0]["ev"]) > 1, 3000,
          rule="a chord of several notes"),
]

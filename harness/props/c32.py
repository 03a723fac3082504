import os
from hypothesis import strategies as st
from engine import Facet, fail, require

ID = "C32"
PROBES = "util"
LETTER = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
LETTERS = "CDEFGAB"
SHARPS = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
# degree and semitones of each note above the root
CHORDS = {"0": "1", "5": "1 5", "maj(omit5)": "1 3", "min(omit5)": "1 b3", "d5": "1 b5", "maj": "1 3 5", "min": "1 b3 5", "aug": "1 3 #5",
          "dim": "1 b3 b5", "sus4": "1 4 5", "sus2": "1 2 5", "7": "1 3 5 b7", "7sus4": "1 4 5 b7", "maj7": "1 3 5 7", "min7": "1 b3 5 b7",
          "min(maj7)": "1 b3 5 7", "min7(b5)": "1 b3 b5 b7", "dim7": "1 b3 b5 bb7", "6": "1 3 5 6", "min6": "1 b3 5 6",
          "add9": "1 3 5 9", "min(add9)": "1 b3 5 9", "add11": "1 3 5 11", "min(add11)": "1 b3 5 11", "add#11": "1 3 5 #11",
          "min(add#11)": "1 b3 5 #11", "9": "1 3 5 b7 9", "b9": "1 3 5 b7 b9", "maj9": "1 3 5 7 9", "min9": "1 b3 5 b7 9",
          "11": "1 3 5 b7 9 11", "maj11": "1 3 5 7 9 11", "min11": "1 b3 5 b7 9 11", "#11": "1 3 5 b7 9 #11", "maj#11": "1 3 5 7 9 #11",
          "min#11": "1 b3 5 b7 9 #11", "13": "1 3 5 b7 9 11 13"}
MAJOR = [0, 2, 4, 5, 7, 9, 11]


def pc(name):
    return (LETTER[name[0]] + name.count("#") - name.count("b")) % 12 if name[:1] in LETTER else None


def degree(d):
    """degree number and semitones above the root"""
    n = int(d.lstrip("#b"))
    return n, MAJOR[(n - 1) % 7] + 12 * ((n - 1) // 7) + d.count("#") - d.count("b")


def spelled(root, chord):
    """the names of the notes of a chord; None where it takes more than two accidentals"""
    out = []
    base = LETTER[root[0]] + root.count("#") - root[1:].count("b")
    for d in CHORDS[chord].split():
        n, semis = degree(d)
        i = LETTERS.index(root[0]) + n - 1
        acc = base + semis - (LETTER[LETTERS[i % 7]] + 12 * (i // 7))
        out.append(LETTERS[i % 7] + ("#" * acc if acc > 0 else "b" * -acc) if abs(acc) <= 2 else None)
    return out


def check_tables(c, o):
    want = {"%s%d" % (SHARPS[p % 12].lower(), p // 12 - 1): p for p in range(128)}
    require(o["note"] == want, "note table differs on %s", sorted(k for k in set(want) | set(o["note"]) if want.get(k) != o["note"].get(k)))
    for n in range(-7, 8):
        require(pc(o["key"][n]) == 7 * n % 12, "major key of %d accidentals is %s", n, o["key"][n])
        require(pc(o["minor"][n]) == (7 * n + 9) % 12, "minor key of %d accidentals is %s", n, o["minor"][n])
    require(sorted(o["key"]) == sorted(o["minor"]) == list(range(-7, 8)), "key tables")
    require(sorted(o["gm"].values()) == list(range(35, 82)), "general MIDI drums are not the notes 35 to 81, each once")
    for k in ("drum", "simple"):
        require(len(set(o[k].values())) == len(o[k]) and all(0 <= v < 128 for v in o[k].values()), "drum map %s is not one to one", k)
    require([pc(x) for x in o["names"]] == list(range(12)), "default pitch names %s", o["names"])
    for k, v in o["types"].items():
        require(k in CHORDS and v == [degree(d)[1] for d in CHORDS[k].split()], "chord type %s lists %s", k, v)
    for k in o["intervals"]:
        require(k in CHORDS, "unknown chord %s", k)
    n40 = [i for i, x in enumerate(o["p40"]) if x]
    require(len(o["p40"]) == 40 and len({o["p40"][i] for i in n40}) == 35, "35 names among 40")


names12 = st.one_of(st.just("default"), st.just(SHARPS), st.just([x.lower() for x in SHARPS]),
                    st.permutations(["do", "di", "re", "ri", "mi", "fa", "fi", "so", "si", "la", "li", "ti"]),
                    st.just(["a", "b", "c", "d", "e", "f", "g"]))


@st.composite
def pitchcase(draw):
    return {"names": draw(names12), "ps": draw(st.one_of(st.just(list(range(128))), st.lists(st.integers(0, 127), min_size=1, max_size=9)))}


def check_pitch(c, o):
    names = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"] if c["names"] == "default" else c["names"]
    n = len(names)
    want = ["%s%d" % (names[p % n], p // n - 1) for p in c["ps"]]
    require(o["got"] == want, "names %s, want %s", o["got"], want)
    require(o["kept"], "the names were modified")
    require(len(set(o["got"])) == len(set(c["ps"])), "two pitches share a name")


@st.composite
def spellcase(draw):
    return {"alt": draw(st.sampled_from(["#", "b", None])), "ps": draw(st.lists(st.integers(-24, 40), min_size=1, max_size=12))}


def b40pc(i):
    """pitch class of a base-40 number, from the arithmetic of its steps"""
    for j, l in enumerate(LETTERS):
        k = [2, 8, 14, 19, 25, 31, 37][j]
        if abs(i % 40 - k) <= 2:
            return (LETTER[l] + i % 40 - k) % 12
    return None


def check_spell(c, o):
    bad = "b" if c["alt"] != "b" else "#"
    for p, note, i in zip(c["ps"], o["note"], o["b40"]):
        require(pc(note) == p % 12, "pitch class %d is spelled %s", p, note)
        require(bad not in note and len(note) <= 2, "pitch class %d is spelled %s with %s", p, note, c["alt"])
        require(b40pc(i) == p % 12, "pitch class %d has the base-40 number %d", p, i)
        l = LETTERS[[2, 8, 14, 19, 25, 31, 37].index(min([2, 8, 14, 19, 25, 31, 37], key=lambda k: abs(k - i)))]
        require(l == note[0], "%s and base 40 %d", note, i)


@st.composite
def chordcase(draw):
    keys = sorted(k for k in CHORDS if k not in ("b9", "13"))
    return {"pc": draw(st.integers(0, 11)), "alt": draw(st.sampled_from(["#", "b"])), "type": draw(st.sampled_from(keys)),
            "oct": draw(st.integers(0, 4))}


def check_chord(c, o):
    root = (SHARPS if c["alt"] == "#" else ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"])[c["pc"]]
    want = spelled(root, c["type"])
    got = o["chord"]
    require(o["kept"], "the chord structure was modified")
    require(len(got) == len(want), "%s%s: %s, want %s", root, c["type"], got, want)
    for g, w in zip(got, want):
        require(w is None or g == w, "%s%s: %s, want %s", root, c["type"], got, want)
    require(o["shift"] == got, "%s%s, octaves up: %s, want %s", root, c["type"], o["shift"], got)


SUFFIXES = [".mid", ".txt", "d", "", ".onsets.txt", "a.mid"]
words = st.sampled_from(["a", "b", "song", "song 2", "x.y", "so", "ng", "aa", "song[1]", "q?", "*", "mid"])


@st.composite
def fname(draw):
    d = draw(st.sampled_from(["", "", "dir/", "/abs/dir/", "song/"]))
    return d + draw(words) + draw(st.sampled_from(["", ".mid", ".txt", ".onsets.txt", ".mid.txt"]))


@st.composite
def matchcase(draw):
    kw = {}
    if draw(st.booleans()):
        kw["suffix"] = draw(st.sampled_from(SUFFIXES[:5]))
    if draw(st.booleans()):
        kw["match_suffix"] = draw(st.sampled_from(SUFFIXES[:5]))
    return {"name": draw(fname()), "list": draw(st.lists(fname(), max_size=8)), "kw": kw}


def stripped(n, s):
    return n[:len(n) - len(s)] if s and n.endswith(s) else n


def check_match(c, o):
    s, m = c["kw"].get("suffix"), c["kw"].get("match_suffix")
    require(o["strip"] == stripped(c["name"], s), "%r without %r is %r", c["name"], s, o["strip"])
    base = os.path.basename(stripped(c["name"], s))
    want = [x for x in c["list"] if (m is None or x.endswith(m)) and os.path.basename(stripped(x, m)) == base]
    require(o["got"] == want, "%r %s in %s: %s, want %s", c["name"], c["kw"], c["list"], o["got"], want)
    require(o["kept"], "the list was modified")


@st.composite
def searchcase(draw):
    files = draw(st.lists(st.builds(lambda d, n, s: d + n + s, st.sampled_from(["", "", "d/", "d/", "e[1]/"]),
                                    st.sampled_from(["a", "b", "c", "x y", "b[2]"]), st.sampled_from([".mid", ".txt", ".midi"])),
                          max_size=9, unique=True))
    dirs = [x for x in ["d", "e[1]"] if any(f.startswith(x + "/") for f in files)]
    pool = dirs + files + ["absent"]
    what = draw(st.one_of(st.sampled_from(pool), st.lists(st.sampled_from(pool[:-1] or ["absent"]), max_size=4)))
    kw = {}
    if draw(st.booleans()):
        kw["suffix"] = draw(st.one_of(st.sampled_from([".mid", ".txt", "d", "i"]),
                                      st.lists(st.sampled_from([".mid", ".txt", ".midi", "i", "d"]), max_size=3)))
    return {"files": files, "what": what, "kw": kw}


def check_search(c, o):
    s = c["kw"].get("suffix")
    ok = lambda f: s is None or (any(f.endswith(x) for x in s) if isinstance(s, list) else f.endswith(s))
    want = set()
    for w in c["what"] if isinstance(c["what"], list) else [c["what"]]:
        if w in c["files"]:
            want |= {w} if ok(w) else set()
        else:
            inside = [f for f in c["files"] if f.startswith(w + "/")]
            if not inside:
                require(o["got"] == "IOError", "%s does not exist, got %s", w, o["got"])
                return
            want |= {f for f in inside if ok(f)}
    require(o["got"] != "IOError", "IOError for %s", c["what"])
    require(sorted(o["got"]) == sorted(want), "%s %s in %s: %s, want %s", c["what"], c["kw"], c["files"], o["got"], sorted(want))
    require(o["sorted"] and o["exact"], "not sorted, or files that do not exist: %s", o["got"])


FACETS = [
    Facet("tables", st.builds(lambda u: {"use": u}, st.lists(st.tuples(
        st.sampled_from(["name", "chord", "note", "describe", "drums", "midi"]), st.integers(0, 119)).map(list), max_size=5)),
          "tables", check_tables, lambda c, o: bool(c["use"]), 200, rule="the tables of gsdefs are read after being used"),
    Facet("pitch-names", pitchcase(), "pitch", check_pitch, lambda c, o: len(c["ps"]) > 1, 800, rule="more than one pitch"),
    Facet("spelling", spellcase(), "spell", check_spell, lambda c, o: any(len(n) > 1 for n in o["note"]), 2000, rule="some note is altered"),
    Facet("chords", chordcase(), "chord", check_chord, lambda c, o: len(o["chord"]) > 2, 4000, 20000, rule="three notes or more"),
    Facet("matching", matchcase(), "match", check_match, lambda c, o: bool(o["got"]) or any(c["name"] in x for x in c["list"]), 6000,
          rule="something matches, or is a near miss"),
    Facet("searching", searchcase(), "search", check_search, lambda c, o: 0 < len(o["got"]) < len(c["files"]), 4000,
          rule="some files are found, some are not"),
]

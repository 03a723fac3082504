import fnmatch
from hypothesis import strategies as st
from engine import Facet, require
from props.c03 import multitrack, encode
from props.c04 import notemap, PITCHES

ID = "C29"
PROBES = "ds"
NAMES = ["a.mid", "a1.mid", "ab.mid", "b.mid", "b2.mid", "loop 1.mid", "loop1.mid", "x.y.mid", "mid.mid", "a", "a.midi", "b.MID",
         "notes.txt", "amid", "a.mid.mid", "b.mid2.mid", "sub/a.mid", "sub/z.mid"]
GLOBS = ["*.mid", "*", "a*.mid", "a*", "b?", "b?.mid", "[ab]*", "[!a]*.mid", "loop1", "loop1.mid", "loop?1", "none*", "x.y", "x.*",
         "mid", "mid.mid", "a.mid.mid", "b.mid2", "b.mid2.mid", "*.mid.mid", "?.mid*", "?", "sub/*.mid", "sub/*", "s*/a.mid", "a.mid", "*1", "*b*"]


@st.composite
def case(draw):
    def content():
        tracks, meta = draw(multitrack(names=[None, "Drums"], pitches=PITCHES))
        return encode(tracks, meta, 480)
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
    if draw(st.booleans()):
        names += [n for n in ["a.mid", "a1.mid", "b.mid"] if n not in names]
    files = [[n, content()] for n in names]
    kw = {}
    if draw(st.integers(0, 3)):
        kw["midiGlob"] = draw(st.sampled_from(GLOBS))
    if draw(st.booleans()):
        kw["midiMap"] = draw(st.one_of(notemap(), st.just("pitchName")))
    if draw(st.booleans()):
        kw["checkForOverlapped"] = draw(st.booleans())
    vp = None
    if draw(st.booleans()):
        vp = [draw(st.sampled_from(["v", "chords"])), draw(st.sampled_from([["content"], ["tags", {}], ["density", {}]])),
              draw(st.sampled_from(["all", 1, 4, "perEvent"]))]
    again = []
    for _ in range(draw(st.integers(0, 3))):
        # how it is imported again; what happens in the folder before
        g = draw(st.sampled_from(GLOBS))
        do = draw(st.sampled_from([None, None, "write", "remove"]))
        n = draw(st.sampled_from(NAMES if do == "write" else names))
        again.append([g, draw(st.sampled_from(["import", "set"])), do, n, content() if do == "write" else None])
    return {"files": files, "kw": kw, "again": again, "slash": draw(st.booleans()), "rel": draw(st.booleans()),
            "reload": draw(st.booleans()), "vp": vp,
            "slice": [draw(st.sampled_from([1, 4, 2.5, 0.5, 16])), draw(st.booleans()),
                      draw(st.sampled_from([{}, {"supressEmptyPattern": True}, {"supressEmptyPattern": False}]))]}


def matching(files, g):
    if g.endswith(".mid"):
        g = g[:-4]
    g += ".mid"
    out = []
    for n, _ in files:
        a, b = n.split("/"), g.split("/")
        if len(a) == len(b) and all(fnmatch.fnmatchcase(x, y) for x, y in zip(a, b)):
            out.append(n)
    return sorted(out)


def check(c, o):
    globs = [[c["kw"].get("midiGlob", "*.mid"), None, None, None, None]] + c["again"]
    if c["reload"]:
        globs.append([globs[-1][0], None, None, None, None])
    require(len(o["stages"]) == len(globs), "imported %d times", len(o["stages"]))
    files = dict(c["files"])
    for (g, _, do, n, data), s in zip(globs, o["stages"]):
        if do == "write":
            files[n] = data
        elif do == "remove":
            files.pop(n, None)
        want = matching(list(files.items()), g)
        require(len(s["got"]) == len(want), "pattern %r: %d patterns, want %s", g, len(s["got"]), want)
        require(all(s["item"]), "indexing does not give the patterns")
        left = [s["alone"][n] for n in want]
        for p in s["got"]:
            require(p in left, "pattern %r: the dataset has %s, the files %s imported alone give %s", g, p, want, left)
            left.remove(p)
    require(o.get("same", True), "importMidi does not return the patterns of the dataset")
    if c["vp"]:
        require(o["vp"][0] == o["vp"][1], "viewpoint of the dataset %s, of each pattern %s", o["vp"][0], o["vp"][1])
    require(o["slices"][0] == o["slices"][1], "slices of the dataset %s, of each pattern %s", o["slices"][0], o["slices"][1])
    require(o["after"] == o["want"], "slicing left the dataset %s, want %s", o["after"], o["want"])
    require(o["kept"], "files were modified")


FACETS = [Facet("dataset", case(), "dataset", check, lambda c, o: 1 < len(o["stages"][-1]["got"]) < len(c["files"]), 2600,
                rule="two files or more match, others do not")]

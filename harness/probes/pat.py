# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import os
import copy

from gsapi import gspattern, gsio
from .common import mkpattern, mkevent, dump, dumpev, dumpevs, scratchdir

SINK = None
SCRATCH = None


def p_slice(c):
    p = mkpattern(c["p"])
    before = dump(p)
    q = p.patternFromTimeSlice(c["s"], c["l"], **c.get("kw", {}))
    r = {"slice": dump(q), "before": before, "after": dump(p)}
    _spoil(q)
    r["spoiled"] = dump(p)
    return r


def p_split(c):
    out = {}
    for mode in (True, False):
        p = mkpattern(c["p"])
        before = dumpevs(p.events)
        parts = p.splitInEqualLengthPatterns(c["l"], makeCopy=mode, supressEmptyPattern=c["sup"],
                                             **({"viewpointName": c["vpn"]} if c.get("vpn") else {}))
        out["copy" if mode else "inplace"] = [dump(x) for x in parts]
        if mode:
            out["same"] = dumpevs(p.events) == before
    return out


def p_silences(c):
    p = mkpattern(c["p"])
    kw = c["kw"]
    q = None
    before = dumpevs(p.events)
    if "silencePitch" not in kw:
        q = p.getFilledWithSilences(**kw)
    untouched = dumpevs(p.events) == before
    p.fillWithSilences(**kw)
    return {"filled": dump(p), "copy": dump(q), "untouched": untouched}


def p_overlap(c):
    p = mkpattern(c["p"])
    p.removeOverlapped(**c["kw"])
    return dump(p)


def p_align(c):
    p = mkpattern(c["p"])
    r = p.alignOnGrid(c["step"], **c["kw"])
    return {"p": dump(p), "self": r is p}


def p_quantize(c):
    p = mkpattern(c["p"])
    p.quantize(c["step"], **c["kw"])
    one = dump(p)
    p.quantize(c["step"], **c["kw"])
    return {"one": one, "two": dump(p)}


def p_legato(c):
    p = mkpattern(c["p"])
    p.applyLegato(**c["kw"])
    return dump(p)


def p_fillprev(c):
    p = mkpattern(c["p"])
    p.fillWithPreviousEvent()
    return dump(p)


PREDS = {
    "is": lambda arg: (lambda t: t == arg),
    "not": lambda arg: (lambda t: t != arg),
    "istuple": lambda arg: (lambda t: isinstance(t, tuple)),
    "all": lambda arg: (lambda t: True),
    "none": lambda arg: (lambda t: False),
}


def _indices(sub, evs):
    """positions of the very events of `evs` in the pattern `sub`, None for others"""
    out = []
    for e in sub.events:
        ix = [i for i, x in enumerate(evs) if x is e]
        out.append(ix[0] if ix else None)
    return out


def p_filter(c):
    p = mkpattern(c["p"])
    before = dump(p)
    evs = list(p.events)
    kind = c["q"][0]
    kw = {}
    if c["copy"] is not None:
        kw["makeCopy"] = c["copy"]
    out = {"before": before}
    if kind == "pitch":
        w = p.getPatternWithPitch(c["q"][1], **kw)
        o = None
    else:
        arg = c["q"][1]
        if kind == "pred":
            arg = PREDS[arg[0]](arg[1])
        kww, kwo = dict(kw), dict(kw)
        if c["exact"] is not None:
            kww["exactSearch"] = kwo["exactSearch"] = c["exact"]
        w = p.getPatternWithTags(arg, **kww)
        o = p.getPatternWithoutTags(arg, **kwo)
    out["with"] = dump(w)
    out["with_idx"] = _indices(w, evs)
    if o is not None:
        out["without"] = dump(o)
        out["without_idx"] = _indices(o, evs)
    out["after"] = dump(p)
    tags = p.getAllTags()
    pitches = p.getAllPitches()
    out["tags"] = list(tags)
    out["pitches"] = list(pitches)
    out["order_kept"] = [a is b for a, b in zip(p.events, evs)] + [len(p.events) == len(evs)]
    return out


def p_durations(c):
    p = mkpattern(c["p"])
    out = []
    for e in c["add"]:
        p.addEvent(mkevent(e))
        out.append({"dur": p.duration, "ev": dumpevs(p.events)})
    res = {"adds": out}
    q = p.copy()
    q.duration = c["setdur"]
    q.durationToLastEvent(**c["kw"])
    res["fit"] = {"dur": q.duration, "ev": dumpevs(q.events)}
    res["last"] = q.lastNoteOff()
    r = p.copy()
    r.duration = c["setdur"]
    r.timeSignature = tuple(c["ts"])
    r.durationToBar()
    res["bar"] = {"dur": r.duration, "ev": dumpevs(r.events)}
    return res


def p_remove(c):
    p = mkpattern(c["p"])
    if c["how"] == "event":
        p.removeEvent(mkevent(c["arg"]))
    elif c["how"] == "own":
        p.removeEvent(p.events[c["arg"]])
    else:
        p.removeByTags(c["arg"])
    return dump(p)


def p_identical(c):
    p = mkpattern(c["p"])
    evs = list(p.events)
    e = evs[c["own"]] if c["own"] is not None else mkevent(c["e"])
    r = p.getIdenticalEvents(e, **c["kw"])
    idx = []
    for x in r:
        idx.append([i for i, y in enumerate(evs) if y is x][0])
    return {"idx": idx, "n": len(p.events),
            "alleq": [bool(e.allTagsAreEqualWith(y)) for y in evs],
            "common": [bool(e.hasCommonTagWith(y)) for y in evs],
            "oneof": [bool(y.hasOneOfTags(c["tags"])) for y in evs],
            "istag": [bool(y.isTag(c["tags"][0])) for y in evs]}


def p_equality(c):
    a, b = mkevent(c["a"]), mkevent(c["b"])
    out = {"eeq": bool(a == b), "ene": bool(a != b), "esym": bool(b == a),
           "eother": bool(a == 5), "enother": bool(a != "x")}
    p, q = mkpattern(c["p"]), mkpattern(c["q"])
    out.update({"peq": bool(p == q), "pne": bool(p != q), "psym": bool(q == p), "pother": bool(p == 5),
                "pnother": bool(p != [])})
    return out


def p_transpose(c):
    p = mkpattern(c["p"])
    p.transpose(c["a"])
    one = dump(p)
    hashable = True
    try:
        for e in p.events:
            hash(e.tag)
    except TypeError:
        hashable = False
    p.transpose(c["b"])
    two = dump(p)
    p.transpose(-(c["a"] + c["b"]))
    return {"one": one, "two": two, "back": dump(p), "hashable": hashable}


def p_stretch(c):
    p = mkpattern(c["p"])
    p.timeStretch(c["a"])
    one = dump(p)
    p.timeStretch(c["b"])
    two = dump(p)
    p.timeStretch(1.0 / (c["a"] * c["b"]))
    return {"one": one, "two": two, "back": dump(p)}


def p_times(c):
    p = mkpattern(c["p"])
    before = dump(p)
    evs = list(p.events)

    def idx(l):
        return [[i for i, y in enumerate(evs) if y is x][0] for x in l]
    out = {"active": [], "starting": [], "starting_tol": [], "contains": [], "ends": [e.endTime() for e in evs]}
    for t in c["ts"]:
        out["active"].append(idx(p.activeEventsAtTime(t)))
        out["starting"].append(idx(p.getStartingEventsAtTime(t)))
        out["starting_tol"].append(idx(p.getStartingEventsAtTime(t, c["tol"])))
        out["contains"].append([bool(e.containsTime(t)) for e in evs])
    out["same"] = dump(p) == before
    return out


def p_steps(c):
    e = mkevent(c["e"])
    r = e.cutInSteps(c["step"])
    return {"steps": dumpevs(r), "e": dumpev(e), "shared": any(x is e for x in r)}


def p_grid(c):
    p = mkpattern(c["p"])
    before = dump(p)
    SINK.take()
    p.printASCIIGrid(**c["kw"])
    text = SINK.take()
    return {"text": text, "same": dump(p) == before}


# ---------------------------------------------------------------- copies

def _spoil(p, seen=None):
    """change everything that can be changed in a pattern"""
    seen = [] if seen is None else seen
    if any(x is p for x in seen):
        return
    seen.append(p)
    for e in p.events:
        if e.originPattern is not None:
            _spoil(e.originPattern, seen)
        e.startTime += 100
        e.duration += 7
        e.pitch += 1
        e.velocity += 1
        e.tag = ("spoiled", e.tag)
    p.events.append(gspattern.Event(1, 2, 3, 4, "added"))
    p.events.sort(key=lambda e: -e.startTime)
    p.duration += 31
    p.bpm += 1
    if isinstance(p.timeSignature, list):
        p.timeSignature[0] += 11
    p.timeSignature = (11, 8)
    p.key = "spoiled"
    p.name = "spoiled"
    p.originFilePath = "spoiled"
    p.startTime += 5
    p.resolution += 1
    for v in p.viewpoints.values():
        _spoil(v, seen)
    p.viewpoints["spoiled"] = gspattern.Pattern()


def _derive(p, how, d):
    if how == "copy":
        return [p.copy()]
    if how == "noevents":
        return [p.copyWithoutEvents()]
    if how == "pickle":
        path = gsio.toPickleFile(p, d["dir"], **({"nameSuffix": d["suffix"]} if d["suffix"] else {}))
        return [gsio.fromPickleFile(path)]
    if how == "slice":
        return [p.patternFromTimeSlice(d["s"], d["l"], d["trim"])]
    if how == "split":
        return [x for x in p.splitInEqualLengthPatterns(d["l"], makeCopy=True) if x is not None]
    if how == "with":
        return [p.getPatternWithTags(d["tag"], exactSearch=d["trim"])]
    if how == "without":
        return [p.getPatternWithoutTags(d["tag"])]
    if how == "pitch":
        return [p.getPatternWithPitch(d["pitch"])]
    if how == "silences":
        return [p.getFilledWithSilences()]
    raise KeyError(how)


def p_derive(c):
    out = {}
    with scratchdir() as d:
        c["d"]["dir"] = d
        p = mkpattern(c["p"])
        before = dump(p, True)
        q = _derive(p, c["how"], c["d"])
        out["before"] = before
        out["derived"] = [dump(x, True) for x in q]
        out["eq"] = [bool(p == x) for x in q]
        out["kept"] = dump(p, True)
        for x in q:
            _spoil(x)
        out["after_spoiling_derived"] = dump(p, True)
        p = mkpattern(c["p"])
        q = _derive(p, c["how"], c["d"])
        first = [dump(x, True) for x in q]
        _spoil(p)
        out["derived_after_spoiling_original"] = [dump(x, True) for x in q] == first
        # events copied one by one
        p = mkpattern(c["p"])
        es = [e.copy() for e in p.events]
        out["ecopies"] = dumpevs(es)
        for e in es:
            e.startTime += 1
            e.tag = "spoiled"
            if e.originPattern is not None:
                _spoil(e.originPattern)
        cs = [x for e in p.events for x in e.cutInSteps(0.5)]
        for e in cs:
            e.pitch += 1
            e.tag = "spoiled"
            if e.originPattern is not None:
                _spoil(e.originPattern)
        out["ekept"] = dump(p, True)
        # patterns created without events
        a, b = gspattern.Pattern(), gspattern.Pattern()
        a.addEvent(mkevent([1, 1, 60, 80, "x"]))
        a.viewpoints["v"] = b
        z = gspattern.Pattern()
        out["fresh"] = [dump(b, True), dump(z, True)]
        out["freshev"] = dumpev(gspattern.Event())
    return out


def p_json(c):
    out = {}
    with scratchdir() as d:
        p = mkpattern(c["p"])
        if c.get("alone"):
            p = p.viewpoints[c["alone"]]
        before = dump(p, True)
        kw = dict(c["kw"])
        d = os.path.join(d, c.get("dir") or "")
        if c.get("over"):                       # a file of that name is there, a longer one
            q = mkpattern(dict(c["over"], name=p.name))
            gsio.toJSONFile(q, d, **kw)
        path = gsio.toJSONFile(p, d, **kw)
        out["indir"] = os.path.dirname(path) == os.path.abspath(d)
        out["after"] = dump(p, True)
        with open(path) as f:
            out["complete"] = len(f.read()) > 0
        q = gsio.fromJSONFile(path, **({"conserveTuple": kw["conserveTuple"]} if "conserveTuple" in kw else {}))
        out["loaded"] = dump(q, True)
        out["before"] = before
        out["eq"] = bool(p == q)
        out["name"] = path.replace("\\", "/").rsplit("/", 1)[1]
        r = gsio.toJSONFile(q, d, nameSuffix="again", **dict((k, v) for k, v in kw.items() if k != "nameSuffix"))
        out["reloaded"] = dump(gsio.fromJSONFile(r, **({"conserveTuple": kw["conserveTuple"]} if "conserveTuple" in kw else {})), True)
    j = p.toJSONDict(**dict((k, v) for k, v in kw.items() if k == "useTagIndexing"))
    q = gspattern.Pattern().fromJSONDict(j)
    out["dict"] = dump(q, True)
    return out


def p_pickle(c):
    """patterns and plain data to files, over others, and back"""
    out = {"back": [], "paths": []}
    with scratchdir() as d:
        for name, sub, what in c["saves"]:
            folder = os.path.join(d, sub)
            if isinstance(what, dict) and "ev" in what:
                p = mkpattern(dict(what, name=name))
                path = gsio.toPickleFile(p, folder)
                before = dump(p, True)
            else:
                gsio.write2pickle(name, what, folder + "/")
                path = os.path.join(folder, name + ".pickle")
                before = what
            q = gsio.fromPickleFile(path)
            q = dump(q, True) if hasattr(q, "viewpoints") else q
            out["back"].append([before, q])
            out["paths"].append(os.path.relpath(path, d))
        left = []
        for root, _, names in os.walk(d):
            left += [os.path.relpath(os.path.join(root, n), d) for n in names]
        out["files"] = sorted(left)
        out["last"] = []
        for path in out["paths"]:
            q = gsio.fromPickleFile(os.path.join(d, path))
            out["last"].append(dump(q, True) if hasattr(q, "viewpoints") else q)
    return out

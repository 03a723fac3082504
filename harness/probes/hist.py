# -*- coding: utf-8 -*-
"""Runs a history of operations over a few patterns and reports their state after each."""
from __future__ import absolute_import, division, print_function

from gsapi import gspattern, gsio, gsdescriptors, gstransformers
from .common import mkpattern, mkevent, dump, dumpev, dumpevs, scratchdir
from .desc import mkdesc

SINK = None
SCRATCH = None


def fits(p):
    return all(e.endTime() <= p.duration for e in p.events) and p.duration > 0


def exported(p, d):
    gsio.toMidiFile(p, folderPath=d + "/", name="x")
    return dump(gsio.fromMidiFile(d + "/x.mid", "pitchName"))


def run(p, name, a):
    """(result to report, pattern to store or None); KeyError-free guards return "skip" """
    fit, n, dur = fits(p), len(p.events), p.duration
    end = max([e.endTime() for e in p.events] + [dur])
    if name == "add":
        return p.addEvent(mkevent(a[0])), None
    if name == "set":
        if not n:
            return "skip", None
        p[a[0] % n] = mkevent(a[1])
        return None, None
    if name == "edit":
        if not n:
            return "skip", None
        setattr(p[a[0] % n], a[1], a[2])
        return None, None
    if name == "setdur":
        p.duration = a[0]
        return None, None
    if name == "remove":
        return p.removeEvent(mkevent(a[0])), None
    if name == "removeown":
        if not n:
            return "skip", None
        return p.removeEvent(p[a[0] % n]), None
    if name == "removetags":
        return p.removeByTags(a[0]), None
    if name == "transpose":
        if any(not 0 <= e.pitch + a[0] <= 127 for e in p.events):
            return "skip", None
        return p.transpose(a[0]), None
    if name == "stretch":
        if end * a[0] > 64 or (a[0] < 1 and end < 1):
            return "skip", None
        return p.timeStretch(a[0]), None
    if name == "quantize":
        return p.quantize(a[0], **a[1]), None
    if name == "align":
        if end / a[0] > 100 or n > 30:
            return "skip", None
        return p.alignOnGrid(a[0]) is p, None
    if name == "legato":
        return p.applyLegato(**a[0]) if fit else "skip", None
    if name == "previous":
        return p.fillWithPreviousEvent() if fit else "skip", None
    if name == "silences":
        if not fit or n > 24 or (a[0].get("maxSilenceTime") and dur / a[0]["maxSilenceTime"] > 40):
            return "skip", None
        return p.fillWithSilences(**a[0]), None
    if name == "overlaps":
        return p.removeOverlapped(**a[0]), None
    if name == "reorder":
        return p.reorderEvents(), None
    if name == "fitdur":
        return p.durationToLastEvent(**a[0]), None
    if name == "bar":
        return p.durationToBar(), None
    # queries
    if name == "last":
        return p.lastNoteOff(), None
    if name == "active":
        return dumpevs(p.activeEventsAtTime(a[0])), None
    if name == "starting":
        return dumpevs(p.getStartingEventsAtTime(a[0], a[1])), None
    if name == "tags":
        return list(p.getAllTags()), None
    if name == "pitches":
        return list(p.getAllPitches()), None
    if name == "identical":
        if not n:
            return "skip", None
        return [dumpev(p[a[0] % n]), dumpevs(p.getIdenticalEvents(p[a[0] % n], **a[1]))], None
    if name == "text":
        return [len(p), repr(p).count("\n"), [dumpev(p[i]) for i in range(n)]], None
    if name == "list":
        return gspattern.patternToList(p), None
    if name == "grid":
        if dur > 64 or any(not isinstance(e.tag, (type(""), type(u""))) for e in p.events):
            return "skip", None
        return p.printASCIIGrid(a[0]), None
    if name == "describe":
        if a[0][0] == "sync" and (dur != int(dur) or dur > 64 or dur < 1):
            return "skip", None
        if a[0][0] == "sync":
            mkdesc(a[0]).getDescriptorForPattern(p)
            return None, None
        v = mkdesc(a[0]).getDescriptorForPattern(p)
        return list(v) if isinstance(v, list) else v, None
    if name == "chordify":
        if not n or n > 24:
            return "skip", None
        gstransformers.Chordify(p).transformPattern()
        return None, None
    if name == "midi":
        if any(e.velocity < 1 or not isinstance(e.pitch, int) for e in p.events) or any(ord(x) > 255 for x in p.name or ""):
            return "skip", None
        with scratchdir() as d:
            exported(p, d)
        return None, None
    # operations that return patterns
    if name == "copy":
        return None, p.copy()
    if name == "empty":
        return None, p.copyWithoutEvents()
    if name == "slice":
        return None, p.patternFromTimeSlice(a[0], a[1], a[2])
    if name == "split":
        if not fit or dur / a[0] > 60:
            return "skip", None
        parts = p.splitInEqualLengthPatterns(a[0])
        return [dump(x) for x in parts], parts[a[1] % len(parts)] if parts else None
    if name == "with":
        return None, p.getPatternWithTags(a[0], exactSearch=a[1])
    if name == "without":
        return None, p.getPatternWithoutTags(a[0], exactSearch=a[1])
    if name == "pitch":
        return None, p.getPatternWithPitch(a[0])
    if name == "filled":
        if not fit or n > 24 or (a[0].get("maxSilenceTime") and dur / a[0]["maxSilenceTime"] > 40):
            return "skip", None
        return None, p.getFilledWithSilences(**a[0])
    if name == "json":
        with scratchdir() as d:
            return None, gsio.fromJSONFile(gsio.toJSONFile(p, d, useTagIndexing=a[0], conserveTuple=True), conserveTuple=True)
    if name == "pickle":
        with scratchdir() as d:
            return None, gsio.fromPickleFile(gsio.toPickleFile(p, d))
    if name == "view":
        if not fit or (isinstance(a[2], int) and dur / a[2] > 60):
            return "skip", None
        v = p.generateViewpoint(a[0], descriptor=mkdesc(a[1]), sliceType=a[2])
        return blind(dump(v, True, (p,))), None
    raise KeyError(name)


def blind(r):
    """the values of a viewpoint refer to the very events of the pattern or to the pattern itself: these change with it"""
    r.pop("eo", None)
    for v in r["vp"].values():
        blind(v)
    return r


def seen(p):
    r = dump(p, True)
    for v in r["vp"].values():
        blind(v)
    return r


def p_history(c):
    pats = [mkpattern(x) for x in c["init"]]
    out = {"first": [seen(p) for p in pats], "steps": []}
    for name, src, dst, args in c["ops"]:
        ret, new = run(pats[src], name, args)
        step = {"ret": ret}
        step["after"] = [seen(p) for p in pats]
        if new is not None:
            step["new"] = seen(new)
            step["same"] = bool(new == pats[src])
            pats[dst] = new
        out["steps"].append(step)
    out["eq"] = [[bool(p == q) for q in pats] for p in pats]
    out["last"] = [seen(p) for p in pats]
    return out

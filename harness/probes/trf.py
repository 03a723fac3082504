# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import random

from gsapi import gstransformers
from .common import mkpattern, dump, dumpevs

SINK = None
SCRATCH = None


def p_density(c):
    random.seed(c["seed"])
    p = mkpattern(c["p"])
    before = dump(p)
    kw = {}
    if "mode" in c:
        kw["mode"] = c["mode"]
    if "n" in c:
        kw["numSteps"] = c["n"]
    t = gstransformers.AgnosticDensity(**kw)
    res = []
    if c["configure"]:
        t.configure({"inputPattern": p})
    elif c["plain"]:
        res.append(t.transformPattern(p, {}))
    for i, s in enumerate(c["settings"]):
        give = c["every"] or (not c["configure"] and not c["plain"] and i == 0)
        res.append(t.transformPattern(p if give else None, {"normalizedDensities": dict(s)}))
        if c["scribble"] and res[-1].events:
            keep = res[-1]
            res[-1] = keep.copy()
            keep.events[0].startTime += 1000       # a caller may do what it likes with a result
            keep.events[0].tag = "scribble"
            del keep.events[1:]
    return {"res": [dump(r) for r in res], "kept": dump(p) == before, "before": before}


def p_density_others(c):
    """a transformer given several patterns, changed ones, or the current one again"""
    random.seed(c["seed"])
    pats = [mkpattern(p) for p in c["pats"]]
    kw = {"mode": c["mode"]} if "mode" in c else {}
    t = gstransformers.AgnosticDensity(numSteps=c["n"], **kw)
    out, cur = [], None
    for op, k, s in c["steps"]:
        p = pats[k]
        if op == "edit":                              # the caller's own pattern changes, and is given again
            for e in p.events[:1]:
                e.pitch = (e.pitch + c["edit"] * 2) % 128
                e.startTime = 0
        elif op == "copy":
            p = p.copy()
        now = brief(p)
        anew = op == "configure" or op != "none" and now != cur
        if anew:
            cur = now
        before = dump(p)
        if op == "configure":
            t.configure({"inputPattern": p})
        r = t.transformPattern(None if op in ("none", "configure") else p, {"normalizedDensities": dict(s)})
        out.append([None if r is None else dump(r), now, anew, dump(p) == before])
    return {"res": out}


def brief(p):
    return {"dur": p.duration, "ev": sorted(dumpevs(p.events), key=repr)}


def p_chordify(c):
    p = mkpattern(c["p"])
    before = dump(p)
    t = gstransformers.Chordify(p)
    out = {"before": before, "after": dump(p), "num": t.numChords, "dur": t.duration, "outdur": t.outputPattern.duration,
           "same": t.events is t.outputPattern.events}
    out["fields"] = dump(t.outputPattern)
    del out["fields"]["ev"]
    out["chords"] = [{"s": e.startTime, "d": e.duration, "c": [list(x) for x in e.components], "t": e.tag} for e in t.events]
    repr(t.outputPattern.events)
    return out

# -*- coding: utf-8 -*-
"""The workflows of the README and the notebooks, observed after every step."""
from __future__ import absolute_import, division, print_function

import os

from gsapi import gsdataset, gsdescriptors, gsio, gsstyles
from .common import dump, scratchdir, writebytes
from . import hist

SINK = None
SCRATCH = None


def p_style(c):
    with scratchdir() as d:
        src, dst = os.path.join(d, "in"), os.path.join(d, "out")
        os.makedirs(src)
        for name, octets in c["files"]:
            writebytes(os.path.join(src, name), octets)
        kw = {"midiMap": c["map"]} if c["given"] else {}
        data = gsdataset.Dataset(midiFolder=src, midiGlob="*.mid", **kw)
        out = {"imported": {}, "parts": {}, "density": {}, "view": {}}
        density = gsdescriptors.Density()
        every = []
        for p in data.patterns:
            out["imported"][p.name] = dump(p)
            parts = p.splitInEqualLengthPatterns(c["loop"])
            every += parts
            out["parts"][p.name] = [dump(x) for x in parts]
            out["density"][p.name] = [dict((t, density.getDescriptorForPattern(x.getPatternWithTags(t))) for t in x.getAllTags()) for x in parts]
            v = p.generateViewpoint("density", density, c["loop"])
            out["view"][p.name] = [[e.startTime, e.duration, e.tag] for e in v.events]
        if not every:
            return out
        style = gsstyles.MarkovStyle(order=c["order"], numSteps=c["n"], loopDuration=c["loop"])
        style.generateStyle(every)
        out["after"] = [dump(x) for x in every]
        new = style.generatePattern(seed=c["seed"])
        out["new"] = dump(new)
        path = os.path.join(d, "style.json")
        style.saveToJSON(path)
        other = gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
        other.loadFromJSON(path)
        out["reloaded"] = dump(other.generatePattern(seed=c["seed"]))
        path = gsio.toMidiFile(new, midiMap=c["map"], folderPath=dst, name="new")
        out["back"] = dump(gsio.fromMidiFile(path, c["map"]))
        again = gsdataset.Dataset(midiFolder=dst, midiGlob="*.mid", midiMap=c["map"])
        out["again"] = [dump(p) for p in again.patterns]
        return out


def p_harmony(c):
    with scratchdir() as d:
        path = os.path.join(d, "chords.mid")
        writebytes(path, c["bytes"])
        p = gsio.fromMidiFile(path, "pitchName")
        out = {"first": hist.seen(p), "steps": []}
        if not p.events:
            return out
        start = min(e.startTime for e in p.events)
        low = min(e.pitch for e in p.getStartingEventsAtTime(start))
        out["low"] = low
        for name, args in [["transpose", [60 - low]]] + c["steps"]:
            ret = hist.run(p, name, args)[0]
            out["steps"].append({"op": [name, args], "ret": ret, "after": hist.seen(p)})
        path = gsio.toMidiFile(p, folderPath=d, name="normal")
        out["back"] = dump(gsio.fromMidiFile(path, "pitchName"))
        return out

# -*- coding: utf-8 -*-
"""Histories over the whole library: the same call before and after them."""
from __future__ import absolute_import, division, print_function

import json
import logging
import os
import random
import re
import sys

import codec
from gsapi import (gsdataset, gsdefs, gsdescriptors, gsextractors, gsio, gslog, gspattern, gsstyles, gstransformers, gsutil,
                   midiio)
from . import common, desc, ds, midi, pat, sty, trf, util
from .common import dump, dumpev, mkpattern, scratchdir, writebytes, readbytes

SINK = None
SCRATCH = None
MODS = {"desc": desc, "ds": ds, "midi": midi, "pat": pat, "sty": sty, "trf": trf, "util": util}
FILE = [77, 84, 104, 100, 0, 0, 0, 6, 0, 1, 0, 1, 0, 96, 77, 84, 114, 107, 0, 0, 0, 48,
        0, 0xFF, 3, 4, 75, 105, 99, 107, 0, 0xFF, 0x58, 4, 3, 2, 24, 8, 0, 0xFF, 0x59, 2, 0xFE, 1,
        0, 0x99, 36, 100, 48, 0x89, 36, 0, 0, 0x90, 38, 90, 24, 38, 0, 0, 60, 80, 96, 60, 0, 0, 0xFF, 0x2F, 0]
FILE[21] = len(FILE) - 22


def prepare():
    for m in MODS.values():
        m.SINK, m.SCRATCH = common.SINK, common.SCRATCH


def text(v):
    t = json.dumps(codec.enc(v), sort_keys=True)
    return re.sub(r"gsv-[^/\"\\]*/tmp[^/\"\\]*", "DIR", t)


def call(name, op, case):
    random.seed(54321)
    try:
        return text(getattr(MODS[name], "p_" + op)(codec.dec(codec.enc(case))))
    except Exception as e:
        return "raised %s" % type(e).__name__


def spoil(v):
    """a caller does what it likes with what it was given"""
    if isinstance(v, list):
        v.append("spoilt")
        v.reverse()
    elif isinstance(v, dict):
        v.clear()
    elif isinstance(v, gspattern.Pattern):
        for e in v.events:
            e.tag, e.pitch, e.startTime = "spoilt", 1, e.startTime + 7
        v.events[:] = v.events[:1]
        v.duration, v.name, v.bpm, v.key = 99, "spoilt", 1, "spoilt"
        v.viewpoints["spoilt"] = v
    elif isinstance(v, gspattern.Event):
        v.tag, v.pitch, v.startTime = "spoilt", 1, 7
    return v


def b_chords():
    out = []
    for t in sorted(gsdefs.chordIntervals):
        for r in (2, 14, 38):
            c = gsutil.makeChord(r, gsdefs.chordIntervals[t])
            out.append(list(c))
            spoil(c)
    return out


def b_names():
    return [[gsutil.pitch2name(n, gsdefs.defaultPitchNames) for n in range(0, 128, 5)],
            [[gsutil.pc2note(n, a), gsutil.pc2base40(n, a)] for a in "#b" for n in range(12)]]


def b_defaults():
    out = [dumpev(gspattern.Event())]
    for i in range(2):
        p = gspattern.Pattern()
        out.append([dump(p), sorted(p.viewpoints), p.originPattern is None])
        p.addEvent(gspattern.Event(0, 1, 60, tag="x"))
        spoil(p)
    for i in range(2):
        s = midiio.Pattern()
        t = midiio.Track()
        out.append([len(s), len(t), s.resolution, s.frmt, s.tick_relative, t.tick_relative])
        t.append(midiio.NoteOnEvent())
        s.append(t)
        e = midiio.NoteOnEvent()
        out.append([e.tick, e.channel, list(e.data)])
        e.pitch = 77
        e.velocity = 3
    return out


SAMPLE = {"dur": 4, "ev": [[0, 1, 36, 100, "Kick"], [0.5, 0.5, 38, 90, "Snare"], [2, 1, 42, 80, "snare"], [2, 2, 36, 70, "Kick"]]}


def b_patterns():
    p = mkpattern(SAMPLE)
    out = []
    q = p.copyWithoutEvents()
    spoil(q)
    for f in (lambda: p.copy(), lambda: p.patternFromTimeSlice(0, 2), lambda: p.getPatternWithTags(["Kick"]),
              lambda: p.getPatternWithoutTags(["Kick"]), lambda: p.getFilledWithSilences()):
        q = f()
        out.append(dump(q))
        if isinstance(q, gspattern.Pattern):
            spoil(q)
    out.append([dump(x) for x in p.splitInEqualLengthPatterns(2)])
    out.append(sorted(p.getAllTags(), key=repr))
    j = p.toJSONDict()
    out.append(j)
    out.append(dump(gspattern.Pattern().fromJSONDict(j)))
    out.append(dump(p))
    return out


def b_midi():
    out = []
    with scratchdir() as d:
        path = os.path.join(d, "song.mid")
        writebytes(path, FILE)
        for kw in ({}, {"noteToTagMap": gsdefs.simpleDrumMap}, {"noteToTagMap": "pitchName"},
                   {"noteToTagMap": {"low": 36, "ten": [("*", 10), ("*", 9)], "snare": (38, "*")}},
                   {"tracksToGet": ["Kick"]}, {"tracksToGet": [0]}, {"filterOutNotMapped": False, "noteToTagMap": gsdefs.verySimpleDrumMap}):
            p = gsio.fromMidiFile(path, **kw)
            out.append(dump(p))
            spoil(p)
        p = mkpattern(SAMPLE)
        for kw in ({}, {"midiMap": gsdefs.simpleDrumMap}):
            f = gsio.toMidiFile(p, folderPath=d, name="out", **kw)
            out.append(readbytes(f))
            os.remove(f)
        p.name = "p"
        for tuples in (False, True):
            out.append(dump(gsio.fromJSONFile(gsio.toJSONFile(p, d, conserveTuple=tuples), conserveTuple=tuples)))
        gsio.toPickleFile(p, d)
        out.append(dump(gsio.fromPickleFile(os.path.join(d, "p.pickle"))))
        x = gsdataset.Dataset(midiFolder=d)
        out.append([dump(q) for q in x.patterns])
        for q in x.patterns:
            spoil(q)
    return out


def b_descriptors():
    out = []
    for x in (SAMPLE, {"dur": 4, "ev": [[0, 4, 60, 80, "C4"], [0, 4, 64, 80, "E4"], [1, 3, 67, 80, "silence"]]}):
        p = mkpattern(x)
        for d in (gsdescriptors.Density, gsdescriptors.NumberOfTags, gsdescriptors.Syncopation, gsdescriptors.Chord,
                  lambda: gsdescriptors.Chord(allowDuplicates=True)):
            v = d().getDescriptorForPattern(p)
            out.append(repr(v))
            spoil(v)
        v = gsextractors.DensityDrumSpace().getFeatureSpace(p)
        out.append(sorted(v.items()))
        spoil(v)
        p.generateViewpoint("chords", gsdescriptors.Chord(), 2)
        v = p.viewpoints["chords"]
        out.append([repr(e.tag) for e in v.events])
        spoil(v)
    return out


def b_styles():
    m = gsstyles.MarkovStyle(order=2, numSteps=8, loopDuration=4)
    m.generateStyle([mkpattern(SAMPLE), mkpattern(dict(SAMPLE, ev=SAMPLE["ev"][1:]))])
    t = m.markovChain.transitionTable
    out = [text(t)]
    random.seed(3)
    for i in range(3):
        p = m.generatePattern(seed=i + 3)
        out.append(dump(p))
        spoil(p)
    return out


def b_transformers():
    random.seed(4)
    out = []
    for n in range(2):
        t = gstransformers.AgnosticDensity(numSteps=4)
        for s in ({"Kick": 0.5}, {"Kick": 2, "Snare": 1.5}, {}):
            p = t.transformPattern(mkpattern(SAMPLE) if not out or s.get("Kick") == 0.5 else None, {"normalizedDensities": dict(s)})
            out.append(dump(p))
            spoil(p)
    c = gstransformers.Chordify(mkpattern(SAMPLE))
    out.append([[e.startTime, e.duration, [list(x) for x in e.components], e.tag] for e in c.events])
    return out


BATTERY = [("chords", b_chords), ("names", b_names), ("defaults", b_defaults), ("patterns", b_patterns), ("midi", b_midi),
           ("descriptors", b_descriptors), ("styles", b_styles), ("transformers", b_transformers)]


def tables():
    r = {}
    for n in dir(gsdefs):
        v = getattr(gsdefs, n)
        if not n.startswith("_") and isinstance(v, (list, dict, tuple, str, int, float)):
            r[n] = v
    return text(r)


def battery(only=None):
    out = {"tables": tables()}
    for n, f in BATTERY:
        if only and n not in only:
            continue
        random.seed(99)
        try:
            out[n] = text(f())
        except Exception as e:
            out[n] = "raised %s" % type(e).__name__
    return out


BASE = []


def wrong(kind, n):
    """a call that cannot succeed, or may not"""
    with scratchdir() as d:
        path = os.path.join(d, "bad.mid")
        p = mkpattern(SAMPLE)
        if kind == "nofile":
            gsio.fromMidiFile(path)
        elif kind == "truncated":
            writebytes(path, FILE[:14 + n % (len(FILE) - 14)])
            gsio.fromMidiFile(path, gsdefs.simpleDrumMap)
        elif kind == "garbage":
            writebytes(path, FILE[:22] + [(n * 7 + i * i) % 256 for i in range(FILE[21])])
            gsio.fromMidiFile(path)
        elif kind == "badmap":
            writebytes(path, FILE)
            gsio.fromMidiFile(path, ["low", 5, None][n % 3])
        elif kind == "badtrack":
            writebytes(path, FILE)
            gsio.fromMidiFile(path, tracksToGet=[[n + 5], ["nothing"], [None]][n % 3])
        elif kind == "export":
            p.events[n % 4].pitch = [None, "x", 300, -1][n % 4]
            gsio.toMidiFile(p, gsdefs.simpleDrumMap, d, "x")
        elif kind == "badtag":
            p.getPatternWithTags(n)
        elif kind == "alt":
            gsutil.pc2note(n, "x")
        elif kind == "chord":
            gsutil.makeChord("C", gsdefs.chordIntervals[sorted(gsdefs.chordIntervals)[n % 30]])
        elif kind == "unbuilt":
            gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4).generatePattern(seed=1)
        elif kind == "json":
            writebytes(path, [123, 34, n % 128])
            gsio.fromJSONFile(path)
        elif kind == "viewpoint":
            p.generateViewpoint("v")
        elif kind == "density":
            gstransformers.AgnosticDensity().transformPattern(p, {"normalizedDensities": None})
        elif kind == "descriptor":
            p.events[n % 4].pitch = None
            gsdescriptors.Chord().getDescriptorForPattern(p)
        elif kind == "split":
            p.splitInEqualLengthPatterns([0, -1, None][n % 3]) if n % 3 == 2 else p.splitInEqualLengthPatterns("a")


LOGGERS = ("gsapi", "gsapi.gspattern", "gsapi.gsio", "gsapi.gsdataset", "gsapi.gsstyles", "gsapi.gstransformers", "gsapi.gsdescriptors")


def loud(level, colour):
    """every message of the library is made and written out"""
    gslog.setUseColoredOutput(colour)
    gslog.setDefaultLoggingLevel(level)
    for n in LOGGERS:
        logging.getLogger(n).setLevel(level)
    logging.disable(logging.NOTSET)


def quiet():
    logging.disable(logging.CRITICAL)


def spots(v):
    """the places of a value that hold a number, or something that does"""
    if isinstance(v, bool):
        return []
    return [k for k in (range(len(v)) if isinstance(v, list) else sorted(v, key=repr) if isinstance(v, dict) else [])
            if isinstance(v[k], (int, float)) and not isinstance(v[k], bool) or spots(v[k])]


def twisted(x, n, by):
    """the same call with one of its numbers altered"""
    case = codec.dec(codec.enc(x[2]))
    v, at = case, spots(case)
    while at:
        k = at[n % len(at)]
        n = (n // len(at)) * 7 + n
        if isinstance(v[k], (int, float)):
            v[k] += by
            break
        v, at = v[k], spots(v[k])
    return [x[0], x[1], case]


def crossed(x, other, n):
    """the same call with one part taken from another call"""
    case = codec.dec(codec.enc(x[2]))
    if isinstance(case, dict) and isinstance(other, dict):
        ks = sorted(k for k in case if k in other and other[k] != case[k])
        if ks:
            case[ks[n % len(ks)]] = other[ks[n % len(ks)]]
    return [x[0], x[1], case]


class untouched(object):
    """A second copy of the library that has done nothing yet, with the probes that use it; the first is put back."""

    def __enter__(self):
        self.kept = dict((k, sys.modules.pop(k)) for k in list(sys.modules)
                         if k.split(".")[0] in ("gsapi", "probes") and k != "gsapi.bassmine")
        logging.getLogger("gsapi").handlers[:] = []
        import gsapi  # noqa: F401
        from probes import common as c, mem as m
        m.SINK = c.SINK = SINK
        m.SCRATCH = c.SCRATCH = SCRATCH
        m.prepare()
        return m

    def __exit__(self, *a):
        for k in list(sys.modules):
            if k.split(".")[0] in ("gsapi", "probes") and k != "gsapi.bassmine":
                del sys.modules[k]
        sys.modules.update(self.kept)
        return False


def differ(x, a, b):
    if a == b:
        return None
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return [x[0], x[1], a[max(0, i - 60):i + 200], b[max(0, i - 60):i + 200]]


def p_fresh(c):
    with untouched() as m:
        first = [m.call(*x) for x in c["pins"]]
    with untouched() as m:
        for o in c["ops"]:
            if o[0] == "twist":
                m.call(*twisted(c["pins"][o[1] % len(c["pins"])], o[2], o[3]))
            elif o[0] == "cross":
                m.call(*crossed(c["pins"][o[1] % len(c["pins"])], o[2][2], o[3]))
            else:
                m.call(*o)
            if SINK is not None:
                SINK.take()
        again = [m.call(*x) for x in c["pins"]]
    return {"pins": [differ(x, a, b) for x, a, b in zip(c["pins"], first, again)],
            "ok": [x for x in first if not x.startswith("raised")] != []}


def p_history(c):
    if not BASE:
        prepare()
        BASE.append(battery())
    out = {"pins": [], "raised": 0}
    first = [call(*x) for x in c["pins"]]
    for o in c["ops"]:
        if o[0] == "wrong":
            try:
                wrong(o[1], o[2])
            except Exception:
                out["raised"] += 1
        elif o[0] == "log":
            loud(o[1], o[2])
        else:
            call(*o)
        if SINK is not None:
            SINK.take()
    again = [call(*x) for x in c["pins"]]
    quiet()
    out["pins"] = [differ(x, a, b) for x, a, b in zip(c["pins"], first, again)]
    now = battery(c.get("only"))
    out["battery"] = []
    for k in now:
        x = differ([k, ""], BASE[0][k], now[k])
        if x:
            out["battery"].append([k] + x[2:])
    out["ok"] = [x for x in first if not x.startswith("raised")] != []
    out["base_raised"] = sorted(k for k in BASE[0] if BASE[0][k].startswith("raised"))
    return out

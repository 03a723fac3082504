# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import os

from gsapi import gsutil, gsdefs, gsio
from gsapi.gspattern import Event, Pattern
from gsapi.gsdescriptors import Chord
from .common import scratchdir, writebytes

SINK = None
SCRATCH = None


def p_tables(c):
    for op, n in c["use"]:
        if op == "name":
            gsutil.pitch2name(n, gsdefs.defaultPitchNames)
        elif op == "chord":
            keys = sorted(gsdefs.chordIntervals)
            gsutil.makeChord(gsutil.pc2base40(n), gsdefs.chordIntervals[keys[n % len(keys)]])
        elif op == "note":
            gsutil.pc2note(n)
        else:
            p = Pattern(events=[Event(i, 1, pitch=n + q) for i, q in enumerate((0, 4, 7))], timeSignature=(4, 4))
            if op == "describe":
                Chord().getDescriptorForPattern(p)
            else:
                with scratchdir() as d:
                    path = os.path.join(d, "x.mid")
                    gsio.toMidiFile(p, gsdefs.simpleDrumMap if op == "drums" else gsdefs.defaultPitchNames, d, "x")
                    gsio.fromMidiFile(path, gsdefs.simpleDrumMap)
    return {"note": gsdefs.noteMap, "key": gsdefs.midiKey, "minor": gsdefs.midiMinorKey, "gm": gsdefs.generalMidiDrums,
            "drum": gsdefs.simpleDrumMap, "simple": gsdefs.verySimpleDrumMap, "names": gsdefs.defaultPitchNames,
            "types": gsdefs.chordTypes, "intervals": gsdefs.chordIntervals, "p40": gsdefs.pitch40}


def p_pitch(c):
    names = list(gsdefs.defaultPitchNames if c["names"] == "default" else c["names"])
    keep = list(names)
    return {"got": [gsutil.pitch2name(p, names) for p in c["ps"]], "kept": names == keep}


def p_spell(c):
    kw = {} if c["alt"] is None else {"alt": c["alt"]}
    return {"note": [gsutil.pc2note(p, **kw) for p in c["ps"]], "b40": [gsutil.pc2base40(p, **kw) for p in c["ps"]]}


def p_chord(c):
    root = gsutil.pc2base40(c["pc"], c["alt"])
    iv = list(gsdefs.chordIntervals[c["type"]])
    return {"chord": gsutil.makeChord(root, iv), "kept": iv == gsdefs.chordIntervals[c["type"]], "root": root,
            "shift": gsutil.makeChord(root + 40 * c["oct"], iv)}


def p_match(c):
    l = list(c["list"])
    return {"got": gsutil.match_files(c["name"], l, **c["kw"]), "kept": l == c["list"],
            "strip": gsutil.strip_suffix(c["name"], c["kw"].get("suffix"))}


def p_search(c):
    with scratchdir() as d:
        d = os.path.realpath(d)
        for n in c["files"]:
            p = os.path.join(d, *n.split("/"))
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            writebytes(p, [])
        what = c["what"]
        full = [os.path.join(d, *w.split("/")) if w else d for w in (what if isinstance(what, list) else [what])]
        arg = full if isinstance(what, list) else full[0]
        try:
            got = gsutil.search_files(arg, **c["kw"])
        except IOError:
            return {"got": "IOError"}
        return {"got": [os.path.relpath(g, d).replace(os.sep, "/") for g in got], "exact": all(os.path.exists(g) for g in got),
                "sorted": got == sorted(got)}

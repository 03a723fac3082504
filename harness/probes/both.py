# -*- coding: utf-8 -*-
"""The calls of the other probes, and files handed from one interpreter to another."""
from __future__ import absolute_import, division, print_function

import importlib
import os

from gsapi import gsio, gspattern, gsstyles
from .common import mkpattern, dump, scratchdir, readbytes, writebytes
from . import sty

SINK = None
SCRATCH = None
EXT = {"json": "a.json", "midi": "a.mid", "markov": "s.json", "database": "d.json"}


def p_call(c):
    name, op, case = c
    mod = importlib.import_module("probes." + name)
    mod.SINK, mod.SCRATCH = SINK, SCRATCH
    try:
        return {"ok": getattr(mod, "p_" + op)(case)}
    except Exception as e:
        return {"raised": type(e).__name__}


def look(kind, x):
    if kind in ("json", "midi"):
        r = dump(x, True)
        r["path"] = None
        return r
    if kind == "markov":
        return [sty.chain(x.markovChain), x.isBuilt()]
    return [[dump(p, True) for p in x.patternList], x.isBuilt()]


def p_save(c):
    kind = c["kind"]
    with scratchdir() as d:
        path = os.path.join(d, EXT[kind])
        if kind == "json":
            x = mkpattern(c["p"])
            gsio.toJSONFile(x, d, useTagIndexing=c["tagidx"], conserveTuple=True)
            path = os.path.join(d, os.listdir(d)[0])
        elif kind == "midi":
            x = mkpattern(c["p"])
            path = gsio.toMidiFile(x, folderPath=d, name="a")
        elif kind == "markov":
            x, m = sty.make(c)
            if c["built"]:
                sty.learn(x, c, [mkpattern(p) for p in c["pats"]])
            x.saveToJSON(path)
        else:
            x = gsstyles.DatabaseStyle(c["ord"])
            x.generateStyle([mkpattern(p) for p in c["pats"]])
            x.saveToJSON(path)
        return {"obj": look(kind, x), "bytes": readbytes(path)}


def p_load(c):
    kind = c["kind"]
    with scratchdir() as d:
        path = os.path.join(d, EXT[kind])
        writebytes(path, c["bytes"])
        if kind == "json":
            x = gsio.fromJSONFile(path, conserveTuple=True)
        elif kind == "midi":
            x = gsio.fromMidiFile(path)
        elif kind == "markov":
            x, m = sty.make(c)
            x.loadFromJSON(path)
        else:
            x = gsstyles.DatabaseStyle(c["ord"])
            x.loadFromJSON(path)
        return look(kind, x)

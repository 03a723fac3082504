# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import os

from gsapi import gsdataset, gsio, gsdefs
from .common import dump, scratchdir, writebytes, readbytes
from .desc import mkdesc

SINK = None
SCRATCH = None


def pair(x, y):
    """two dumps that should be equal; they can be long"""
    return [len(x), len(x)] if x == y else [x, y]


def snapshot(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d).replace(os.sep, "/")] = readbytes(p)
    return out


def p_dataset(c):
    with scratchdir() as d:
        d = os.path.realpath(d)
        for name, octets in c["files"]:
            path = os.path.join(d, *name.split("/"))
            if not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            writebytes(path, octets)
        before = snapshot(d)
        kw = dict(c["kw"])
        imp = {"noteToTagMap": kw.get("midiMap", gsdefs.simpleDrumMap), "tracksToGet": [],
               "checkForOverlapped": kw.get("checkForOverlapped", True)}

        def stage():
            alone = dict((n, dump(gsio.fromMidiFile(os.path.join(d, *n.split("/")), **imp), True)) for n in snapshot(d) if n.endswith(".mid"))
            n = len(ds.patterns)
            return {"got": [dump(p, True) for p in ds.patterns], "alone": alone,
                    "item": [ds[i] is p for i, p in enumerate(ds.patterns)] + [ds[i - n] is p for i, p in enumerate(ds.patterns)] +
                            [x is y for x, y in zip(ds, ds.patterns)] + [len(list(ds)) == n, ds[1:] == ds.patterns[1:]]}

        out = {}
        folder = d
        if c["rel"]:
            folder = os.path.relpath(d, os.path.realpath(os.getcwd()))
        if c["slash"]:
            folder += os.sep
        ds = gsdataset.Dataset(midiFolder=folder, **kw)
        out["stages"] = [stage()]
        for g, how, do, n, data in c["again"]:
            path = None if n is None else os.path.join(d, *n.split("/"))
            if do == "write":
                if not os.path.isdir(os.path.dirname(path)):
                    os.makedirs(os.path.dirname(path))
                writebytes(path, data)
            elif do == "remove" and os.path.exists(path):
                os.remove(path)
            if do:
                before = snapshot(d)
            if how == "set":
                ds.setMidiGlob(g)
                got = ds.importMidi()
            else:
                got = ds.importMidi(g)
            out["same"] = out.get("same", True) and [id(x) for x in got] == [id(x) for x in ds.patterns]
            out["stages"].append(stage())
        if c["reload"]:
            ds.importMidi()
            out["stages"].append(stage())
        fresh = [p.copy() for p in ds.patterns]
        if c["vp"]:
            name, desc, st = c["vp"]
            kwv = {} if st is None else {"sliceType": st}
            ds.generateViewpoint(name, descriptor=mkdesc(desc), **kwv)
            for p in fresh:
                p.generateViewpoint(name=name, descriptor=mkdesc(desc), **kwv)
            out["vp"] = pair([dump(p, True) for p in ds.patterns], [dump(p, True) for p in fresh])
        length, viewpoint, kws = c["slice"]
        viewpoint = c["vp"][0] if viewpoint and c["vp"] else None
        if viewpoint:
            kws = dict(kws, viewpointName=viewpoint)
        a = ds.getAllSliceOfDuration(length, **kws)
        b = []
        for p in fresh:
            b += p.splitInEqualLengthPatterns(length, **kws)
        out["slices"] = pair([dump(p) for p in a], [dump(p) for p in b])
        out["after"], out["want"] = pair([dump(p, True) for p in ds.patterns], [dump(p, True) for p in fresh])
        out["kept"] = snapshot(d) == before
        return out

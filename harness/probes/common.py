# -*- coding: utf-8 -*-
"""Building and dumping gsapi objects from/to plain data (Python 2.7 and 3)."""
from __future__ import absolute_import, division, print_function

import os
import shutil
import tempfile

from gsapi import gspattern

SINK = None
SCRATCH = None


def mkevent(d, origin=None):
    """d = [start, duration, pitch, velocity, tag]"""
    kw = {} if origin is None else {"originPattern": origin}
    return gspattern.Event(startTime=d[0], duration=d[1], pitch=d[2], velocity=d[3], tag=d[4], **kw)


def mkpattern(d):
    """d = {"dur":, "ev": [...], optional "bpm", "ts", "key", "name", "start", "res", "path", "vp",
    "tslist": the time signature as a list, "eo": {index: origin pattern of that event}}"""
    kw = {}
    if "bpm" in d:
        kw["bpm"] = d["bpm"]
    if "ts" in d:
        kw["timeSignature"] = list(d["ts"]) if d.get("tslist") else tuple(d["ts"])
    if "key" in d:
        kw["key"] = d["key"]
    if "name" in d:
        kw["name"] = d["name"]
    if "path" in d:
        kw["originFilePath"] = d["path"]
    origins = dict((int(k), v) for k, v in d.get("eo", {}).items())
    evs = [mkevent(e, mkpattern(origins[i]) if i in origins else None) for i, e in enumerate(d["ev"])]
    p = gspattern.Pattern(duration=d["dur"], events=evs or None, **kw)
    if "start" in d:
        p.startTime = d["start"]
    if "res" in d:
        p.resolution = d["res"]
    for k, v in d.get("vp", {}).items():
        q = mkpattern(v)
        q.originPattern = p
        p.viewpoints[k] = q
        for j, w in v.get("vp", {}).items():
            if w.get("up"):                     # refers to the pattern two levels above
                q.viewpoints[j].originPattern = p
    return p


def dumpev(e):
    return [e.startTime, e.duration, e.pitch, e.velocity, e.tag]


def dumpevs(evs):
    return [dumpev(e) for e in evs]


def dump(p, vp=False, inside=()):
    """`inside`: the patterns that led here (an event of a viewpoint may refer back to them)"""
    if p is None:
        return None
    if any(p is x for x in inside):
        return "itself, %d up" % [p is x for x in reversed(inside)].index(True)
    r = {"dur": p.duration, "ev": dumpevs(p.events), "bpm": p.bpm, "ts": tuple(p.timeSignature),
         "key": p.key, "name": p.name, "start": p.startTime, "res": p.resolution,
         "path": p.originFilePath}
    if vp:
        r["vp"] = dict((k, dump(v, True, inside + (p,))) for k, v in p.viewpoints.items())
        r["eo"] = [None if e.originPattern is None else dump(e.originPattern, True, inside + (p,)) for e in p.events]
        r["origin"] = p.originPattern.name if p.originPattern is not None else None
    return r


class scratchdir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=SCRATCH)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, True)
        return False


def writebytes(path, octets):
    with open(path, "wb") as f:
        f.write(bytes(bytearray(octets)))


def readbytes(path):
    with open(path, "rb") as f:
        return [b for b in bytearray(f.read())]

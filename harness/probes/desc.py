# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

from gsapi import gspattern, gsdescriptors, gsextractors, gsdefs
from .common import mkpattern, mkevent, dump, dumpev, dumpevs

SINK = None
SCRATCH = None


class Content(gsdescriptors.BaseDescriptor):
    """a descriptor whose value is the content of the slice it is given"""
    def __init__(self):
        gsdescriptors.BaseDescriptor.__init__(self)
        self.calls = 0

    def getDescriptorForPattern(self, pattern):
        self.calls += 1
        return tuple(sorted(((e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in pattern.events),
                            key=repr))


def mkdesc(d):
    kind = d[0]
    if kind == "content":
        return Content()
    if kind == "density":
        return gsdescriptors.Density(**d[1])
    if kind == "tags":
        return gsdescriptors.NumberOfTags(**d[1])
    if kind == "sync":
        return gsdescriptors.Syncopation()
    if kind == "chord":
        return gsdescriptors.Chord(**d[1])
    raise KeyError(kind)


def plain(v):
    return list(v) if isinstance(v, list) else v


def p_value(c):
    """descriptor values of a sequence of patterns, by one descriptor and by a fresh one each"""
    d = mkdesc(c["d"])
    out = {"one": [], "fresh": [], "kept": []}
    for x in c["ps"]:
        p = mkpattern(x)
        before = dump(p)
        out["one"].append(plain(d.getDescriptorForPattern(p)))
        out["fresh"].append(plain(mkdesc(c["d"]).getDescriptorForPattern(mkpattern(x))))
        out["kept"].append(dump(p) == before)
    return out


def p_drumspace(c):
    s = gsextractors.DensityDrumSpace()
    out = {"vals": [], "kept": []}
    for x in c["ps"]:
        p = mkpattern(x)
        before = dump(p)
        out["vals"].append(s.getFeatureSpace(p))
        out["kept"].append(dump(p) == before)
    return out


def p_viewpoint(c):
    p = mkpattern(c["p"])
    before = dump(p)
    d = mkdesc(c["d"]) if c["d"] else None
    v = p.generateViewpoint(c["name"], d, **c["kw"])
    evs = []
    for e in v.events:
        o = e.originPattern
        again = gsdescriptors.Chord() if d is None else mkdesc(c["d"])
        evs.append({"s": e.startTime, "d": e.duration, "tag": e.tag,
                    "origin": None if o is None else dump(o),
                    "again": again.getDescriptorForPattern(o) if o is not None else None,
                    "is_p": o is p})
    return {"before": before, "after": dump(p), "evs": evs, "vp": dump(v),
            "stored": p.viewpoints.get(c["name"]) is v, "names": sorted(p.viewpoints),
            "origin": v.originPattern is p, "isp": isinstance(v, gspattern.Pattern)}

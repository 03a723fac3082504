# -*- coding: utf-8 -*-
"""Printed and listed forms."""
from __future__ import absolute_import, division, print_function

import copy
import sys
import types

from gsapi import gspattern, gsdescriptors, gstransformers
from .common import mkpattern, dump, dumpevs
from . import sty

SINK = None
SCRATCH = None


def p_pattern(c):
    p = mkpattern(c["p"])
    before = dump(p)
    out = {"repr": repr(p), "str": str(p), "events": [repr(e) for e in p.events], "list": gspattern.patternToList(p),
           "items": [p[i] is e for i, e in enumerate(p.events)], "len": len(p)}
    SINK.take()
    print(p)
    out["printed"] = SINK.take()
    ch = gstransformers.Chordify(mkpattern(c["p"])) if p.events else None
    if ch is not None:
        out["chords"] = [[repr(e), e.startTime, e.duration, [list(x) for x in e.components], e.tag, e.label] for e in ch.events]
        out["whole"] = repr(ch.outputPattern)
    out["ct"] = [repr(gsdescriptors.ChordTag(x)) for x in c["tags"]]
    out["kept"] = dump(p) == before
    return out


def p_table(c):
    s, m = sty.make(c)
    sty.learn(s, c, [mkpattern(p) for p in c["pats"]])
    out = {"table": copy.deepcopy(m.transitionTable), "text": {}}
    for reduce in (True, False):
        for js in (True, False):
            out["text"][reduce, js] = m.getStringTransitionTable(reduceTuples=reduce, jsonStyle=js)
    out["default"] = m.getStringTransitionTable()
    out["repr"] = repr(m)
    out["plots"] = []
    with drawing() as seen:
        for i in c["plot"]:
            del seen[:]
            m.plotGlobalMatrix() if i is None else m.plotMatrixAtStep(i)
            out["plots"].append(dict((k, a[0]) for k, a in seen if k in ("matshow", "set_xticklabels", "set_yticklabels", "set_xticks", "set_yticks")))
            out["plots"][-1]["shown"] = [k for k, a in seen if k == "show"] == ["show"]
    for q in out["plots"]:
        for k in ("set_xticks", "set_yticks"):
            q[k] = list(q[k])
    out["kept"] = m.transitionTable
    return out


class Any(object):
    """stands in for everything of a plotting library, and keeps what it was told"""
    def __init__(self, seen, name=""):
        self.seen, self.name = seen, name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Any(self.seen, k)

    def __call__(self, *a, **kw):
        self.seen.append((self.name, a))
        return (Any(self.seen), Any(self.seen)) if self.name == "subplots" else Any(self.seen)


class drawing(object):
    def __enter__(self):
        self.was = dict((k, sys.modules.get(k)) for k in ("matplotlib", "matplotlib.pyplot"))
        self.seen = []
        top, plt = types.ModuleType("matplotlib"), Any(self.seen)
        top.__path__ = []
        top.pyplot = plt
        sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = top, plt
        return self.seen

    def __exit__(self, *a):
        for k, v in self.was.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False

# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import os

from gsapi import gspattern, gsstyles
from .common import mkpattern, dump, dumpevs, scratchdir

SINK = None
SCRATCH = None


def make(c):
    """a Markov style, and the chain it uses"""
    if c.get("bare"):
        m = gsstyles.PatternMarkov(order=c["order"], numSteps=c["n"], loopDuration=c["loop"])
        return m, m
    s = gsstyles.MarkovStyle(order=c["order"], numSteps=c["n"], loopDuration=c["loop"])
    return s, s.markovChain


def learn(s, c, pats):
    if c.get("bare"):
        s.generateTransitionTableFromPatternList(pats)
    else:
        s.generateStyle(pats)


def chain(m):
    return {"table": m.transitionTable, "order": m.order, "n": m.numSteps, "loop": m.loopDuration}


def p_learn(c):
    s, m = make(c)
    if "first" in c:
        learn(s, c, [mkpattern(p) for p in c["first"]])
    pats = [mkpattern(p) for p in c["pats"]]
    before = [dump(p) for p in pats]
    built0 = s.isBuilt()
    learn(s, c, pats)
    if c.get("twice"):
        getattr(s, "buildStyle", m.buildTransitionTable)()
    out = {"chain": chain(m), "built0": built0, "built": s.isBuilt(), "kept": [dump(p) for p in pats] == before}
    q = []
    steps = list(range(c["n"])) + [-1]
    for i in steps:
        q.append({"in": m.getPossibleInStatesAtStep(i), "out": m.getPossibleOutStatesAtStep(i),
                  "all": m.getAllPossibleStatesAtStep(i), "mat": m.getMatrixAtStep(i)})
    out["q"] = q
    out["all"] = m.getAllPossibleStates()
    ins = sorted(set(x for i in range(c["n"]) for x in m.getPossibleInStatesAtStep(i)), key=repr)
    outs = sorted(set(x for i in range(c["n"]) for x in m.getPossibleOutStatesAtStep(i)), key=repr)
    acc = [[0] * len(outs) for _ in ins]
    for i in range(c["n"]):
        m.getMatrixAtStep(i, possibleStatesIn=ins, possibleStatesOut=outs, matrix=acc)
    out["acc"] = [acc, ins, outs]
    repr(m)
    m.getStringTransitionTable()
    out["again"] = m.transitionTable == out["chain"]["table"]
    out["table2"] = m.transitionTable
    return out


def brief(p):
    return {"dur": p.duration, "ev": dumpevs(p.events)}


def p_generate(c):
    s, m = make(c)
    learn(s, c, [mkpattern(p) for p in c["pats"]])
    table = [dict((k, dict(v)) for k, v in t.items()) for t in m.transitionTable]
    gen = [brief(s.generatePattern(seed=x)) for x in c["seeds"]]
    again = [brief(s.generatePattern(seed=x)) for x in reversed(c["seeds"]) if x is not None]
    s2, m2 = make(c)
    learn(s2, c, [mkpattern(p) for p in c["pats"]])
    other = [brief(s2.generatePattern(seed=x)) for x in c["seeds"][:2]]
    return {"table": table, "gen": gen, "again": again[::-1], "other": other, "same": m.transitionTable == table}


def p_frequencies(c):
    """per seed, the tags that start on every step"""
    s, m = make(c)
    learn(s, c, [mkpattern(p) for p in c["pats"]])
    ss = c["loop"] / float(c["n"])
    rows = []
    for x in c["seeds"]:
        p = s.generatePattern(seed=x)
        st = [set() for _ in range(c["n"])]
        for e in p.events:
            st[int(round(e.startTime / ss))].add(e.tag)
        rows.append(st)
    return {"table": m.transitionTable, "rows": rows}


def transfer(how, a, b, d):
    if how == "state":
        b.setInternalState(a.getInternalState())
    elif how == "json":
        a.saveToJSON(os.path.join(d, "s.json"))
        b.loadFromJSON(os.path.join(d, "s.json"))
    else:
        a.saveToPickle(os.path.join(d, "s.pkl"))
        b.loadFromPickle(os.path.join(d, "s.pkl"))
    return b


def p_markovsave(c):
    a, am = make(c)
    if c["built"]:
        learn(a, c, [mkpattern(p) for p in c["pats"]])
    out = {"a": chain(am), "abuilt": a.isBuilt()}
    with scratchdir() as d:
        for how in c["hows"]:
            b, bm = make(dict(c, order=c["order2"], n=c["n2"], loop=c["loop2"]))
            if c["dirty"]:
                learn(b, c, [mkpattern(p) for p in c["other"]])
            a = transfer(how, a, b, d)
            am = a if c.get("bare") else a.markovChain
        out["files"] = sorted(os.listdir(d))
    out["b"] = chain(am)
    out["bbuilt"] = a.isBuilt()
    out["gen"] = [brief(a.generatePattern(seed=x)) for x in c["seeds"]] if c["built"] else []
    return out


def p_dbsave(c):
    pats = [mkpattern(p) for p in c["pats"]]
    a = gsstyles.DatabaseStyle(c["ord"])
    a.generateStyle(pats)
    out = {"built": [a.isBuilt()]}
    if c["idx"] and pats:
        a.currentIdx = c["idx"] % len(pats)
    with scratchdir() as d:
        for how in c["hows"]:
            b = gsstyles.DatabaseStyle(c["ord"])
            if c["dirty"]:
                b.generateStyle([mkpattern(p) for p in c["pats"][:1] or [{"dur": 2, "ev": [[0, 1, 60, 100, "Old"]]}]])
            b.currentIdx = a.currentIdx
            transfer(how, a, b, d)
            a = b
            out["built"].append(a.isBuilt())
    out["list"] = [dump(p, True) for p in a.patternList]
    out["want"] = [dump(p, True) for p in pats]
    out["got"] = [dump(a.generatePattern(), True) for _ in range(c["k"])] if pats else []
    return out


def p_format(c):
    s, m = make(c)
    p = mkpattern(c["p"])
    q = s if c["by"] == "style" else m
    q.formatPattern(p)
    r = dump(p)
    past = [[dumpevs(evs) for evs in (s if c["by2"] == "style" else m).getLastEvents(p, i, k, w)] for i, k, w in c["back"]]
    return {"p": r, "after": dump(p), "past": past}

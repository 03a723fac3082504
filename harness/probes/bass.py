# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import inspect
import json
import os
import random

import numpy as np

from gsapi import bassmine, gsio
from gsapi.gspattern import Event, Pattern
from .common import scratchdir, dumpev

SINK = None
SCRATCH = None


def plain(x):
    if isinstance(x, dict):
        return dict((plain(k), plain(v)) for k, v in x.items())
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def p_code(c):
    onsets = list(c["onsets"])
    m = bassmine.binaryBeatPattern(onsets, c["dur"], **c["kw"])
    out = {"m": plain(m), "kept": onsets == c["onsets"]}
    if not c["kw"] or c["kw"]["resolution"] == 4:
        out["codes"] = plain(bassmine.translate_rhythm(m))
        out["listcodes"] = plain(bassmine.translate_rhythm(plain(m)))
    return out


def p_dictionary(c):
    with scratchdir() as d:
        path = os.path.join(d, *c["sub"])
        got = bassmine.createMarkovGenerationDictionary(c["json"], path + os.sep if c["slash"] else path)
        out = {"got": plain(got), "again": plain(bassmine.createMarkovGenerationDictionary())}
        name = os.path.join(path, "pattern_dict.json")
        out["file"] = json.load(open(name)) if os.path.exists(name) else None
        out["back"] = [plain(bassmine.translate_rhythm(bassmine.binaryBeatPattern(
            [s + b for b, x in enumerate(c["codes"]) for s in got["patterns"][x]], len(c["codes"]))))]
        return out


def tables(m):
    return {"initial": plain(m.get_initial()), "temporal": plain(m.get_temporal()), "inter": plain(m.get_interlocking()),
            "sup": [plain(m.support_initial), plain(m.support_temporal), plain(m.support_interlocking)]}


def p_model(c):
    size = c["size"]
    m = bassmine.MarkovModel(tuple(size) if isinstance(size, list) else size)
    out = {"stages": []}
    for op in c["ops"]:
        seqs = [list(s) for s in op[1:]]
        if c["arrays"]:
            seqs = [np.array(s, dtype=int) for s in seqs]
        if op[0] == "temporal":
            m.add_temporal(*seqs)
        elif op[0] == "inter":
            m.add_interlocking(*seqs)
        else:
            m.normalize_model()
            out["stages"].append(tables(m))
    m.normalize_model()
    out["stages"].append(tables(m))
    out["dicts"] = [plain(bassmine.markov_tm_2dict(x)) for x in (m.get_initial(), m.get_temporal(), m.get_interlocking())]
    with scratchdir() as d:
        got = m.rhythm_model(d + os.sep if c["slash"] else d)
        out["rhythm"] = plain(got)
        out["files"] = [json.load(open(os.path.join(d, n))) for n in ("HModel_init.json", "HModel.json")]
    if size == 25:
        out["pitch"] = plain(m.pitch_model())
    out["last"] = tables(m)
    return out


def mkmodel(pairs):
    m = bassmine.MarkovModel(16)
    for kick, bass in pairs:
        m.add_temporal(bass)
        m.add_interlocking(kick, bass)
    m.normalize_model()
    return m


def onsets(codes, jitter=(0,)):
    n = 0
    for b, c in enumerate(codes):
        for i in range(4):
            if c & (8 >> i):
                yield b + i / 4 + jitter[n % len(jitter)]
                n += 1


def p_corpus(c):
    """the analysis of a folder of files; a table stands in for the MIDI reader, which Python 3 cannot run"""
    with scratchdir() as d:
        d = os.path.realpath(d)
        bd, dd = os.path.join(d, c["dirs"][0]), os.path.join(d, c["dirs"][1])
        table = {}
        for x in (bd, dd):
            if not os.path.isdir(x):
                os.makedirs(x)
        for name, kick, bass, other in c["songs"]:
            for folder, kind, codes in ((bd, "bass", bass), (dd, "drums", kick)):
                path = os.path.join(folder, kind + "_" + name + ".mid")
                open(path, "w").close()
                ev = [(t, 36 if kind == "drums" else 40, "Kick" if kind == "drums" else "E2") for t in onsets(codes, c["jitter"])]
                if kind == "drums":
                    ev += [(t, 38, None) for t in onsets(other)]
                if c["shuffle"]:
                    random.Random(c["shuffle"]).shuffle(ev)
                table[os.path.realpath(path)] = (ev, len(codes))
        real = gsio.fromMidiFile
        sig = inspect.signature(real)

        def reader(*args, **kw):
            b = sig.bind(*args, **kw)
            b.apply_defaults()
            a = b.arguments
            ev, dur = table[os.path.realpath(a["midiFile"])]
            p = Pattern(duration=dur, name=os.path.basename(a["midiFile"]))
            for t, pitch, _ in ev:
                tagmap = a["noteToTagMap"]
                if tagmap == "pitchName":
                    tag = "E2"
                else:
                    tag = [k for k, v in tagmap.items() if pitch == v or (isinstance(v, (list, tuple)) and pitch in v)]
                    if not tag and a["filterOutNotMapped"]:
                        continue
                    tag = tag[0] if tag else None
                p.events.append(Event(t, 0.25, pitch, 100, tag))
            return p
        gsio.fromMidiFile = reader
        try:
            end = "/" if c.get("slash") else ""
            m, kicks = bassmine.corpus_analysis(bd + end, dd + end)
        finally:
            gsio.fromMidiFile = real
        m.normalize_model()
        return {"t": tables(m), "kicks": [[[e.startTime for e in k.events], k.duration] for k in kicks]}


def dumpline(p):
    return None if p is None else {"dur": plain(p.duration), "ev": [plain(dumpev(e)) for e in p.events]}


def mktarget(codes, jitter, extra=0):
    return Pattern(duration=len(codes) - extra, events=[Event(t, 0.25, 36, 100, "Kick") for t in onsets(codes, jitter)] or None)


def p_free(c):
    m = mkmodel(c["pairs"])
    out = {"lines": []}
    for s in c["seeds"]:
        np.random.seed(s)
        out["lines"].append(dumpline(bassmine.generateBassRhythm(m, *c["length"])))
    np.random.seed(c["seeds"][0])
    out["same"] = dumpline(bassmine.generateBassRhythm(m, *c["length"])) == out["lines"][0]
    return out


def p_locked(c):
    m = mkmodel(c["pairs"])
    before = tables(m)
    t = mktarget(c["target"], c["jitter"], c["short"])
    ev = [dumpev(e) for e in t.events]
    with scratchdir() as d:
        got = bassmine.constrainMM(m, t, d + os.sep if c["slash"] else d)
        out = {"model": plain(got), "files": [json.load(open(os.path.join(d, n))) for n in ("Model_init.json", "NHModel.json")]}
    out["lines"] = []
    for s in c["seeds"]:
        np.random.seed(s)
        out["lines"].append(dumpline(bassmine.generateBassRhythm(m, c["length"], t)))
    out["kept"] = tables(m) == before and ev == [dumpev(e) for e in t.events]
    return out


def p_vary(c):
    m = mkmodel(c["pairs"])
    before = tables(m)
    t = Pattern(duration=len(c["line"]), events=[Event(x, 0.25, 36, 110, "bass") for x in onsets(c["line"])] or None)
    ev = [dumpev(e) for e in t.events]
    mask = list(c["mask"])
    out = {"lines": []}
    for s in c["seeds"]:
        np.random.seed(s)
        out["lines"].append(dumpline(bassmine.generateBassRhythmVariation(m, t, mask)))
    with scratchdir() as d:
        masked = [x if i == 0 or c["mask"][i] > 0 else -1 for i, x in enumerate(c["line"])]
        got = bassmine.variationMM(m, masked, d + os.sep if c["slash"] else d)
        out["model"] = plain(got)
        out["files"] = [json.load(open(os.path.join(d, n))) for n in ("Model_init_var.json", "NHModel_var.json")]
    out["kept"] = tables(m) == before and mask == c["mask"] and ev == [dumpev(e) for e in t.events]
    return out


def p_draws(c):
    random.seed(c["seed"])
    probs = list(c["probs"])
    out = {"pdf": [plain(bassmine.pdf_sampling(probs)) for _ in range(c["n"])]}
    out["kept"] = probs == c["probs"]
    return out


def p_often(c):
    """how often each pair of beats comes out"""
    m = mkmodel(c["pairs"])
    np.random.seed(c["seed"])
    count = {}
    for _ in range(c["n"]):
        p = bassmine.generateBassRhythm(m, 2, *([mktarget(c["target"], [0])] if c["target"] else []))
        key = tuple(sorted(plain(e.startTime) for e in p.events))
        count[key] = count.get(key, 0) + 1
    return {"count": [[list(k), v] for k, v in sorted(count.items())]}
